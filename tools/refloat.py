"""Behaviour-preserving edits (development only): refloat.py REPO_COPY
Re-associates sums and products in the whole package; results differ by rounding only."""
import ast
import sys
from pathlib import Path

pkg = Path(sys.argv[1]) / "openamundsen"
n = 0


class T(ast.NodeTransformer):
    def visit_BinOp(self, node):
        global n
        self.generic_visit(node)
        l = node.left
        if isinstance(l, ast.BinOp):
            a, b, c = l.left, l.right, node.right
            if isinstance(node.op, ast.Mult) and isinstance(l.op, ast.Mult):
                n += 1
                return ast.BinOp(a, ast.Mult(), ast.BinOp(b, ast.Mult(), c))
            if isinstance(node.op, ast.Add) and isinstance(l.op, ast.Add):
                n += 1
                return ast.BinOp(a, ast.Add(), ast.BinOp(b, ast.Add(), c))
            if isinstance(node.op, ast.Div) and isinstance(l.op, ast.Mult):
                n += 1
                return ast.BinOp(a, ast.Mult(), ast.BinOp(b, ast.Div(), c))
            if isinstance(node.op, ast.Mult) and isinstance(l.op, ast.Div):
                n += 1
                return ast.BinOp(ast.BinOp(a, ast.Mult(), c), ast.Div(), b)
            if isinstance(node.op, ast.Sub) and isinstance(l.op, ast.Add):
                n += 1
                return ast.BinOp(a, ast.Add(), ast.BinOp(b, ast.Sub(), c))
        return node


files = sys.argv[2:] or [str(f.relative_to(pkg)) for d in ("modules", "meteo") for f in (pkg / d).rglob("*.py")] \
    + ["surface.py", "heatconduction.py", "interpolation.py", "terrain.py", "tridiag.py", "landcover.py"]
for f in files:
    p = pkg / f
    t = T().visit(ast.parse(p.read_text()))
    p.write_text(ast.unparse(ast.fix_missing_locations(t)) + "\n")
print(n, "re-associations")
