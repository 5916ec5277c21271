"""Systematic mutants (development only): automut.py OUT N SEED [FILE...]

Enumerates first-order mutants of the package (comparisons, arithmetic, boolean operators, integer
constants, NaN-aware functions, min/max, dropped statements), draws N of them (stratified by
function) and runs the checks responsible for the file until one catches it.
"""
import ast, os, random, shutil, subprocess, sys, tempfile, time
from pathlib import Path

OWN = {
    "modules/snow/multilayermodel.py": "C01,C22,C03", "modules/snow/cryolayermodel.py": "C24,C02,C25",
    "modules/snow/snow.py": "C21,C24,C22", "surface.py": "C25,C22,C04,C26",
    "heatconduction.py": "C22,C04", "modules/canopy/canopy.py": "C14", "landcover.py": "C14,C26",
    "modules/evapotranspiration/evapotranspiration.py": "C15,C26",
    "modules/glacier/glaciermodel.py": "C16", "terrain.py": "C17,C10",
    "modules/radiation/clearsky.py": "C18,C17", "modules/radiation/irradiance.py": "C18,C17",
    "modules/radiation/sunparams.py": "C18", "modules/radiation/shadows.py": "C17",
    "fileio/griddedoutput.py": "C06", "fileio/pointoutput.py": "C07", "fileio/raster.py": "C20",
    "model.py": "C08,C26,C20,C05,C27,C12", "forcing.py": "C09,C27", "fileio/meteo.py": "C09",
    "meteo/interpolation.py": "C10", "interpolation.py": "C10", "conf.py": "C11",
    "meteo/precipcorr.py": "C13", "meteo/atmosphere.py": "C23", "statevars.py": "C26,C12",
    "util.py": "C20,C11,C06", "modules/soil/soil.py": "C22,C26", "modules/soil/init.py": "C26,C22",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = {"nanmean": "mean", "nansum": "sum", "nanmin": "min", "nanmax": "max", "nanargmax": "argmax",
         "minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "floor": "ceil",
         "ceil": "floor", "any": "all", "all": "any", "isfinite": "isnan", "sin": "cos", "cos": "sin",
         "ones": "zeros", "nan_to_num": "asarray"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                f = f"{fn}.{ch.name}"
            walk(ch, f)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                out.append((fn, node.lineno, "cmp", *pos(node), f"{seg(node.left)} {o} {seg(node.comparators[0])}"))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if not isinstance(node.left, (ast.Constant, ast.JoinedStr)) or not isinstance(getattr(node.left, "value", 0), str):
                out.append((fn, node.lineno, "bin", *pos(node), f"({seg(node.left)}) {BIN[type(node.op)]} ({seg(node.right)})"))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitAnd, ast.BitOr)):
            out.append((fn, node.lineno, "mask", *pos(node), f"({seg(node.left)})"))
            out.append((fn, node.lineno, "mask", *pos(node), f"({seg(node.right)})"))
        elif isinstance(node, ast.BoolOp):
            for k in range(len(node.values)):
                rest = [seg(v) for i, v in enumerate(node.values) if i != k]
                j = " and " if isinstance(node.op, ast.And) else " or "
                out.append((fn, node.lineno, "bool", *pos(node), "(" + j.join(rest) + ")"))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append((fn, node.lineno, "not", *pos(node), f"({seg(node.operand)})"))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Invert):
            out.append((fn, node.lineno, "inv", *pos(node), f"({seg(node.operand)})"))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            out.append((fn, node.lineno, "neg", *pos(node), f"({seg(node.operand)})"))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
            v = node.value
            out.append((fn, node.lineno, "const", *pos(node), repr(v + 1 if isinstance(v, int) else (v * 1.1 if v else 1.0))))
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            out.append((fn, node.lineno, "name", *pos(node), f"{seg(node.value)}.{NAMES[node.attr]}"))
        elif isinstance(node, ast.Name) and node.id in ("min", "max", "any", "all") and isinstance(node.ctx, ast.Load):
            out.append((fn, node.lineno, "name", *pos(node), NAMES[node.id]))
        elif isinstance(node, ast.AugAssign) or (isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute))) \
                or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and "logger" not in seg(node)):
            out.append((fn, node.lineno, "drop", *pos(node), "pass"))

    walk(tree, "")
    res = []
    for fn, ln, kind, a, e, new in out:
        s = (b[:a] + new.encode() + b[e:]).decode()
        try:
            compile(s, "x", "exec")
        except SyntaxError:
            continue
        res.append((fn, ln, kind, b[a:e].decode(), new, s))
    return res


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(OWN)
    src_repo = os.environ.get("MUT_SRC", "/repo")
    w = Path(tempfile.mkdtemp(prefix="automut_", dir="/tmp"))
    subprocess.run(["cp", "-a", src_repo, w / "repo"], check=True)
    rng = random.Random(seed)
    pool = []
    for f in files:
        src = (w / "repo/openamundsen" / f).read_text()
        ms = mutants(src)
        by = {}
        for m in ms:
            by.setdefault(m[0], []).append(m)
        for fn, l in by.items():
            rng.shuffle(l)
            for rank, m in enumerate(l):
                pool.append((rank / len(l) ** 0.5 + rng.random() * 0.3, f, m))
    print(len(pool), "mutants")
    pool.sort(key=lambda x: x[0])
    done = set(open(outp).read().split("\n")) if os.path.exists(outp) else set()
    log = open(outp, "a")
    try:
        for _, f, (fn, ln, kind, old, new, s) in pool[:n]:
            p = w / "repo/openamundsen" / f
            src = p.read_text()
            p.write_text(s)
            t = time.time()
            res = "MISSED"
            by = "-"
            try:
                for prop in OWN[f].split(","):
                    r = subprocess.run(["/verif/check.sh", prop, "quick"], capture_output=True, text=True,
                                       env=dict(os.environ, OAMC_DEV_REPO=str(w / "repo"), OAMC_MAX="1"))
                    if r.returncode:
                        res, by = ("caught" if r.returncode == 1 else f"ERROR{r.returncode}"), prop
                        break
            finally:
                p.write_text(src)
            log.write(f"{res} {by} {f}:{ln} {fn} [{kind}] {old!r} -> {new!r} {time.time()-t:.0f}s\n")
            log.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
