"""Controlled execution of the parallel (prange) loops of the package.

Every function of the package containing a loop over numba's ``prange`` is rewritten (at run time,
in memory) so that the loop body becomes a task per iteration. Running such a loop

* executes the iterations in order while recording all accesses of each iteration to arrays shared
  between iterations (anything defined outside of the loop body),
* computes the conflicts: accesses of two iterations to the same element, at least one of them
  writing. Without a conflict, all iterations are independent, i.e. all interleavings are equivalent
  to the executed one (dynamic partial order reduction with an empty backtrack set),
* for every conflicting pair of iterations, explores all interleavings with up to two preemptions at
  the conflicting accesses (each iteration running in its own, controlled thread) from the state
  before the loop, and compares the resulting contents of the shared arrays with those of the
  sequential execution.

Slice assignments in functions compiled for parallel execution are executed in ascending and
descending order of the elements if source and target overlap.

In addition the sequential execution is compared with one in which names assigned both before and in
the loop body are carried over between the iterations. Variables assigned in the loop body are private to the iteration (as in numba), augmented
assignments to names defined outside only are reductions (excluded: numba handles them atomically).
"""

import ast
import copy
import importlib
import inspect
import itertools
import pkgutil
import textwrap
import threading

import numpy as np

MAX_PAIRS = 60  # conflicting pairs per loop execution
MAX_SCHED = 200  # schedules per pair
MAX_KERNEL = 3000  # pairs per kernel and case


class State:
    def __init__(self):
        self.active = None  # callable(addresses, write) while iterations are running
        self.ranges = []
        self.kernels = {}
        self.stats = None
        self.fail = None


S = State()


def _addr(a):
    base = a.__array_interface__["data"][0]
    off = np.zeros(a.shape, dtype=np.int64)
    for d, (n, s) in enumerate(zip(a.shape, a.strides)):
        sh = [1] * a.ndim
        sh[d] = n
        off = off + (np.arange(n) * s).reshape(sh)
    return base + off


def _access(a, key, write):
    f = S.active
    if f is None:
        return
    base = a.__array_interface__["data"][0]
    for lo, hi in S.ranges:
        if lo <= base < hi:
            break
    else:
        return
    try:
        if type(key) is tuple and len(key) == a.ndim and all(
                isinstance(k, (int, np.integer)) and 0 <= k < n for k, n in zip(key, a.shape)):
            f((base + sum(int(k) * s for k, s in zip(key, a.strides)),), write)
            return
        if isinstance(key, (int, np.integer)) and a.ndim == 1 and 0 <= key < a.shape[0]:
            f((base + int(key) * a.strides[0],), write)
            return
        ad = _addr(a)
        ad = ad if key is Ellipsis else ad[key]
    except IndexError:
        return  # raised by the access itself
    f(tuple(np.ravel(ad).tolist()), write)


def _plain(x):
    if isinstance(x, Rec):
        return x.view(np.ndarray)
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(v) for v in x)
    return x


def _reads(x):
    if isinstance(x, Rec):
        _access(x, Ellipsis, False)
    elif isinstance(x, (tuple, list)):
        for v in x:
            _reads(v)


class Rec(np.ndarray):
    """View recording the accesses to its elements."""

    def __getitem__(self, key):
        key = _plain(key)
        _access(self, key, False)
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        key = _plain(key)
        _reads(value)
        _access(self, key, True)
        self.view(np.ndarray)[key] = _plain(value)

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def fill(self, value):
        _access(self, Ellipsis, True)
        self.view(np.ndarray).fill(value)

    def sort(self, *a, **k):
        _access(self, Ellipsis, True)
        self.view(np.ndarray).sort(*a, **k)

    def copy(self, *a, **k):
        _access(self, Ellipsis, False)
        return self.view(np.ndarray).copy(*a, **k)

    def astype(self, *a, **k):
        _access(self, Ellipsis, False)
        return self.view(np.ndarray).astype(*a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for x in inputs:
            _reads(x)
        kw = {k: _plain(v) for k, v in kw.items()}
        if out is not None:
            for o in out:
                if isinstance(o, Rec):
                    _access(o, Ellipsis, True)
            kw["out"] = tuple(_plain(o) for o in out)
        if method == "at" and isinstance(inputs[0], Rec):
            _access(inputs[0], Ellipsis, True)
        res = getattr(ufunc, method)(*[_plain(x) for x in inputs], **kw)
        if out is not None and len(out) == 1:
            return out[0]
        return res

    def __array_function__(self, func, types, args, kwargs):
        for x in args:
            _reads(x)
        for x in kwargs.values():
            _reads(x)
        if func.__name__ in ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"):
            _access(args[0], Ellipsis, True)
        if isinstance(kwargs.get("out"), Rec):
            _access(kwargs["out"], Ellipsis, True)
        return func(*[_plain(x) for x in args], **{k: _plain(v) for k, v in kwargs.items()})


# ---------------------------------------------------------------------------------------------
class _Continue(ast.NodeTransformer):
    """continue -> return in the body of the rewritten loop (not in nested loops)."""

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=None), node)

    def _skip(self, node):
        return node

    visit_For = visit_While = visit_FunctionDef = visit_Lambda = _skip


def _stores(nodes):
    plain, aug = set(), set()
    for root in nodes:
        skip = set()
        for n in ast.walk(root):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    skip |= {id(x) for x in ast.walk(g.target)}
        for n in ast.walk(root):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.add(n.target.id)
                skip.add(id(n.target))
        for n in ast.walk(root):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in skip:
                plain.add(n.id)
    return plain, aug


class _Loops(ast.NodeTransformer):
    def __init__(self, is_prange, fdef):
        self.is_prange = is_prange
        self.fdef = fdef
        self.count = 0

    def visit_For(self, node):
        if not (isinstance(node.iter, ast.Call) and self.is_prange(node.iter.func)):
            return self.generic_visit(node)
        if not isinstance(node.target, ast.Name) or node.orelse or node.iter.keywords:
            raise NotImplementedError
        a = self.fdef.args
        before = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for n in ast.walk(self.fdef):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < node.lineno:
                before.add(n.id)
        plain, aug = _stores(node.body)
        inside = {id(n) for n in ast.walk(node)}
        later = {}  # first use after the loop
        for n in ast.walk(self.fdef):
            if isinstance(n, ast.Name) and id(n) not in inside and n.lineno > node.end_lineno:
                pos = (n.lineno, isinstance(n.ctx, ast.Store), n.col_offset)
                later[n.id] = min(later.get(n.id, pos), pos)
        needed = {n for n, pos in later.items() if not pos[1]}
        before.discard(node.target.id)
        red = sorted(n for n in (aug - plain) | (plain & needed) if n in before)
        private = sorted(n for n in plain if n in before and n not in red)
        self.count += 1
        name = f"_oamc_body_{self.count}"
        body = [_Continue().visit(s) for s in node.body]

        def function(name, private, shared):
            args = ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=n) for n in [node.target.id, *private]],
                kwonlyargs=[], kw_defaults=[],
                defaults=[ast.Name(id=p, ctx=ast.Load()) for p in private])
            decl = [ast.Nonlocal(names=shared)] if shared else []
            return ast.copy_location(ast.FunctionDef(
                name=name, args=args, body=decl + copy.deepcopy(body), decorator_list=[],
                type_params=[]), node)

        # nested parallel loops are sequential in numba
        out = [function(name, private, red)]
        carry = ast.Constant(None)
        if private and not red:
            out.append(function(name + "_carry", [], private))
            carry = ast.Name(id=name + "_carry", ctx=ast.Load())
        call = ast.Expr(ast.Call(
            func=ast.Name(id="_oamc_parallel", ctx=ast.Load()),
            args=[ast.Name(id=name, ctx=ast.Load()), ast.Constant(bool(red)),
                  ast.Constant(self.fdef.name), carry, *node.iter.args], keywords=[]))
        return [*out, ast.copy_location(call, node)]


class _Assign(ast.NodeTransformer):
    """x[key] = value -> _oamc_setitem(x, key, value): numba distributes the assignment."""

    def __init__(self, fdef):
        self.fdef = fdef
        self.count = 0

    def visit_Assign(self, node):
        t = node.targets[0]
        if len(node.targets) != 1 or not isinstance(t, ast.Subscript):
            return node
        parts = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        if not any(isinstance(x, ast.Slice) for x in parts):
            return node
        self.count += 1
        key = ast.Subscript(value=ast.Name(id="_oamc_key", ctx=ast.Load()), slice=t.slice,
                            ctx=ast.Load())
        return ast.copy_location(ast.Expr(ast.Call(
            func=ast.Name(id="_oamc_setitem", ctx=ast.Load()),
            args=[t.value, key, node.value, ast.Constant(self.fdef.name)], keywords=[])), node)


def _is_parallel(fdef):
    return any(isinstance(d, ast.Call) and any(
        k.arg == "parallel" and isinstance(k.value, ast.Constant) and k.value.value is True
        for k in d.keywords) for d in fdef.decorator_list)


def setitem(arr, key, val, kernel):
    if S.stats is not None and S.active is None and isinstance(val, np.ndarray) and isinstance(
            arr, np.ndarray):
        tgt = arr[key]
        if isinstance(tgt, np.ndarray) and tgt.ndim and tgt.size and np.shares_memory(tgt, val):
            src = np.broadcast_to(val, tgt.shape)
            old = tgt.copy()
            res = []
            for order in (1, -1):
                for i in list(np.ndindex(tgt.shape))[::order]:
                    tgt[i] = src[i]
                res.append(tgt.copy())
                tgt[...] = old
            S.stats["schedules"] += 2
            S.stats["conflicts"] += 1
            if not _same(*res):
                S.fail("the result of a parallel assignment depends on the order of its elements",
                       kernel=kernel, ascending=res[0], descending=res[1])
    arr[key] = val


def instrument():
    """Rewrite all kernels of the package; returns their names."""
    import numba
    import openamundsen

    mods = [openamundsen]
    for info in pkgutil.walk_packages(openamundsen.__path__, "openamundsen."):
        if "liveview" in info.name:
            continue
        try:
            mods.append(importlib.import_module(info.name))
        except ImportError:
            pass
    done = {}
    for mod in mods:
        for name, fn in list(vars(mod).items()):
            if not inspect.isfunction(fn) or fn.__module__ != mod.__name__ or fn.__closure__:
                continue
            glob = fn.__globals__

            def is_prange(node):
                try:
                    return eval(compile(ast.Expression(node), "<p>", "eval"), glob) is numba.prange
                except Exception:
                    return False

            try:
                tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
                fdef = tree.body[0]
                if not isinstance(fdef, ast.FunctionDef):
                    continue
                t = _Loops(is_prange, fdef)
                par = _Assign(fdef) if _is_parallel(fdef) else None
                fdef.decorator_list = []
                new = t.visit(tree)
                if par is not None:
                    new = par.visit(new)
                if not t.count and not (par is not None and par.count):
                    continue
                ast.fix_missing_locations(new)
                ns = {}
                glob.setdefault("_oamc_parallel", parallel)
                glob.setdefault("_oamc_setitem", setitem)
                glob.setdefault("_oamc_key", np.s_)
                exec(compile(new, f"<parallel {mod.__name__}.{name}>", "exec"), glob, ns)
                done[fn] = (mod.__name__, name, ns[fdef.name])
            except (NotImplementedError, OSError, SyntaxError):
                continue  # executed as it is
    for mod in mods:
        for name, v in list(vars(mod).items()):
            if inspect.isfunction(v) and v in done:
                setattr(mod, name, done[v][2])
    return [f"{m}.{n}" for m, n, _ in done.values()]


# ---------------------------------------------------------------------------------------------
def _shared(body):
    """Closure cells of the loop body holding arrays."""
    out = []
    for cell in body.__closure__ or ():
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        if isinstance(v, np.ndarray):
            out.append((cell, v))
    return out


def _span(a):
    lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
    return lo, hi


def parallel(body, reduction, kernel, carry, *args):
    its = list(range(*[int(a) for a in args]))
    if S.stats is None or S.active is not None or len(its) < 2:
        for i in its:
            body(i)
        return
    cells = _shared(body)
    arrays = [a for _, a in cells]
    ranges = [_span(a) for a in arrays if a.size]
    before = [a.copy() for a in arrays]
    foot = {}

    def run(i):
        trace = []
        S.active = lambda ad, w: trace.append((ad, w))
        try:
            body(i)
        finally:
            S.active = None
        return trace

    S.ranges = ranges
    try:
        for cell, a in cells:
            cell.cell_contents = a.view(Rec)
        try:
            for i in its:
                foot[i] = run(i)
        except Exception:
            # fails likewise without recording, or else cannot be recorded
            for cell, a in cells:
                cell.cell_contents = a
            for a, v in zip(arrays, before):
                a[...] = v
            for i in its:
                body(i)
            S.stats["unrecorded"] += 1
            return
        if not reduction:
            conflicts(body, kernel, its, foot, arrays, before)
        if carry is not None:
            carried(carry, kernel, its, arrays, before)
    finally:
        for cell, a in cells:
            cell.cell_contents = a
        S.ranges = []
    S.stats["loops"] += 1
    S.stats["iterations"] += len(its)
    S.stats["accesses"] += sum(len(t) for t in foot.values())
    S.stats["kernels"].add(kernel)


def carried(carry, kernel, its, arrays, before):
    """Names assigned before the loop and in its body: the result must not depend on whether an
    iteration sees the value of the preceding one (same thread) or the initial one (other thread)."""
    after = [a.copy() for a in arrays]
    for x, v in zip(arrays, before):
        x[...] = v
    try:
        for i in its:
            carry(i)
        diff = [(x.copy(), v) for x, v in zip(arrays, after) if not _same(x, v)]
    finally:
        for x, v in zip(arrays, after):
            x[...] = v
    S.stats["schedules"] += 1
    if diff:
        S.fail("the result of a parallel loop depends on which iterations share a thread",
               kernel=kernel, same_thread=np.asarray(diff[0][0]), other=np.asarray(diff[0][1]))


def _same(got, exp):
    if got.dtype.kind in "fc":
        return np.allclose(got, exp, rtol=1e-9, atol=0, equal_nan=True)
    return np.array_equal(got, exp)


def conflicts(body, kernel, its, foot, arrays, before):
    """Find conflicting pairs of iterations and explore their interleavings."""
    readers, writers = {}, {}
    for i in its:
        for ad, w in foot[i]:
            d = writers if w else readers
            for x in ad:
                d.setdefault(x, set()).add(i)
    pairs = {}
    for x, ws in writers.items():
        both = ws | readers.get(x, set())
        if len(both) < 2:
            continue
        for a in ws:
            for b in both:
                if a != b:
                    pairs.setdefault((min(a, b), max(a, b)), set()).add(x)
    S.stats["pairs"] += len(its) * (len(its) - 1) // 2
    if not pairs:
        return
    S.stats["conflicts"] += len(pairs)
    after = [a.copy() for a in arrays]
    try:
        for (a, b), addr in sorted(pairs.items())[:MAX_PAIRS]:
            S.kernels[kernel] = S.kernels.get(kernel, 0) + 1
            if S.kernels[kernel] > MAX_KERNEL:
                break
            if explore(body, kernel, a, b, addr, arrays, before):
                break
    finally:
        for x, v in zip(arrays, after):
            x[...] = v


def explore(body, kernel, a, b, addr, arrays, before):
    def restore():
        for x, v in zip(arrays, before):
            x[...] = v

    restore()
    count = {}
    for i in (a, b):  # the sequential execution and the conflicting accesses in it
        hits = []
        n = [0]

        def f(ad, w, hits=hits, n=n):
            if not addr.isdisjoint(ad):
                hits.append(n[0])
            n[0] += 1

        S.active = f
        try:
            body(i)
        finally:
            S.active = None
        count[i] = hits
    ref = [x.copy() for x in arrays]
    scheds = []
    for x, y in ((a, b), (b, a)):
        # x runs up to a conflicting access, y up to one of its own, then x and y complete
        for p, q in itertools.product([*count[x], None], [*count[y], None]):
            if p is None and q is None and (x, y) == (a, b):
                continue
            scheds.append((x, p, y, q))
    S.stats["schedules_truncated"] += len(scheds) > MAX_SCHED
    for x, p, y, q in scheds[:MAX_SCHED]:
        restore()
        interleave(body, x, p, y, q)
        S.stats["schedules"] += 1
        for got, exp in zip(arrays, ref):
            if not _same(got, exp):
                S.fail("the result of a parallel loop depends on the schedule of its iterations",
                       kernel=kernel, first=x, preempted_at=p, second=y, second_preempted_at=q,
                       got=np.asarray(got), sequential=np.asarray(exp))
                return True
    return False


def interleave(body, x, p, y, q):
    """Run iteration x until its p-th shared access, y until its q-th, then complete x and y."""
    main = threading.Semaphore(0)
    go = {x: threading.Semaphore(0), y: threading.Semaphore(0)}
    stop = {x: p, y: q}
    n = {x: 0, y: 0}
    who = {}
    finished = {x: False, y: False}
    errors = []

    def access(ad, w):
        i = who[threading.get_ident()]
        if stop[i] is not None and n[i] == stop[i]:
            stop[i] = None
            main.release()
            go[i].acquire()
        n[i] += 1

    def task(i):
        who[threading.get_ident()] = i
        go[i].acquire()
        try:
            body(i)
        except BaseException as e:
            errors.append(e)
        finished[i] = True
        main.release()

    S.active = access
    ts = [threading.Thread(target=task, args=(i,)) for i in (x, y)]
    try:
        for t in ts:
            t.start()
        for i in (x, y, x, y):
            if not finished[i]:
                go[i].release()
                main.acquire()
    finally:
        for t in ts:
            t.join()
        S.active = None
    if errors:
        raise errors[0]


def begin(ck):
    S.kernels = {}
    S.stats = {"loops": 0, "iterations": 0, "accesses": 0, "pairs": 0, "conflicts": 0,
               "schedules": 0, "schedules_truncated": 0, "unrecorded": 0, "kernels": set()}
    S.fail = ck.fail
    return S.stats


def end():
    S.stats = None
