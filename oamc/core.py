"""Explorer core: case distribution, counters, violations, replay files and evidence.

A check module defines

    LEVEL, TECHNIQUE (documentation only)
    JIT = True | False          whether the numba compiled code (True) or its Python source is run
    cases(tier) -> list of JSON-able dicts   the (finite) space, completely enumerated
    run_case(case, ck)          drive the real code for this case, report via ``ck``

and optionally ``ASSUMPTIONS`` (list of strings) and ``WORKERS``.
"""

import collections
import json
import os
import traceback

import numpy as np

REPO_PKG = "/openamundsen/"


class Violation(Exception):
    pass


class Ck:
    """Per-case/worker reporting context."""

    def __init__(self, prop, tier, max_violations=5):
        self.prop = prop
        self.tier = tier
        self.c = collections.Counter()
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self.case = None
        self.max_violations = int(os.environ.get("OAMC_MAX", max_violations))
        self.scratch = None

    # -- counters -----------------------------------------------------------------------------
    def states(self, n=1):
        self.c["states"] += int(n)

    def transitions(self, n=1):
        self.c["transitions"] += int(n)

    def traces(self, n=1):
        self.c["traces"] += int(n)

    def count(self, name, n=1):
        self.c[name] += int(n)

    def outcome(self, o):
        """Record a distinct observed outcome (vacuity guard)."""
        if len(self.outcomes) < 100000:
            self.outcomes.add(o if isinstance(o, str) else repr(o))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # -- verdicts -----------------------------------------------------------------------------
    def fail(self, what, **info):
        self.violations.append(
            {"case": self.case, "what": what, "info": {k: _js(v) for k, v in info.items()}}
        )
        if len(self.violations) >= self.max_violations:
            raise Violation(what)

    def check(self, cond, what, **info):
        self.c["assertions"] += 1
        if not cond:
            self.fail(what, **info)

    def check_all(self, ok, what, **arrays):
        """``ok``: boolean array; reports the first failing element of ``arrays``."""
        ok = np.asarray(ok)
        self.c["assertions"] += ok.size
        if not ok.all():
            idx = np.argwhere(~ok)
            first = tuple(int(i) for i in idx[0])
            info = {"n_failing": len(idx), "index": first}
            for k, a in arrays.items():
                try:
                    a = np.asarray(a)
                    info[k] = a[first] if a.shape == ok.shape else a[(Ellipsis, *first)]
                except Exception:
                    info[k] = repr(a)[:200]
            self.fail(what, **info)

    def close(self, a, b, what, rtol=1e-9, atol=1e-9, **info):
        """NaN-aware elementwise comparison."""
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(what + " (shape)", got=a.shape, expected=b.shape, **info)
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        self.c["assertions"] += ok.size
        if not ok.all():
            idx = np.argwhere(~ok)
            first = tuple(int(i) for i in idx[0])
            self.fail(
                what, n_failing=len(idx), index=first, got=a[first], expected=b[first], **info
            )
            return False
        return True


def _js(v):
    if isinstance(v, (str, bool, int, float)) or v is None:
        return v
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 50 else repr(v)
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_js(x) for x in v]
    return repr(v)[:500]


def from_repo(tb):
    """Whether an exception was raised while code of the package under test was running."""
    return any(REPO_PKG in f.filename and "/oamc/" not in f.filename for f in traceback.extract_tb(tb))


def queue(cases, path):
    """The cases not yet taken by another worker: together the workers run all of them."""
    import fcntl

    while True:
        with open(path, "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            i = int(f.read())
            f.seek(0)
            f.write(str(i + 1))
        if i >= len(cases):
            return
        yield cases[i]


def run_cases(mod, cases, ck, progress=None):
    """Run the given cases; exceptions raised from within the code under test are violations."""
    import sys

    errors = []
    for case in cases:
        ck.case = case
        if progress:
            with open(progress, "w") as f:
                json.dump(case, f)
        try:
            mod.run_case(case, ck)
        except Violation:
            break
        except Exception:
            et, ev, tb = sys.exc_info()
            if isinstance(ev, MemoryError) or getattr(ev, "errno", None) in (12, 24, 28):
                # out of memory, files or disk space: no verdict
                errors.append({"case": case, "traceback": traceback.format_exc()})
                break
            what = "unexpected" if from_repo(tb) else "expected observation not possible:"
            try:
                ck.fail(
                    f"{what} {et.__name__}: {str(ev)[:300]}",
                    traceback=traceback.format_exc()[-1500:],
                )
            except Violation:
                break
        ck.c["cases"] += 1
        if not ck.samples:
            ck.sample(case)
    return errors


def dump_result(ck, errors, path):
    with open(path, "w") as f:
        json.dump(
            {
                "counters": dict(ck.c),
                "outcomes": sorted(ck.outcomes),
                "violations": ck.violations,
                "samples": _js(ck.samples),
                "errors": errors,
            },
            f,
        )
