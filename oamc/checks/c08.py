"""C08: run control - every time step is processed exactly once, in order."""

import itertools
import os

import numpy as np
import pandas as pd

from .. import domain, iorun

JIT = False
LEVEL = "model_checking"
NUMBA_THREADS = 4
ASSUMPTIONS = [
    "operation words over run/run_single/inspect on models with 1 to 4 time steps",
    "thread counts 1..4 (numba maximum 4)",
]

OPS = "RSI"  # run, run_single, inspect
TIMESTEPS = ["10min", "1h", "3h", "5h", "6h", "12h", "1D", "36h", "2D", "5D", "7D"]
STARTS = ["2019-12-31 00:00", "2019-12-30 13:00", "2020-02-28 21:00", "2020-02-29 06:00",
          "2020-01-01 00:00", "2021-02-28 00:00", "2020-03-31 22:00", "2020-12-31 23:00"]


def cases(tier):
    out = []
    nmax = 3 if tier == "quick" else 4
    for n in range(1, nmax + 1):
        for first in itertools.product(OPS, repeat=1):
            out.append({"kind": "ops", "n": n, "first": first[0],
                        "length": n + 2 if tier == "quick" else n + 3})
    for n in (1, 3, 5):
        for k in range(n):
            for where in ("callback", "step"):
                out.append({"kind": "fault", "n": n, "k": k, "where": where})
    for before in range(1, 5):
        for cfg in (1, 2, 3, 4, 9, "auto", None):
            out.append({"kind": "threads", "before": before, "cfg": cfg})
    for ts, start in itertools.product(TIMESTEPS, STARTS):
        out.append({"kind": "props", "timestep": ts, "start": start,
                    "n": 60 if tier == "quick" else 500})
    for model, ts in itertools.product(("multilayer", "cryolayers"), ("1h", "3h", "1D")):
        out.append({"kind": "equiv", "model": model, "timestep": ts})
    return out


def make(ck, n, ts="3h", start="2020-01-31 18:00", over=None, script=None, shape=(1, 2), **k):
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))
    cfg = {"output_data": {"timeseries": {
        "format": "memory", "add_default_variables": False,
        "variables": [{"var": "meteo.temp"}],
        "points": [{"x": domain.X0 + 1, "y": domain.Y0 + 1}]},
        "grids": {"variables": [{"var": "meteo.temp"}]}}}
    domain.merge(cfg, over or {})
    return iorun.tiny_model(ck, cfg, start, end, ts, shape=shape, script=script, **k)


def ops_case(case, ck):
    from openamundsen.errors import OpenAmundsenRuntimeError

    n = case["n"]
    nwords = 0
    for rest in itertools.product(OPS, repeat=case["length"] - 1):
        word = case["first"] + "".join(rest)
        if "II" in word:
            continue
        nwords += 1
        calls = []
        m = make(ck, n, script=lambda m: calls.append((m.date, m.date_idx)))
        dates = list(pd.date_range("2020-01-31 18:00", periods=n, freq="3h"))
        ck.check(list(m.dates) == dates, "model dates", word=word)
        idx, method = -1, None  # reference state machine
        for i, op in enumerate(word):
            info = {"word": word, "position": i}
            if op == "I":
                if idx >= 0:
                    _ = m.timestep_props
                    _ = m.point_output.data
                    _ = m.gridded_output.data
                continue
            legal = method is None if op == "R" else idx < n - 1
            before = (list(calls), m.date, m.date_idx, np.array(m.state.meteo.temp))
            try:
                if op == "R":
                    m.run()
                else:
                    m.run_single()
            except OpenAmundsenRuntimeError:
                ck.check(not legal, "legal operation rejected", **info)
                ck.check(calls == before[0] and m.date == before[1] and m.date_idx == before[2]
                         and np.array_equal(m.state.meteo.temp, before[3], equal_nan=True),
                         "rejected operation changed the model", **info)
                ck.outcome((op, "rejected", idx, method))
                continue
            ck.check(legal, "illegal operation accepted", **info)
            if op == "R":
                idx, method = n - 1, "run"
            else:
                idx += 1
                method = method or "single"
            ck.check(calls == list(zip(dates, range(n)))[: idx + 1],
                     "processed time steps", got=[str(c[0]) for c in calls], **info)
            ck.check(m.date == dates[idx] and m.date_idx == idx, "current date", **info)
            d = m.point_output.data["temp"].values[:, 0]
            ck.check(np.isfinite(d[: idx + 1]).all() and np.isnan(d[idx + 1:]).all(),
                     "time steps in the point output", **info)
            ck.outcome((op, idx, method))
            ck.states()
        ck.transitions(len(word))
    ck.traces(nwords)


def fault_case(case, ck):
    """An error in time step k is reported and leaves the host process as it was."""
    import numba

    class Boom(Exception):
        pass

    n, k = case["n"], case["k"]
    for op, before, cfg in itertools.product("RS", (1, 3), (None, 2)):
        numba.set_num_threads(before)

        def script(m):
            if m.date_idx == k:
                raise Boom

        m = make(ck, n, over={"numba_threads": cfg},
                 script=script if case["where"] == "callback" else None)
        if case["where"] == "step":
            orig = m.point_output.update

            def upd(m=m, orig=orig):
                if m.date_idx == k:
                    raise Boom
                return orig()

            m.point_output.update = upd
        raised = None
        try:
            if op == "R":
                m.run()
            else:
                for _ in range(n):
                    m.run_single()
        except Boom:
            raised = m.date_idx
        ck.check(raised == k, "error of a time step swallowed", op=op)
        ck.check(numba.get_num_threads() == before, "numba thread count not restored after an error",
                 got=numba.get_num_threads(), expected=before, op=op)
        ck.states(k + 1)
        ck.transitions(k + 1)
        ck.traces()
        ck.outcome(("fault", k, op))


def threads_case(case, ck):
    import numba

    from openamundsen.errors import OpenAmundsenRuntimeError

    before, cfg = case["before"], case["cfg"]
    saved = os.environ.get("NUMBA_NUM_THREADS")
    try:
        for env in (True, False):
            if not env:
                os.environ.pop("NUMBA_NUM_THREADS", None)
            for shape in ((2, 3), (10, 11)):
                seen = []
                numba.set_num_threads(before)
                m = make(ck, 2, over={"numba_threads": cfg}, shape=shape,
                         script=lambda m: seen.append(numba.get_num_threads()))
                for _ in range(2):
                    m.run_single()
                    ck.check(numba.get_num_threads() == before, "numba thread count not restored",
                             got=numba.get_num_threads(), expected=before)
                try:
                    m.run_single()
                    ck.fail("time step after the end of the run accepted")
                except OpenAmundsenRuntimeError:
                    pass
                ck.check(numba.get_num_threads() == before,
                         "numba thread count not restored after a rejected call",
                         got=numba.get_num_threads(), expected=before)
                if isinstance(cfg, int):
                    ck.check(set(seen) == {min(cfg, 4)}, "number of numba threads in a step",
                             got=seen)
                elif cfg is None or env:
                    ck.check(set(seen) == {before}, "number of numba threads in a step", got=seen)
                else:
                    ck.check(all(1 <= s <= 4 for s in seen), "number of numba threads", got=seen)
                ck.outcome((cfg, env, tuple(seen)))
                ck.states(2)
                ck.transitions(3)
                ck.traces()
    finally:
        if saved is not None:
            os.environ["NUMBA_NUM_THREADS"] = saved


def props_case(case, ck):
    ts, start, n = case["timestep"], case["start"], case["n"]
    dt = pd.Timedelta(ts)
    over = {"output_data": {"timeseries": {"write_freq": f"{4 * dt // pd.Timedelta('1D')}D"}}} \
        if dt > pd.Timedelta("1D") else None
    m = make(ck, n, ts, start, over=over, shape=(1, 1))
    ref = [pd.Timestamp(start) + i * dt for i in range(n)]
    ck.check(list(m.dates) == ref, "model dates")
    key = {"year": lambda d: d.year, "month": lambda d: (d.year, d.month),
           "day": lambda d: (d.year, d.month, d.day)}
    for i, d in enumerate(ref):
        m.run_single()
        p = m.timestep_props
        exp = {"first_of_run": i == 0, "last_of_run": i == n - 1}
        for u, f in key.items():
            sf, sl = f(d - dt) != f(d), f(d + dt) != f(d)
            exp[f"strict_first_of_{u}"] = sf
            exp[f"strict_last_of_{u}"] = sl
            exp[f"first_of_{u}"] = sf or i == 0
            exp[f"last_of_{u}"] = sl or i == n - 1
        for k, v in exp.items():
            ck.check(bool(getattr(p, k)) == v, "time step property", name=k, date=str(d), expected=v)
        ck.outcome(tuple(exp.values()))
    ck.states(n)
    ck.transitions(n)
    ck.traces()


def equiv_case(case, ck):
    """run() does exactly the same as successive run_single() calls."""
    from .. import words

    n = 6
    wl = words.words("SHRN", 1, ["SCH" + x + y for x in "SR" for y in "HN"])
    wl = [w + "H" * (n - len(w)) for w in wl]

    def build():
        cfg = {"numba_threads": 1, "snow": {"model": case["model"]},
               "output_data": {"timeseries": {
                   "format": "memory", "points": [{"x": domain.X0 + 1, "y": domain.Y0 + 1}]},
                   "grids": {"variables": [{"var": "snow.swe"}]}}}
        return words.WordRun(ck, wl, "2020-04-01 06:00", case["timestep"], cfg).m

    a, b, c = build(), build(), build()
    a.run()
    for _ in range(n):
        b.run_single()
    for _ in range(n):
        c.run_single()
        _ = c.timestep_props
    for cat in a.state.categories:
        for v, x in a.state[cat].items():
            if isinstance(x, np.ndarray):
                for o in (b, c):
                    ck.check(np.array_equal(x, o.state[cat][v], equal_nan=x.dtype.kind == "f"),
                             "run() and run_single() differ", var=f"{cat}.{v}")
    for o in (b, c):
        ck.check(a.point_output.data.identical(o.point_output.data), "point outputs differ")
        ck.check(a.gridded_output.data.identical(o.gridded_output.data), "gridded outputs differ")
    ck.states(3 * n * len(wl))
    ck.transitions(3 * n * len(wl))
    ck.traces(3 * len(wl))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
