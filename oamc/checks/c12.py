"""C12: runs are reproducible and isolated from each other."""

import copy
import itertools

import numpy as np
import pandas as pd

from .. import configs, domain, words

JIT = True
LEVEL = "model_checking"
NUMBA_THREADS = 4
ASSUMPTIONS = [
    "two model instances with 3 time steps each (all interleavings of initialize and run_single)",
    "thread counts 1..4; numba parallel loops are explored through their results, not schedules",
]

A8 = "SRHNFTPC"
PAIRS = [("multi", "multi_alt"), ("multi", "cryo"), ("cryo", "cryo_ti"), ("multi_veg", "cryo_veg_gl"),
         ("cryo_veg_gl", "cryo_veg_gl"), ("multi_veg", "multi")]


def cases(tier):
    out = []
    for name in configs.ALL:
        for ts in ("3h", "1D") if tier == "quick" else ("1h", "3h", "1D"):
            out.append({"kind": "reset", "config": name, "timestep": ts,
                        "length": 2 if tier == "quick" else 3})
        out.append({"kind": "threads", "config": name, "timestep": "3h"})
        out.append({"kind": "inputs", "config": name})
    for a, b in PAIRS:
        for part in range(4):
            out.append({"kind": "interleave", "a": a, "b": b, "part": part})
    for name in ("multi", "cryo", "multi_veg"):
        out.append({"kind": "stations", "config": name})
    for name in ("multi", "cryo", "multi_veg", "cryo_veg_gl"):
        out.append({"kind": "checkpoint", "config": name})
    from .. import peers

    for i, dim in enumerate(peers.DIMS):
        for name in ("multi_veg", "cryo_veg_gl") if tier == "quick" else configs.ALL:
            out.append({"kind": "peers", "config": name, "dim": dim, "steps": 1 if tier == "quick" else 2})
    # spread the expensive kinds over the workers
    out.sort(key=lambda c: ["interleave", "reset", "threads", "stations", "checkpoint",
                             "peers", "inputs"].index(c["kind"]))
    return out


def wordrun(ck, name, wl, ts="3h", over=None, start="2020-04-30 15:00", elev=1500.0):
    cfg = copy.deepcopy(configs.ALL[name])
    domain.merge(cfg, over or {})
    return words.WordRun(ck, wl, start, ts, cfg, rasters=configs.rasters(name, len(wl)), elev=elev)


def wset(n):
    return words.words(A8, n, ["SS", "SRHC"[:2]])


def compare(ck, a, b, what, roi=None, **info):
    for v, x in a.items():
        y = b[v]
        if roi is not None:
            x, y = x[..., roi], y[..., roi]
        ck.c["assertions"] += 1
        if not configs.same(x, y):
            ck.fail(what, var=v, **info)


def reset_case(case, ck):
    """reset_state_variables only removes values which are not needed any more."""
    wl = words.words(A8, case["length"], ["SS", "SR", "HN"])
    runs = [wordrun(ck, case["config"], wl, case["timestep"], {"reset_state_variables": r,
                                                              "numba_threads": 1})
            for r in (False, True)]
    ns, nt = words.prefix_nodes(wl)
    ck.states(2 * ns)
    ck.transitions(2 * nt)
    ck.traces(2 * len(wl))
    for t in range(len(runs[0].m.dates)):
        for r in runs:
            r.m.run_single()
        a, b = (configs.state_arrays(r.m) for r in runs)
        compare(ck, a, b, "reset_state_variables changes the results", roi=runs[0].roi, step=t)
        ck.outcome((case["config"], t, float(np.nansum(a["snow.swe"]))))


def threads_case(case, ck):
    """The result does not depend on the number of threads, and is reproducible."""
    wl = words.words(A8, 2, ["SS", "SR", "RS"])
    ref = None
    for nt in (1, 2, 3, 4, None, 1):
        r = wordrun(ck, case["config"], wl, case["timestep"], {"numba_threads": nt})
        hist = []
        for _ in r.steps():
            r.m.run_single()
            hist.append(configs.state_arrays(r.m))
        if ref is None:
            ref = hist
        for t, (a, b) in enumerate(zip(ref, hist)):
            compare(ck, a, b, "results depend on the number of threads or differ between runs",
                    threads=nt, step=t)
    ns, nt = words.prefix_nodes(wl)
    ck.states(6 * ns)
    ck.transitions(6 * nt)
    ck.traces(6 * len(wl))


def interleavings(n):
    """All merges of two sequences of n operations each."""
    for pos in itertools.combinations(range(2 * n), n):
        yield "".join("a" if i in pos else "b" for i in range(2 * n))


def interleave_case(case, ck):
    """Two models in the same process: every interleaving gives the results of the single runs."""
    wa = words.words("SRH", 1, ["SS", "RS", "SH"])
    wb = words.words("SNCH", 1, ["SF", "SR"])
    mk = {
        "a": lambda: wordrun(ck, case["a"], wa, "3h", {"numba_threads": 1}),
        "b": lambda: wordrun(ck, case["b"], wb, "1D", {"numba_threads": 2}, elev=900.0,
                             start="2020-05-31 00:00"),
    }
    solo = {}
    for k in "ab":
        r = mk[k]()
        for _ in range(3):
            r.m.run_single()
        solo[k] = configs.state_arrays(r.m)
    for i, w in enumerate(interleavings(4)):
        if i % 4 != case["part"]:
            continue
        runs = {}
        for op in w:
            if op not in runs:
                runs[op] = mk[op]()
            else:
                runs[op].m.run_single()
        for k in "ab":
            compare(ck, solo[k], configs.state_arrays(runs[k].m),
                    "a model run is influenced by another model instance", interleaving=w, model=k)
        ck.outcome(w)
        ck.states(8)
        ck.transitions(8)
        ck.traces()


def inputs_case(case, ck):
    """The configuration passed by the user is not changed, and can be reused."""
    import openamundsen as oa

    r0 = wordrun(ck, case["config"], ["SS"])
    wl = ["SRHN", "SSHH"]
    g = domain.make_grids(ck.scratch.sub("g"), [[1500.0, 1510.0]],
                          **{k: np.array([v]) for k, v in
                             configs.rasters(case["config"], 2).items()})
    cfg = domain.base_config(g, ck.scratch.sub("r"), "2020-04-30 15:00", "2020-05-01 00:00", "3h")
    domain.merge(cfg, configs.ALL[case["config"]])
    orig = copy.deepcopy(cfg)
    hist = []
    for _ in range(2):
        m = oa.OpenAmundsen(cfg)
        r0.words, r0.n = wl, 2
        r0.codes = np.array([[ord(c) for c in w] for w in wl])
        m.initialize(meteo_callback=r0.force)
        m.run()
        ck.check(cfg == orig, "the configuration passed by the user has been changed")
        hist.append(configs.state_arrays(m))
    compare(ck, hist[0], hist[1], "second run with the same configuration differs")
    ck.states(8)
    ck.transitions(8)
    ck.traces(2)


def station_setup(case, ck, n=10):
    import openamundsen as oa

    from .c07 import pixel, station_ds

    start, ts = "2020-04-30 03:00", "3h"
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))
    ds = station_ds([("s0", *pixel(0, 0)), ("s1", *pixel(1, 2)), ("s2", domain.X0 + 5e3, domain.Y0)],
                    start, n, ts)
    ds["precip"].values[:] = np.arange(ds["precip"].size).reshape(ds["precip"].shape) % 7
    ds["temp"].values[:] += np.arange(n) * 1.0 if ds["temp"].dims[-1] == "time" else \
        (np.arange(n) * 1.0)[:, None]
    ds["temp"].values.flat[4] = np.nan
    ds["sw_in"].values.flat[3] = np.nan

    def build(**over):
        g = domain.make_grids(ck.scratch.sub("g"), 1500.0 + np.arange(6).reshape(2, 3),
                              **{k: v.reshape(2, 3) for k, v in
                                 configs.rasters(case["config"], 6).items()})
        cfg = domain.base_config(g, ck.scratch.sub("r"), start, end, ts,
                                 input_data={"meteo": {"format": "memory"}},
                                 meteo={"precipitation_correction": [
                                     {"method": "wmo", "gauge": "us_unsh"}]},
                                 extend_roi_with_stations=True,
                                 output_data={"timeseries": {"add_default_points": True},
                                              "grids": {"variables": [
                                                  {"var": "snow.swe", "freq": "6h", "agg": "mean"},
                                                  {"var": "snow.melt", "freq": "D",
                                                   "agg": "sum"}]}})
        domain.merge(cfg, configs.ALL[case["config"]])
        domain.merge(cfg, over)
        m = oa.OpenAmundsen(cfg)
        m.initialize(meteo=ds)
        return m

    return n, ds, build


def stations_case(case, ck):
    """Meteo datasets passed by the user are not changed, and can be shared between models."""
    n, ds, build = station_setup(case, ck)
    ref_ds = ds.copy(deep=True)
    a = build()
    a.run()
    ck.check(ds.identical(ref_ds), "the meteo dataset passed by the user has been changed")
    b, c, d = build(), build(), build(reset_state_variables=True)
    for _ in range(n):
        b.run_single()
        c.run_single()
        d.run_single()
        compare(ck, configs.state_arrays(b), configs.state_arrays(d),
                "reset_state_variables changes the results")
    ck.check(ds.identical(ref_ds), "the meteo dataset passed by the user has been changed")
    for m in (b, c):
        compare(ck, configs.state_arrays(a), configs.state_arrays(m), "shared dataset, other results")
        same_outputs(ck, a, m)
    ck.states(4 * n)
    ck.transitions(4 * n)
    ck.traces(4)


def same_outputs(ck, a, b):
    ck.check(a.point_output.data.identical(b.point_output.data), "point outputs differ")
    ck.check(a.gridded_output.data.identical(b.gridded_output.data), "gridded outputs differ")


def checkpoint_case(case, ck):
    """A copy of the model taken after any time step continues like the original."""
    import pickle

    n, ds, build = station_setup(case, ck)
    ref = build()
    hist = []
    for _ in range(n):
        ref.run_single()
        hist.append(configs.state_arrays(ref))
    for how in ("deepcopy", "pickle"):
        m = build()
        for k in range(n):
            c = copy.deepcopy(m) if how == "deepcopy" else pickle.loads(pickle.dumps(m))
            for t in range(k, n):
                c.run_single()
                if t in (k, n - 1):
                    compare(ck, hist[t], configs.state_arrays(c),
                            "continuation of a copied model differs", how=how, copied_at=k, step=t)
            same_outputs(ck, ref, c)
            m.run_single()
            compare(ck, hist[k], configs.state_arrays(m), "copying changed the original", how=how,
                    copied_at=k)
            ck.states(n - k + 1)
            ck.transitions(n - k + 1)
            ck.traces()
        same_outputs(ck, ref, m)


def peers_case(case, ck):
    """Two models which differ in a single respect, in one process: every interleaving of their
    initialization and time steps gives the results of each model alone in a fresh process."""
    import json
    import os
    import subprocess
    import sys

    env = dict(os.environ, NUMBA_DISABLE_JIT="1")
    p = subprocess.run([sys.executable, "-m", "oamc.peers", case["config"], case["dim"],
                        str(case["steps"]), str(ck.scratch.sub("p") / "w")],
                       env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-1500:])
    r = json.loads(p.stdout.strip().split("\n")[-1])
    if "error" in r:
        ck.fail("model run fails next to another one" if len(set(r["ops"])) > 1 else "model run fails", **r)
        return
    ck.c["assertions"] += r["compared"]
    for d in r["differences"][:3]:
        ck.fail("a model run is influenced by another model instance", dim=case["dim"], **d)
    ck.states(r["runs"] * 2 * (case["steps"] + 1))
    ck.transitions(r["runs"] * 2 * (case["steps"] + 1))
    ck.traces(r["runs"])
    ck.outcome(tuple(r["distinct"]))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
