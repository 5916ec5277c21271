"""C28: files on disk depend on the run alone: leftovers of earlier, interrupted or failed runs never
show, and failing writes are never silent."""

import itertools
import os
import pickle
import resource
import signal
from pathlib import Path

import numpy as np

from .. import domain, iorun

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "runs of 6 time steps; all points of interruption of the earlier run; files truncated at 12 "
    "(thorough 60) lengths; file size limits in steps of 1/24 (thorough 1/120) of the largest file",
    "incomplete writes of GeoTIFF files are reported by GDAL to its log only: not judged",
]
N = 6
PAIRS = [("csv", "netcdf"), ("netcdf", "netcdf_noappend"), ("csv", "ascii"), ("netcdf", "geotiff"),
         ("csv", "netcdf_roi"), ("netcdf", "memory"), ("memory", "netcdf_agg")]
EARLIER = ["same", "longer", "shifted", "variables", "points", "timestep", "roi", "layout", "writefreq"]
BAD = ["empty", "text", "zeros"]


def cases(tier):
    out = []
    for ts, gr in PAIRS:
        for e in EARLIER:
            out.append({"kind": "leftover", "ts": ts, "grids": gr, "earlier": e})
        out.append({"kind": "garbage", "ts": ts, "grids": gr, "n": 12 if tier == "quick" else 60})
        out.append({"kind": "limit", "ts": ts, "grids": gr, "n": 24 if tier == "quick" else 120})
        out.append({"kind": "vanish", "ts": ts, "grids": gr})
    return out


def setup(ck, res, case, variant="same"):
    gr = case["grids"]
    fmt, _, opt = gr.partition("_")
    ts = "6h" if variant == "timestep" else "3h"
    start, n = "2020-01-31 15:00", N
    if variant == "longer":
        n = N + 5
    elif variant == "shifted":
        start = "2020-01-31 18:00"
    v = [{"var": "meteo.temp"}, {"var": "snow.temp", "name": "st"}]
    pts = [{"x": domain.X0 + 10, "y": domain.Y0 + 10}, {"x": domain.X0 + 60, "y": domain.Y0 + 10, "name": "p"}]
    gv = [{"var": "meteo.temp", "freq": ts}, {"var": "snow.num_layers", "freq": "6h"}]
    if opt == "agg":
        gv = [{"var": "meteo.precip", "freq": "6h", "agg": "sum"}, {"var": "snow.temp", "freq": "6h", "agg": "mean"},
              {"var": "meteo.temp", "name": "t", "freq": "6h"}]
    wf = "6h"
    if variant == "variables":
        v, gv = v[:1] + [{"var": "soil.temp", "name": "so"}], gv[:1] + [{"var": "snow.swe", "freq": "6h"}]
    elif variant == "points":
        pts = [{**pts[0], "x": domain.X0 + 110}, {**pts[1], "y": domain.Y0 + 60}, {"x": domain.X0 + 1, "y": domain.Y0 + 1}]
    elif variant == "writefreq":
        wf = "18h"
    roi = None
    if variant == "roi":
        roi = np.array([[1, 0, 1], [0, 1, 1]])
    layout = "roi_pixel" if opt == "roi" else "grid"
    if variant == "layout" and fmt in ("netcdf", "memory"):
        layout = "grid" if layout == "roi_pixel" else "roi_pixel"
    import pandas as pd

    dt = pd.Timedelta(ts)
    grids = {"format": fmt, "variables": gv}
    if fmt == "netcdf":
        grids.update(append=opt != "noappend", layout=layout)
        if variant == "layout":
            grids["append"] = opt == "noappend"
    over = {"output_data": {
        "timeseries": {"format": case["ts"], "write_freq": wf, "add_default_variables": False,
                       "variables": v, "points": pts}, "grids": grids}}
    return iorun.tiny_model(ck, over, start, str(pd.Timestamp(start) + (n - 1) * dt), ts, roi=roi, results=res)


def content(res):
    """{file name: comparable content}"""
    import rasterio
    import xarray as xr

    out = {}
    for p in sorted(Path(res).iterdir()):
        if p.suffix == ".nc":
            with xr.open_dataset(p) as ds:
                ds.load()
                out[p.name] = {"dims": dict(ds.sizes), **{str(v): ds[v].values for v in ds.variables}}
        elif p.suffix in (".tif", ".asc"):
            with rasterio.open(p) as ds:
                out[p.name] = {"data": ds.read(1), "transform": tuple(ds.transform)}
        elif p.suffix == ".csv":
            out[p.name] = {"text": p.read_text()}
    return out


def equal(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f"):
                return False
        elif a[k] != b[k]:
            return False
    return True


def run(m, n=N):
    for _ in range(n):
        m.run_single()


def fresh(ck, case):
    res = ck.scratch.sub("fresh")
    m = setup(ck, res, case)
    run(m)
    out = content(res)
    ck.check(len(out) > 0, "no output files", ts=case["ts"], grids=case["grids"])
    return res, out


def compare(ck, ref, res, what, **info):
    try:
        got = content(res)
    except Exception as e:
        ck.fail(f"{what}: unreadable output", error=repr(e), **info)
        return
    for f, c in ref.items():
        ck.check(f in got and equal(c, got[f]), what, file=f, **info)


def leftover_case(case, ck):
    """Another run was made (and possibly interrupted) in the same directory before."""
    _, ref = fresh(ck, case)
    n1 = {"longer": N + 5}.get(case["earlier"], N)
    for k, alive in itertools.product(range(n1 + 1), (True, False)):
        res = ck.scratch.sub("r")
        first = setup(ck, res, case, case["earlier"])
        run(first, k)
        if not alive:
            first = None
        second = setup(ck, res, case)
        run(second)
        compare(ck, ref, res, "outputs depend on files of an earlier run", interrupted_after=k, alive=alive)
        ck.states(k + N)
        ck.transitions(k + N)
        ck.traces()
        ck.outcome((case["ts"], case["grids"], case["earlier"], k))


def garbage_case(case, ck):
    """The output files exist with other, truncated or damaged contents."""
    res0, ref = fresh(ck, case)
    for f in sorted(ref):
        data = (res0 / f).read_bytes()
        lens = sorted({round(i * len(data) / case["n"]) for i in range(case["n"] + 1)})
        for bad in [data[:x] for x in lens] + [b"text\n" * 20, b"\0" * 3000, data + data, data[::-1]]:
            res = ck.scratch.sub("r")
            res.mkdir(exist_ok=True)
            (res / f).write_bytes(bad)
            m = setup(ck, res, case)
            run(m)
            compare(ck, {f: ref[f]}, res, "output depends on an existing file", length=len(bad))
            ck.states(N)
            ck.transitions(N)
            ck.traces()
        ck.outcome((case["ts"], case["grids"], f))
        if len(ref) > 4 and case["grids"] in ("ascii", "geotiff") and f > sorted(ref)[3]:
            break  # one file per date: the same


def forked(m, prepare, path):
    """Run the model in a child process; (completed steps, error)."""
    pid = os.fork()
    if pid == 0:
        n, err = 0, None
        try:
            signal.alarm(100)
            try:  # (no worker threads exist after forking)
                import dask

                dask.config.set(scheduler="synchronous")
            except ImportError:
                pass
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            prepare()
            for _ in range(N):
                m.run_single()
                n += 1
        except BaseException as e:
            err = f"{type(e).__name__}: {e}"[:200]
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
            with open(path, "wb") as f:
                pickle.dump((n, err), f)
            os._exit(0)
    status = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(status):
        return None
    with open(path, "rb") as f:
        return pickle.load(f)


def limit_case(case, ck):
    """Files cannot grow beyond a size (as on a full disk or with a quota)."""
    res0, ref = fresh(ck, case)
    sizes = {}
    for p in res0.iterdir():  # largest file of each kind
        sizes[p.suffix] = max(p.stat().st_size, sizes.get(p.suffix, 0))
    limits = {1, 10}
    for size in sizes.values():
        limits |= {round(i * size / case["n"]) for i in range(case["n"] + 1)} | {size - 1}
    tmp = ck.scratch.sub("t")
    Path(tmp).mkdir(exist_ok=True)
    for lim in sorted(limits):
        res = ck.scratch.sub("r")
        m = setup(ck, res, case)

        def prepare():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))

        r = forked(m, prepare, Path(tmp) / "out")
        if r is None:
            ck.count("inconclusive")
            continue
        n, err = r
        if err is None:
            # nothing failed, so everything is there
            sel = {k: v for k, v in ref.items() if not k.endswith(".tif")}
            compare(ck, sel, res, "a failing write was ignored", limit=lim)
        else:
            ck.check(n < N, "error after the last step", error=err)
            for f, c in ref.items():
                if f.endswith(".csv") and (res / f).exists():
                    ck.check(c["text"].startswith((res / f).read_text()),
                             "CSV file is not the beginning of the complete output", limit=lim, file=f)
        # afterwards the same run can be repeated in the same place
        again = setup(ck, res, case)
        run(again)
        compare(ck, ref, res, "outputs depend on files of a failed run", limit=lim)
        ck.states(n + N)
        ck.transitions(n + N)
        ck.traces()
        ck.outcome((case["ts"], case["grids"], n, err is None))


def vanish_case(case, ck):
    """The results directory vanishes, or an output file is not a file."""
    import shutil

    res0, ref = fresh(ck, case)
    appears = {}  # step after which a file exists first
    res = ck.scratch.sub("r")
    m = setup(ck, res, case)
    for k in range(N):
        m.run_single()
        for p in Path(res).iterdir():
            appears.setdefault(p.name, k)
    for k in range(N):
        res = ck.scratch.sub("r")
        m = setup(ck, res, case)
        run(m, k)
        shutil.rmtree(res)
        err = None
        try:
            for _ in range(N - k):
                m.run_single()
        except Exception as e:
            err = e
        ck.check(err is not None, "writing to a vanished directory was ignored", step=k)
        ck.states(N)
        ck.transitions(N)
        ck.traces()
        ck.outcome((case["ts"], case["grids"], "gone", k))
    for f, k in sorted(appears.items()):
        res = ck.scratch.sub("r")
        m = setup(ck, res, case)
        (res / f).mkdir()
        err, n = None, 0
        try:
            for _ in range(N):
                m.run_single()
                n += 1
        except Exception as e:
            err = e
        ck.check(err is not None, "an output which cannot be written was ignored", file=f)
        ck.check(n <= k, "the error was reported too late", file=f, step=n, expected=k)
        ck.states(N)
        ck.transitions(n)
        ck.traces()
        ck.outcome((case["ts"], case["grids"], f))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
