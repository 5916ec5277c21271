"""C06: gridded output equals the (aggregated) model state."""

import itertools
import re

import numpy as np
import pandas as pd

from .. import iorun
from ..domain import RES, X0, Y0

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "state values are scripted (distinct per pixel, time step and variable); grid 2x3",
    "aligned begin-anchored intervals only (start of day) for the exact output time",
]

FREQS = {
    "15min": ["15min", "30min", "h", "3h", "D"],
    "1h": ["h", "2h", "3h", "6h", "D", "2D", "ME", "MS", "YE", "YS"],
    "3h": ["3h", "6h", "9h", "D", "5D", "ME", "MS", "YE", "YS"],
    "12h": ["12h", "D", "3D", "ME", "MS", "YE", "YS"],
    "1D": ["D", "2D", "10D", "ME", "MS", "YE", "YS"],
}
SPANS = {
    "15min": [("2020-01-01 00:00", 200), ("2020-02-28 23:30", 150)],
    "1h": [("2020-01-30 00:00", 60), ("2020-01-31 00:00", 24), ("2020-01-30 05:00", 43),
           ("2020-01-30 05:00", 67), ("2019-12-30 00:00", 48), ("2019-12-31 07:00", 40),
           ("2020-02-28 00:00", 72), ("2020-01-15 00:00", 10), ("2020-01-31 23:00", 2),
           ("2020-02-01 00:00", 24 * 29), ("2020-02-10 13:00", 24 * 60)],
    "3h": [("2020-01-30 00:00", 30), ("2020-01-29 05:00", 40), ("2019-12-25 00:00", 80),
           ("2019-12-25 01:00", 80), ("2020-01-31 21:00", 3), ("2020-01-15 12:00", 420)],
    "12h": [("2020-01-25 00:00", 100), ("2020-01-25 12:00", 100), ("2019-11-25 06:00", 230)],
    "1D": [("2020-01-01 00:00", 31), ("2020-01-15 00:00", 60), ("2020-01-02 06:00", 70),
           ("2019-02-25 00:00", 420), ("2019-12-31 00:00", 2), ("2020-02-29 00:00", 740)],
}
ROIS = {
    "all": None,
    "hole": [[1, 0, 1], [1, 1, 0]],
    "one": [[0, 0, 0], [0, 1, 0]],
}
VARS = [("meteo.temp", 2, "f"), ("snow.num_layers", 2, "i"), ("snow.temp", 3, "f"),
        ("soil.temp", 3, "f")]

META = {"meteo.temp": {"units": "K", "standard_name": "air_temperature"},
        "snow.num_layers": {"units": "1"}, "snow.temp": {"units": "K"},
        "soil.temp": {"units": "K"}}


def cases(tier):
    out = []
    for ts in FREQS:
        for start, n in SPANS[ts]:
            if tier == "quick" and n > 450:
                continue
            out.append({"kind": "dates", "timestep": ts, "start": start, "n": n})
    # explicit date lists: every subset of a few dates
    for mask in range(1, 32):
        for agg in (None, "sum", "mean"):
            for fmt in ("memory", "netcdf", "ascii"):
                out.append({"kind": "explicit", "mask": mask, "agg": agg, "format": fmt})
                if mask in (5, 19, 28):
                    out.append({"kind": "explicit", "mask": mask, "agg": agg, "format": fmt,
                                "extra": "outside"})
                    out.append({"kind": "explicit", "mask": mask, "agg": agg, "format": fmt,
                                "extra": "dup"})
                if mask in (19, 28):
                    for perm in itertools.permutations(range(3)):
                        out.append({"kind": "explicit", "mask": mask, "agg": agg, "format": fmt,
                                    "extra": "perm", "perm": list(perm)})
    for fmt, agg in itertools.product(("memory", "netcdf"), (None, "sum", "mix")):
        out.append({"kind": "axes", "format": fmt, "agg": agg, "ts": "6h"})
        if agg != "sum":
            out.append({"kind": "axes", "format": fmt, "agg": agg, "ts": "10min"})
            out.append({"kind": "axes", "format": fmt, "agg": agg, "ts": "10min", "append": False})
    for fmt, freq in itertools.product(("memory", "netcdf", "geotiff"), ("6h", "D", "ME")):
        out.append({"kind": "precision", "format": fmt, "freq": freq})
    formats = [("memory", {}), ("netcdf", {"append": True}), ("netcdf", {"append": False}),
               ("netcdf", {"append": True, "compress": True}), ("ascii", {}), ("geotiff", {}),
               ("geotiff", {"compress": True})]
    for (fmt, opt), layout, roi, gaps in itertools.product(
            formats, ("grid", "roi_pixel"), ROIS, (False, True)):
        for freqset in (("3h", "6h"), ("12h", "D"), ("6h", "ME")):
            if fmt in ("ascii", "geotiff") and layout == "roi_pixel":
                continue
            if tier == "quick" and gaps and freqset[0] != "12h":
                continue
            out.append({"kind": "format", "format": fmt, "opt": opt, "layout": layout, "roi": roi,
                        "gaps": gaps, "freqs": list(freqset)})
    out.append({"kind": "reject"})
    return out


def run_and_record(m, variables, after=None):
    hist = {v: [] for v in variables}
    for t in range(len(m.dates)):
        m.run_single()
        for v in variables:
            hist[v].append(np.array(m.state[v], copy=True))
        if after is not None:
            after(t)
    return hist


def times_of(ds, name):
    tdim = ds[name].dims[0]
    return [pd.Timestamp(x) for x in ds[tdim].values], tdim


def cmp(ck, got, exp, roi, what, integer=False, **info):
    """got/exp: (..., rows, cols)"""
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        ck.fail(what + " (shape)", got=got.shape, expected=exp.shape, **info)
        return
    g, e = got[..., roi], exp[..., roi]
    ok = np.isclose(g, e, rtol=2e-6, atol=1e-6, equal_nan=True)
    ck.c["assertions"] += ok.size
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        ck.fail(what, got=g[i], expected=e[i], n_failing=int((~ok).sum()), **info)


def dates_case(case, ck):
    ts, start, n = case["timestep"], case["start"], case["n"]
    dt = pd.Timedelta(ts)
    end = str(pd.Timestamp(start) + (n - 1) * dt)
    fields = []
    for i, (freq, agg) in enumerate(itertools.product([None, *FREQS[ts]], (None, "sum", "mean"))):
        if agg and freq in ("MS", "YS"):
            continue  # rejected by current pandas versions
        f = {"var": "meteo.temp", "name": f"f{i}"}
        if freq:
            f["freq"] = freq
        if agg:
            f["agg"] = agg
        fields.append((f, freq or ts, agg))
    m = iorun.tiny_model(ck, {"output_data": {"grids": {"variables": [f[0] for f in fields]}}},
                         start, end, ts)
    hist = run_and_record(m, ["meteo.temp"])["meteo.temp"]
    ck.states(n)
    ck.transitions(n)
    ck.traces(len(fields))
    ds = m.gridded_output.data
    dates = list(m.dates)
    ck.check(len(dates) == n, "number of model time steps", got=len(dates), expected=n)
    roi = m.grid.roi
    for f, freq, agg in fields:
        name = f["name"]
        wd = iorun.ref_write_dates(dates, freq, agg, dt)
        info = {"freq": freq, "agg": agg}
        if wd is None:
            if name not in ds:
                continue
            wd = times_of(ds, name)[0]
            ck.check(len({iorun.month_key(d, freq) for d in wd}) == len(wd),
                     "more than one output per interval", **info)
        if not wd:
            ck.check(ds is None or name not in ds, "unexpected output field", **info)
            continue
        ck.check(ds is not None and name in ds, "output field missing", expected=wd, **info)
        if ds is None or name not in ds:
            continue
        got, tdim = times_of(ds, name)
        ck.check(got == wd, "output dates", got=got[:3] + got[-1:], expected=wd[:3] + wd[-1:], **info)
        if got != wd:
            continue
        exp = iorun.ref_values(hist, dates, wd, agg)
        cmp(ck, ds[name].values, np.array(exp), roi, "output values", **info)
        bounds = ds[tdim].attrs.get("bounds")
        if agg is None:
            ck.check(bounds is None, "time bounds for instantaneous values", **info)
        else:
            b = ds[bounds].values
            eb = [[dates[0] if i == 0 else wd[i - 1], d] for i, d in enumerate(wd)]
            ck.check([[pd.Timestamp(x) for x in r] for r in b] == eb, "time bounds", **info)
        ck.outcome((freq, agg, len(wd)))


def explicit_case(case, ck):
    """Explicit date lists, also unordered, with repeated dates or dates not reached by the run."""
    dates = pd.date_range("2020-01-01", periods=9, freq="6h")
    cand = [0, 2, 3, 6, 8]
    wd = [dates[c] for i, c in enumerate(cand) if case["mask"] >> i & 1]
    spec = list(wd)
    extra = case.get("extra")
    if extra == "perm":
        spec = [spec[i] for i in case["perm"]]
    elif extra == "dup":
        spec = spec + [spec[0]]
    elif extra == "outside":
        spec = [dates[0] - pd.Timedelta("6h"), *spec, dates[-1] + pd.Timedelta("6h")]
    f = {"var": "meteo.temp", "dates": [str(d) for d in spec]}
    if case["agg"]:
        f["agg"] = case["agg"]
    # a field with the same dates, but instantaneous, and one written in every step
    fields = [f, {"var": "meteo.precip", "dates": f["dates"]}, {"var": "snow.swe"}]
    fmt = case.get("format", "memory")
    res = ck.scratch.sub("r")
    m = iorun.tiny_model(ck, {"output_data": {"grids": {
        "variables": fields, "format": fmt}}}, str(dates[0]), str(dates[-1]), "6h", results=res)
    hist = run_and_record(m, ["meteo.temp", "meteo.precip", "snow.swe"])
    ck.states(9)
    ck.transitions(9)
    ck.traces(1)
    for var, agg in (("meteo.temp", case["agg"]), ("meteo.precip", None), ("snow.swe", None)):
        name = var.split(".")[1]
        w = list(dates) if var == "snow.swe" else wd
        exp = np.array(iorun.ref_values(hist[var], dates, w, agg))
        if fmt == "ascii":
            names = []
            for i, d in enumerate(w):
                s = dates[0] if i == 0 else w[i - 1] + pd.Timedelta("6h")
                names.append(f"{name}_{s:%Y-%m-%dT%H%M}_{d:%Y-%m-%dT%H%M}.asc" if agg
                             else f"{name}_{d:%Y-%m-%dT%H%M}.asc")
            have = {p.name for p in res.iterdir() if p.name.startswith(name + "_")}
            ck.check(have == set(names), "output files", got=sorted(have), expected=names)
            for e, n in zip(exp, names):
                if n in have:
                    cmp(ck, read_ascii(res / n)[0], e, m.grid.roi, "output values", file=n)
            continue
        if fmt == "netcdf":
            import xarray as xr

            with xr.open_dataset(res / "output_grids.nc") as ds_:
                ds = ds_.load()
        else:
            ds = m.gridded_output.data
        got, tdim = times_of(ds, name)
        ck.check(sorted(got) == w, "output dates", got=got, expected=w, var=var)
        if sorted(got) != w:
            continue
        order = np.argsort(got)
        cmp(ck, ds[name].values[order], exp, m.grid.roi, "output values", var=var)
        bounds = ds[tdim].attrs.get("bounds", ds[tdim].encoding.get("bounds"))
        ck.check((bounds is not None) == (agg is not None), "time bounds", var=var)
        if agg and bounds:
            b = [[pd.Timestamp(x) for x in r] for r in ds[bounds].values[order]]
            eb = [[dates[0] if i == 0 else w[i - 1], d] for i, d in enumerate(w)]
            ck.check(b == eb, "time bounds", var=var, got=b, expected=eb)


def axes_case(case, ck):
    """Fields with all subsets of five dates next to each other in one output."""
    import xarray as xr

    dates = pd.date_range("2020-01-01", periods=9, freq=case["ts"])
    cand = [0, 2, 3, 6, 8]
    fields = []
    for mask in range(1, 32):
        wd = [dates[c] for i, c in enumerate(cand) if mask >> i & 1]
        for agg in (None, "mean") if case["agg"] == "mix" else (case["agg"],):
            f = {"var": "meteo.temp", "name": f"f{len(fields)}", "dates": [str(d) for d in wd]}
            if agg:
                f["agg"] = agg
            fields.append((f, wd, agg))
    for order in (1, -1):
        res = ck.scratch.sub("r")
        m = iorun.tiny_model(ck, {"output_data": {"grids": {
            "variables": [f[0] for f in fields[::order]], "format": case["format"],
            "append": case.get("append", True)}}},
            str(dates[0]), str(dates[-1]), case["ts"], results=res)
        hist = run_and_record(m, ["meteo.temp"])["meteo.temp"]
        if case["format"] == "netcdf":
            with xr.open_dataset(res / "output_grids.nc") as ds_:
                ds = ds_.load()
        else:
            ds = m.gridded_output.data
        for f, wd, agg in fields:
            got, tdim = times_of(ds, f["name"])
            ck.check(got == wd, "output dates", got=got, expected=wd, agg=agg)
            if got != wd:
                continue
            cmp(ck, ds[f["name"]].values, np.array(iorun.ref_values(hist, dates, wd, agg)),
                m.grid.roi, "output values", agg=agg, dates=wd)
            bounds = ds[tdim].attrs.get("bounds", ds[tdim].encoding.get("bounds"))
            ck.check((bounds is not None) == (agg is not None), "time bounds", agg=agg)
        ck.states(9)
        ck.transitions(9)
        ck.traces(len(fields))


def precision_case(case, ck):
    """Aggregated values are accurate even if the values within the interval nearly cancel."""
    import xarray as xr

    start, n, ts = "2020-01-30 00:00", 24, "3h"
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))

    def script(m):
        t, roi = m.date_idx, m.grid.roi
        for a in (m.state.meteo.temp, m.state.snow.temp):
            a[..., roi] = (2.0 ** 30 * (-1) ** t + t + np.arange(a.size).reshape(a.shape))[..., roi]

    fields = [({"var": v, "name": f"{v[:3]}{agg}", "freq": case["freq"], "agg": agg}, agg)
              for v in ("meteo.temp", "snow.temp") for agg in ("sum", "mean")]
    res = ck.scratch.sub("r")
    m = iorun.tiny_model(ck, {"output_data": {"grids": {
        "variables": [f[0] for f in fields], "format": case["format"]}}}, start, end, ts,
        results=res, script=script)
    hist = run_and_record(m, ["meteo.temp", "snow.temp"])
    dates = list(m.dates)
    for f, agg in fields:
        wd = iorun.ref_write_dates(dates, case["freq"], agg, pd.Timedelta(ts))
        exp = np.array(iorun.ref_values(hist[f["var"]], dates, wd, agg))
        if case["format"] == "geotiff":
            import rasterio

            got = []
            for i, d in enumerate(wd):
                s = dates[0] if i == 0 else wd[i - 1] + pd.Timedelta(ts)
                per = f"{s:%Y-%m-%dT%H%M}_{d:%Y-%m-%dT%H%M}"
                names = [f"{f['name']}_{per}"] if exp.ndim == 3 else [
                    f"{f['name']}_{j}_{per}" for j in range(exp.shape[1])]
                lay = []
                for nm in names:
                    with rasterio.open(res / f"{nm}.tif") as r:
                        lay.append(r.read(1).astype(float))
                got.append(lay[0] if exp.ndim == 3 else lay)
            got = np.array(got)
        elif case["format"] == "netcdf":
            with xr.open_dataset(res / "output_grids.nc") as ds_:
                got = ds_[f["name"]].values
        else:
            got = m.gridded_output.data[f["name"]].values
        ck.close(got[..., m.grid.roi], exp[..., m.grid.roi], "aggregated values of large numbers",
                 rtol=1e-6, atol=1e-3, field=f)
    ck.states(n)
    ck.transitions(n)
    ck.traces(len(fields))


def read_ascii(path):
    lines = path.read_text().split("\n")
    hdr = {}
    i = 0
    while re.match(r"^[A-Za-z_]+\s", lines[i]) and not lines[i].lower().startswith("nan"):
        k, v = lines[i].split()
        hdr[k.lower()] = float(v)
        i += 1
    arr = np.array([[float(x) for x in ln.split()] for ln in lines[i:] if ln.strip()])
    if "nodata_value" in hdr:
        arr[arr == hdr["nodata_value"]] = np.nan
    return arr, hdr


def format_case(case, ck):
    import xarray as xr

    import openamundsen as oa

    fmt, layout = case["format"], case["layout"]
    ts, start, n = "3h", "2020-01-30 06:00", 20
    dt = pd.Timedelta(ts)
    end = str(pd.Timestamp(start) + (n - 1) * dt)
    roi = ROIS[case["roi"]]
    fields = []
    k = 0
    for freq, agg, (var, nd, typ) in itertools.product(case["freqs"], (None, "sum", "mean"), VARS):
        f = {"var": var, "name": f"o{k}", "freq": freq}
        if agg:
            f["agg"] = agg
        fields.append((f, freq, agg, nd, typ))
        k += 1
    res = ck.scratch.sub("r")
    m = iorun.tiny_model(
        ck, {"output_data": {"grids": {"variables": [f[0] for f in fields], "format": fmt,
                                       "layout": layout, **case["opt"]}}},
        start, end, ts, roi=None if roi is None else np.array(roi), gaps=case["gaps"], results=res)
    dates = list(m.dates)
    nc = res / "output_grids.nc"
    mask = m.grid.roi
    if roi is not None:
        ck.check((mask == np.array(roi).astype(bool)).all(), "roi")
    hist = {v[0]: [] for v in VARS}

    def expected(f, freq, agg, upto):
        wd = [d for d in iorun.ref_write_dates(dates, freq, agg, dt) if d <= dates[upto]]
        return wd, iorun.ref_values(hist[f["var"]], dates, wd, agg)

    def opened():
        if fmt == "netcdf":
            with xr.open_dataset(nc) as ds_:
                ds = ds_.load()
        else:
            ds = m.gridded_output.data
        return ds

    def check_ds(ds, upto, final):
        if layout == "roi_pixel":
            ck.check(list(ds["pixel"].values) == list(np.flatnonzero(mask)), "pixel index")
            ds = oa.util.convert_roi_pixel_dataset_to_grid(ds)
        xs = X0 + RES * (np.arange(mask.shape[1]) + 0.5)
        ys = Y0 + RES * (mask.shape[0] - np.arange(mask.shape[0]) - 0.5)
        ck.close(ds["x"].values, xs, "x coordinates")
        ck.close(ds["y"].values, ys, "y coordinates")
        if final:
            import pyproj

            ck.check("crs" in ds.coords or "crs" in ds, "grid mapping variable missing")
            ck.check(pyproj.CRS.from_cf(ds["crs"].attrs).to_epsg() == 32632, "CRS of the dataset")
        for f, freq, agg, nd, typ in fields:
            if final and f["name"] in ds:
                v = ds[f["name"]]
                for k, a in META[f["var"]].items():
                    ck.check(v.attrs.get(k) == a, "metadata of an output variable", field=f, key=k,
                             got=v.attrs.get(k), expected=a)
                gm = v.attrs.get("grid_mapping", v.encoding.get("grid_mapping"))
                ck.check(gm == "crs", "grid mapping of an output variable", got=gm)
                if agg:
                    td = times_of(ds, f["name"])[1]
                    ck.check(ds[td].attrs.get("bounds") in ds or ds[td].encoding.get("bounds") in ds,
                             "time bounds missing")
            wd, exp = expected(f, freq, agg, upto)
            allwd = iorun.ref_write_dates(dates, freq, agg, dt)
            if not allwd:
                ck.check(f["name"] not in ds, "unexpected output field")
                continue
            ck.check(f["name"] in ds, "output field missing", field=f)
            got, _ = times_of(ds, f["name"])
            vals = ds[f["name"]].values
            if final or (fmt == "netcdf" and case["opt"].get("append")):
                # the time axis may be shared with fields which are written later in this step
                ck.check(got == wd, "output dates", field=f, upto=upto, got=got, expected=wd)
                if got != wd:
                    continue
            else:
                ck.check(got == allwd, "output dates", field=f, upto=upto)
            if not wd:
                continue
            cmp(ck, vals[: len(wd)], np.array(exp), mask, "output values", field=f, upto=upto)
            # pixels outside of the region of interest carry no information
            o = vals[: len(wd)][..., ~mask]
            if typ == "f" or agg == "mean":
                ck.check(np.isnan(o.astype(float)).all(), "values outside of the ROI", field=f)
            if not final and typ == "f" and len(wd) < len(got):
                ck.check(np.isnan(vals[len(wd):].astype(float)).all(), "values before their time",
                         field=f)
            if final:
                ck.outcome((f["var"], freq, agg, len(wd)))

    def check_files(upto):
        ext = "asc" if fmt == "ascii" else "tif"
        want = {}
        for f, freq, agg, nd, typ in fields:
            wd, exp = expected(f, freq, agg, upto)
            prev = None
            for d, e in zip(wd, exp):
                ds_ = f"{d:%Y-%m-%dT%H%M}"
                if agg:
                    s = dates[0] if prev is None else prev + dt
                    ds_ = f"{s:%Y-%m-%dT%H%M}_{ds_}"
                prev = d
                if nd == 2:
                    want[f"{f['name']}_{ds_}.{ext}"] = e
                else:
                    for j in range(e.shape[0]):
                        want[f"{f['name']}_{j}_{ds_}.{ext}"] = e[j]
        have = {p.name for p in res.iterdir() if p.suffix == f".{ext}"}
        ck.check(have == set(want), "set of output files", upto=upto,
                 missing=sorted(set(want) - have)[:3], extra=sorted(have - set(want))[:3])
        if upto == n - 1:
            for name in sorted(have & set(want)):
                if fmt == "ascii":
                    arr, hdr = read_ascii(res / name)
                    ck.check((hdr["xllcorner"], hdr["yllcorner"], hdr["cellsize"]) == (X0, Y0, RES),
                             "georeference", file=name)
                else:
                    import rasterio

                    with rasterio.open(res / name) as r:
                        arr = r.read(1).astype(float)
                        ck.check(r.crs.to_epsg() == 32632, "CRS of the output file", file=name)
                        ck.check((r.transform.c, r.transform.f, r.transform.a, r.transform.e)
                                 == (X0, Y0 + RES * mask.shape[0], RES, -RES), "georeference")
                cmp(ck, arr, want[name], mask, "file content", file=name)
            ck.outcome(("files", len(have)))

    for t in range(n):
        m.run_single()
        for v in hist:
            hist[v].append(np.array(m.state[v], copy=True))
        # everything due so far is on disk after every time step (crash points)
        if fmt in ("ascii", "geotiff"):
            check_files(t)
        elif t == n - 1 or t % 4 == 3:
            check_ds(opened(), t, t == n - 1)
    ck.states(n)
    ck.transitions(n)
    ck.traces(len(fields))


def reject_case(case, ck):
    bad = [
        ({"variables": [{"var": "meteo.temp"}, {"var": "meteo.temp"}]}, "duplicate names"),
        ({"variables": [{"var": "meteo.temp", "freq": "W"}]}, "weekly output"),
        ({"variables": [{"var": "meteo.temp", "freq": "abc"}]}, "invalid frequency"),
        ({"variables": [{"var": "meteo.temp", "freq": "h"}]}, "frequency below the time step"),
        ({"variables": [{"var": "meteo.temp", "freq": "4h"}]}, "not a multiple of the time step"),
        ({"variables": [{"var": "meteo.temp", "freq": "h", "agg": "sum"}]}, "frequency below dt"),
        ({"variables": [{"var": "meteo.temp", "agg": "max"}]}, "unknown aggregation"),
        ({"variables": [{"var": "meteo.temp"}], "format": "ascii", "layout": "roi_pixel"}, "layout"),
        ({"variables": [{"var": "meteo.temp"}], "format": "geotiff", "layout": "roi_pixel"}, "layout"),
    ]
    for over, what in bad:
        try:
            iorun.tiny_model(ck, {"output_data": {"grids": over}}, "2020-01-01 00:00",
                             "2020-01-02 00:00", "3h")
        except Exception:
            ck.c["assertions"] += 1
            ck.outcome(("rejected", what))
        else:
            ck.fail("invalid gridded output specification accepted", what_=what)
    ck.states(len(bad))
    ck.traces(len(bad))
    ck.transitions(len(bad))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
