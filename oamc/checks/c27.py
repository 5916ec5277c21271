"""C27: forcing data created with the API, passed in memory or read from files reach the model
unchanged and identically, also from the command line."""

import itertools
import json
import sys

import numpy as np
import pandas as pd

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "all subsets of the 8 meteorological variables; all availability patterns of 4 dates for 1-2 "
    "stations (thorough: 3); model runs over 4 time steps with 1-3 stations",
]
NAN = float("nan")
UNITS = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "sw_in": "W m-2", "wind_speed": "m s-1",
         "wind_speed_gust": "m s-1", "wind_dir": "degree", "cloud_fraction": "%"}
STD = {"temp": "air_temperature", "precip": "precipitation_amount", "rel_hum": "relative_humidity",
       "sw_in": "surface_downwelling_shortwave_flux_in_air", "wind_speed": "wind_speed",
       "wind_speed_gust": "wind_speed_of_gust", "wind_dir": "wind_from_direction",
       "cloud_fraction": "cloud_area_fraction"}
MIN = ["temp", "precip", "rel_hum", "sw_in", "wind_speed"]
VARS = list(UNITS)
WRONG = {"temp": ("degC", "C", "k"), "precip": ("mm h-1", "kg m-2 h-1", "m"), "rel_hum": ("1", "percent"),
         "sw_in": ("W", "J m-2"), "wind_speed": ("km h-1", "m/s"), "wind_speed_gust": ("km h-1",),
         "wind_dir": ("rad", "degrees"), "cloud_fraction": ("octa", "percent")}


def value(v, k, i):
    return {"temp": 262.0 + 1.7 * i + 3 * k, "precip": 0.3 * ((3 * i + k) % 4),
            "rel_hum": 40.0 + (7 * i + 11 * k) % 55, "sw_in": 50.0 * ((i + k) % 5),
            "wind_speed": 1.0 + (i * 3 + k) % 6, "wind_speed_gust": 8.0 + (i + 2 * k) % 5,
            "wind_dir": (i * 71.0 + 13 * k) % 360, "cloud_fraction": (i * 29.0 + 7 * k + 5) % 100}[v]


def cases(tier):
    out = []
    for lo in range(0, 256, 16):
        out.append({"kind": "make", "range": [lo, lo + 16]})
    out.append({"kind": "units"})
    out.append({"kind": "rates"})
    out.append({"kind": "incomplete"})
    for p in range(1, 16):
        out.append({"kind": "combine", "first": p, "n": 2 if tier == "quick" else 3})
    for a in range(3):
        out.append({"kind": "coords", "which": a})
    out.append({"kind": "lattice"})
    for c in range(len(CORR)):
        out.append({"kind": "reuse", "corr": c})
    out.append({"kind": "valid"})
    for n, fmt in itertools.product((1, 2, 3), ("memory", "transposed", "float32", "reordered", "csv",
                                                "netcdf", "long", "roundtrip")):
        out.append({"kind": "run", "n": n, "variant": fmt})
    for src in ("csv", "netcdf"):
        out.append({"kind": "cli", "format": src})
    return out


def frame(k, variables, dates):
    return pd.DataFrame({v: [float(value(v, k, i)) for i in range(len(dates))] for v in variables},
                        index=dates)


def same(ck, ds, sel, variables, k, dates, pos=None, **info):
    """The series of a dataset are the values of station k at the given dates."""
    for v in variables:
        exp = np.array([value(v, k, i) if pos is None or pos[i] else NAN for i in range(len(dates))])
        ck.close(np.asarray(sel(ds[v]), dtype=float), exp, f"values of {v}", **info)


def make_case(case, ck):
    import xarray as xr

    import openamundsen as oa

    dates = pd.date_range("2020-01-30 22:00", periods=4, freq="h")
    for mask in range(*case["range"]):
        vs = [v for i, v in enumerate(VARS) if mask >> i & 1]
        for kind, extra, meta in itertools.product(("df", "ds"), (False, True), ("args", "data", "both")):
            df = frame(1, vs, dates)
            if extra:
                df["snow_depth"] = 1.0
            kw, data = {}, df
            if kind == "ds":
                data = df.rename_axis("time").to_xarray()
            if meta in ("args", "both"):
                kw = dict(point_id="p1", name="Point 1", lon=10.5, lat=46.75, alt=1234.5)
            if meta in ("data", "both"):
                if kind == "df":
                    if meta == "data":
                        continue  # a table cannot hold the metadata
                else:
                    data = data.assign(lon=9.0, lat=45.0, alt=77.0) if meta == "both" else data.assign(
                        lon=10.5, lat=46.75, alt=1234.5)
                    data.attrs.update(station_id="p0" if meta == "both" else "p1",
                                      station_name="P0" if meta == "both" else "Point 1")
            before = data.copy(deep=True)
            ds = oa.forcing.make_point_dataset(data, **kw)
            info = {"vars": vs, "kind": kind, "meta": meta}
            ck.check(set(ds.data_vars) == set(vs) | {"lon", "lat", "alt"}, "variables of the dataset",
                     got=sorted(ds.data_vars), **info)
            ck.check(ds.attrs["station_id"] == "p1" and ds.attrs["station_name"] == "Point 1",
                     "station ID and name", got=dict(ds.attrs), **info)
            ck.check((float(ds.lon), float(ds.lat), float(ds.alt)) == (10.5, 46.75, 1234.5),
                     "coordinates", **info)
            ck.check(ds.indexes["time"].equals(dates), "dates", **info)
            same(ck, ds, lambda a: a.values, vs, 1, dates, **info)
            for v in vs:
                ck.check(ds[v].attrs.get("units") == UNITS[v] and ds[v].attrs.get("standard_name") == STD[v],
                         "units and standard name", var=v, got=dict(ds[v].attrs))
            eq = before.equals(data) if kind == "df" else before.identical(data)
            ck.check(eq, "the passed data were modified", **info)
            for v in vs:  # the dataset does not share memory with the data of the user
                ds[v].values[:] = -1.0
            eq = before.equals(data) if kind == "df" else before.identical(data)
            ck.check(eq, "the dataset shares memory with the passed data", **info)
            ck.states()
            ck.transitions()
            ck.outcome((kind, meta, len(vs)))
        e = oa.forcing.make_empty_point_dataset(dates, "e", "E", 1.0, 2.0, 3.0, meteo_vars=vs)
        ck.check(all(np.isnan(e[v].values).all() and e[v].shape == (4,) for v in vs), "empty dataset")
    ck.traces()


def units_case(case, ck):
    import openamundsen as oa

    dates = pd.date_range("2020-01-30 22:00", periods=4, freq="h")
    kw = dict(point_id="p", lon=10.0, lat=47.0, alt=1000.0)
    for v in VARS:
        for u in (UNITS[v], *WRONG[v]):
            for extra in ((), (VARS[(VARS.index(v) + 3) % 8],)):
                ds = frame(0, [v, *extra], dates).rename_axis("time").to_xarray()
                ds[v].attrs["units"] = u
                try:
                    r = oa.forcing.make_point_dataset(ds, **kw)
                    err = None
                except Exception as e:
                    err = e
                if u == UNITS[v]:
                    ck.check(err is None, "expected units rejected", var=v, error=repr(err))
                    same(ck, r, lambda a: a.values, [v, *extra], 0, dates, var=v)
                else:
                    ck.check(isinstance(err, oa.errors.MeteoDataError), "wrong units accepted", var=v,
                             units=u, error=repr(err))
                ck.states()
                ck.transitions()
                ck.outcome((v, u))
    ck.traces()


def rates_case(case, ck):
    """Precipitation rates become sums over the time step of the data, fractions percentages."""
    import openamundsen as oa

    kw = dict(point_id="p", lon=10.0, lat=47.0, alt=1000.0)
    for freq, n in itertools.product(("1min", "10min", "30min", "h", "90min", "3h", "D", "2D"), (3, 4, 12, 25)):
        dates = pd.date_range("2020-02-28 21:00", periods=n, freq=freq)
        sums = np.array([value("precip", 2, i) for i in range(n)])
        sums[1] = NAN
        df = pd.DataFrame({"precip": sums / pd.Timedelta(dates[1] - dates[0]).total_seconds(),
                           "cloud_fraction": (np.arange(n) % 9) / 8.0}, index=dates)
        for cu, only in itertools.product(("1", "%", None), (None, "precip", "cloud_fraction")):
            if only == "precip" and cu:
                continue
            ds = df.rename_axis("time").to_xarray()
            if only:
                ds = ds[[only]]
            for v in ds.data_vars:  # (as read from a file)
                ds[v] = ("time", ds[v].values.copy())
            if only != "cloud_fraction":
                ds.precip.attrs["units"] = "kg m-2 s-1"
            if cu:
                ds.cloud_fraction.attrs["units"] = cu
            before = ds.copy(deep=True)
            r = oa.forcing.make_point_dataset(ds, **kw)
            if only != "cloud_fraction":
                ck.close(r.precip.values, sums, "precipitation sums", freq=freq, n=n)
                ck.check(r.precip.attrs["units"] == "kg m-2", "units of the precipitation sums")
            if only != "precip" and (cu is not None or n > 10):
                exp = df.cloud_fraction.values * (1 if cu == "%" else 100)
                ck.close(r.cloud_fraction.values, exp, "cloud fraction", units=cu, n=n)
            ck.check(ds.identical(before), "the passed data were modified", freq=freq)
            ck.states()
            ck.transitions()
            ck.outcome((freq, n, cu, only))
    ck.traces()


def incomplete_case(case, ck):
    """Every missing piece of metadata is reported (TypeError)."""
    import openamundsen as oa

    dates = pd.date_range("2020-01-30 22:00", periods=2, freq="h")
    full = dict(point_id="p", name="n", lon=10.0, lat=47.0, alt=1000.0)
    for mask in range(32):
        kw = {k: x for i, (k, x) in enumerate(full.items()) if mask >> i & 1}
        need = {"point_id", "lon", "lat", "alt"} - set(kw)
        for data in (frame(0, ["temp"], dates), frame(0, ["temp"], dates).rename_axis("time").to_xarray()):
            try:
                r = oa.forcing.make_point_dataset(data, **kw)
                err = None
            except Exception as e:
                err = e
            if need:
                ck.check(isinstance(err, TypeError), "missing metadata accepted", missing=sorted(need),
                         error=repr(err))
            else:
                ck.check(err is None, "complete metadata rejected", error=repr(err))
                ck.check(r.attrs["station_name"] == ("n" if "name" in kw else "p"), "station name")
            ck.states()
            ck.transitions()
            ck.outcome(mask)
    for bad in (1, "x", [1.0], np.zeros(2)):
        try:
            oa.forcing.make_point_dataset(bad, **full)
            err = None
        except Exception as e:
            err = e
        ck.check(isinstance(err, TypeError), "unsupported type accepted", value=repr(bad))
    ck.traces()


SUBSETS = [MIN, ["temp"], ["precip", "wind_dir"], ["sw_in", "cloud_fraction", "wind_speed"]]


def combine_case(case, ck):
    """Stations with arbitrary availability: union of the dates, own values at own dates."""
    import openamundsen as oa

    dates = pd.date_range("2020-01-30 21:00", periods=4, freq="h")
    pats = range(1, 16) if case["n"] == 2 else (1, 6, 9, 15)
    words = [(case["first"],)] + [(case["first"], p) for p in range(1, 16)]
    if case["n"] == 3:
        words += [(case["first"], a, b) for a in pats for b in pats]
    for w in words:
        for shift, minimum in itertools.product(range(4), (True, False)):
            if len(w) > 1 and (w[1] + shift) % 2 == minimum:
                continue
            dss, vss = [], []
            for k, p in enumerate(w):
                vs = SUBSETS[(k + shift) % 4]
                pos = [bool(p >> i & 1) for i in range(4)]
                vss.append((vs, pos))
                dss.append(oa.forcing.make_point_dataset(
                    frame(k, vs, dates)[pos], point_id=f"s{9 - k}", name=f"Station {k}", lon=10.0 + k,
                    lat=47.0 - k, alt=1000.0 * (k + 1)))
            before = [d.copy(deep=True) for d in dss]
            ds = oa.forcing.combine_point_datasets(dss, add_minimum_required_vars=minimum)
            info = {"word": w, "shift": shift, "minimum": minimum}
            exp_vars = set().union(*[v for v, _ in vss]) | (set(MIN) if minimum else set())
            ck.check(set(VARS) & set(ds.data_vars) == exp_vars, "combined variables",
                     got=sorted(ds.data_vars), **info)
            ck.check(list(ds.station.values) == [f"s{9 - k}" for k in range(len(w))], "stations", **info)
            un = [d for i, d in enumerate(dates) if any(pos[i] for _, pos in vss)]
            ck.check(list(ds.indexes["time"]) == un, "union of the dates",
                     got=[str(x) for x in ds.indexes["time"]], **info)
            idx = [i for i in range(4) if dates[i] in un]
            for k, (vs, pos) in enumerate(vss):
                d = ds.isel(station=k)
                ck.check((float(d.lon), float(d.lat), float(d.alt), str(d.station_name.values))
                         == (10.0 + k, 47.0 - k, 1000.0 * (k + 1), f"Station {k}"), "metadata", **info)
                for v in exp_vars:
                    e = [value(v, k, i) if v in vs and pos[i] else NAN for i in idx]
                    ck.close(d[v].values, e, f"combined values of {v}", **info)
            ck.check(all(a.identical(b) for a, b in zip(dss, before)), "the passed datasets were modified",
                     **info)
            if minimum:
                ck.check(oa.forcing.is_valid_point_dataset(ds) and
                         oa.forcing.is_valid_point_dataset(ds, dates=pd.DatetimeIndex(un)),
                         "combined dataset is not valid", **info)
            ck.states(len(un) * len(w))
            ck.transitions(len(w))
            ck.outcome((len(un), len(w), len(exp_vars)))
        ck.traces()



LAY = [(25.0, 25.0, 900.0), (75.0, 80.0, 1650.0), (-800.0, 2500.0, 2400.0)]


def dataset(n, dates, variables=MIN, order=None):
    return refmet.dataset([{"id": f"s{k}", "x": domain.X0 + LAY[k][0], "y": domain.Y0 + LAY[k][1],
                            "alt": LAY[k][2],
                            **{v: [value(v, k, i) for i in range(len(dates))] for v in variables}}
                           for k in (order or range(n))], dates)


def build(ck, cfg_over=None, fmt="memory", start="2020-04-15 06:00", end="2020-04-15 15:00"):
    import openamundsen as oa

    g = domain.make_grids(ck.scratch.sub("g"), np.array([[1500.0, 1600.0], [1700.0, 1800.0]]))
    cfg = domain.base_config(g, ck.scratch.sub("r"), start, end, "3h",
                             input_data={"meteo": {"format": fmt}})
    domain.merge(cfg, cfg_over or {})
    return cfg, oa


def coords_case(case, ck):
    """Preparing the coordinates adds exactly the grid variables; stripping removes them again."""
    cfg, oa = build(ck)
    m = oa.OpenAmundsen(cfg)
    dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
    m.initialize(meteo=dataset(3, dates))
    for perm in itertools.permutations(range(3)):
        ds = dataset(3, dates, MIN + ["wind_dir"] * (case["which"] == 1), order=perm)
        if case["which"] == 2:
            ds = ds.isel(station=[0])
            perm = perm[:1]
        before = ds.copy(deep=True)
        p = oa.forcing.prepare_point_coordinates(ds, m.grid, domain.CRS)
        ck.check(ds.identical(before), "the passed dataset was modified", perm=perm)
        for k, s in enumerate(perm):
            x, y = domain.X0 + LAY[s][0], domain.Y0 + LAY[s][1]
            q = p.isel(station=k)
            ck.check(abs(float(q.x) - x) < 1e-3 and abs(float(q.y) - y) < 1e-3, "coordinates", perm=perm)
            c, r = int(np.floor((x - domain.X0) / 50)), int(np.floor((domain.Y0 + 100 - y) / 50))
            ck.check((int(q.col), int(q.row)) == (c, r), "row and column", perm=perm,
                     got=(int(q.col), int(q.row)), expected=(c, r))
            ins = 0 <= c < 2 and 0 <= r < 2
            ck.check(bool(q.within_grid_extent) == ins and bool(q.within_roi) == ins, "within the grid")
        st = oa.forcing.strip_point_dataset(p)
        ck.check(set(st.data_vars) == set(ds.data_vars) and all(
            st[v].equals(ds[v]) for v in ds.data_vars), "stripped dataset", perm=perm)
        ck.states()
        ck.transitions()
        ck.outcome(perm)
    ck.traces()


def lattice_case(case, ck):
    """Stations at every cell of the grid and of a surrounding belt: exactly those on the grid and
    in the region of interest are taken as such."""
    from itertools import product

    import openamundsen as oa

    dem = 1500.0 + np.arange(6.0).reshape(2, 3)
    dem[1, 0] = NAN
    for roi in ([[1, 1, 1], [1, 1, 1]], [[0, 1, 0], [1, 0, 1]], [[1, 0, 0], [0, 0, 0]]):
        for extend in (False, True):
            g = domain.make_grids(ck.scratch.sub("g"), dem, roi=np.array(roi))
            dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
            cells = list(product(range(-3, 5), range(-3, 6)))
            ds = refmet.dataset([{"id": f"s{k}", "x": domain.X0 + c * 50 + 13.0, "y": domain.Y0 + 100 - r * 50 - 31.0,
                                  "alt": 1500.0, **{v: [value(v, k, i) for i in range(4)] for v in MIN}}
                                 for k, (r, c) in enumerate(cells)], dates)
            m = oa.OpenAmundsen(domain.base_config(
                g, ck.scratch.sub("r"), str(dates[0]), str(dates[-1]), "3h",
                input_data={"meteo": {"format": "memory"}}, extend_roi_with_stations=extend))
            m.initialize(meteo=ds)
            base = np.array(roi, bool) & np.isfinite(dem)
            exp = np.isfinite(dem) if extend else base
            ck.check((m.grid.roi == exp).all(), "region of interest", got=m.grid.roi, expected=exp)
            ck.check(len(m.grid.roi_xs) == exp.sum() and np.allclose(
                m.grid.roi_xs, m.grid.X[exp]) and np.allclose(m.grid.roi_ys, m.grid.Y[exp]),
                "coordinates of the region of interest")
            for k, (r, c) in enumerate(cells):
                q = m.meteo.sel(station=f"s{k}")
                ins = 0 <= r < 2 and 0 <= c < 3
                ck.check((int(q.row), int(q.col)) == (r, c), "row and column", cell=(r, c),
                         got=(int(q.row), int(q.col)))
                ck.check(bool(q.within_grid_extent) == ins, "within the grid", cell=(r, c))
                ck.check(bool(q.within_roi) == bool(ins and exp[r, c]), "within the region of interest",
                         cell=(r, c), extend=extend)
                ck.states()
            ck.transitions()
            ck.outcome((str(roi), extend))
    ck.traces()


CORR = [[{"method": "wmo", "gauge": "hellmann"}], [{"method": "kochendorfer", "gauge": "us_sa"}],
        [{"method": "constant_scf", "scf": 1.4}] , []]


def reuse_case(case, ck):
    """The same dataset can be used for several runs: it is never modified."""
    dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
    for n in (1, 3):
        cfg, oa = build(ck, {"meteo": {"precipitation_correction": CORR[case["corr"]]}})
        ds = dataset(n, dates)
        ds.temp.values[0] -= 15.0
        before = ds.copy(deep=True)
        snaps = []
        for _ in range(3):
            m = oa.OpenAmundsen(cfg)
            m.initialize(meteo=ds)
            ck.check(ds.identical(before), "initialization modified the data of the user",
                     corr=CORR[case["corr"]])
            seq = []
            for _ in range(4):
                m.run_single()
                seq.append(snapshot(m))
                ck.transitions()
            m.meteo.temp.values[:] = 0.0
            ck.check(ds.identical(before), "the model shares memory with the data of the user")
            snaps.append(seq)
            ck.states(4)
        for other in snaps[1:]:
            for t, (a, b) in enumerate(zip(snaps[0], other)):
                for key in a:
                    ck.check(np.array_equal(a[key], b[key], equal_nan=a[key].dtype.kind == "f"),
                             f"second run with the same data differs in {key}", step=t)
        ck.traces()
        ck.outcome((case["corr"], n))


def valid_case(case, ck):
    """Datasets which do not exactly cover the model dates or lack variables are rejected."""
    dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
    H = pd.Timedelta("3h")
    variants = {"ok": (dates, None, True)}
    for i in range(4):
        variants[f"without date {i}"] = (dates.delete(i), None, False)
    variants["shifted"] = (dates + pd.Timedelta("1h"), None, False)
    variants["earlier"] = (dates - H, None, False)
    variants["longer"] = (dates.append(pd.DatetimeIndex([dates[-1] + H])), None, False)
    variants["longer before"] = (pd.DatetimeIndex([dates[0] - H]).append(dates), None, False)
    variants["finer"] = (pd.date_range(dates[0], dates[-1], freq="h"), None, False)
    variants["coarser"] = (pd.date_range(dates[0], dates[-1], freq="9h"), None, False)
    variants["reversed"] = (dates[::-1], None, False)
    for v in MIN + ["lon", "lat", "alt", "station_name"]:
        variants[f"without {v}"] = (dates, v, False)
    for n, (name, (d, drop, ok)) in itertools.product((1, 2), variants.items()):
        cfg, oa = build(ck)
        ds = dataset(n, d)
        if drop:
            ds = ds.drop_vars(drop)
        m = oa.OpenAmundsen(cfg)
        try:
            m.initialize(meteo=ds)
            err = None
        except Exception as e:
            err = e
        if ok:
            ck.check(err is None, "valid dataset rejected", variant=name, error=repr(err))
        else:
            ck.check(isinstance(err, oa.errors.MeteoDataError), "invalid dataset accepted", variant=name,
                     error=repr(err))
        ck.check(oa.forcing.is_valid_point_dataset(ds, dates=dates) == ok, "is_valid_point_dataset",
                 variant=name)
        ck.states()
        ck.transitions()
        ck.outcome(name)
    for fmt, kw in (("memory", {}), ("callback", {}), ("callback", {"meteo_callback": 3}),
                    ("callback", {"meteo_callback": "x"})):
        cfg, oa = build(ck, fmt=fmt)
        m = oa.OpenAmundsen(cfg)
        try:
            m.initialize(**kw)
            err = None
        except Exception as e:
            err = e
        ck.check(isinstance(err, oa.errors.MeteoDataError), "missing or unsuitable forcing accepted",
                 format=fmt, kwargs=repr(kw), error=repr(err))
    for v in ("prescribed",):
        cfg, oa = build(ck, {"meteo": {"interpolation": {"cloudiness": {"method": v}}}})
        for cf in (False, True):
            m = oa.OpenAmundsen(cfg)
            try:
                m.initialize(meteo=dataset(2, dates, MIN + ["cloud_fraction"] * cf))
                err = None
            except Exception as e:
                err = e
            ck.check((err is None) if cf else isinstance(err, oa.errors.MeteoDataError),
                     "prescribed cloudiness", available=cf, error=repr(err))
    ck.traces()


def snapshot(m):
    out = {}
    for cat in m.state.categories:
        for v in m.state[cat]._meta:
            out[f"{cat}.{v}"] = np.array(m.state[cat][v])
    return out


def write_files(d, fmt, n, dates, variables):
    import openamundsen as oa

    rows = []
    for k in range(n):
        df = frame(k, variables, dates)
        x, y = domain.X0 + LAY[k][0], domain.Y0 + LAY[k][1]
        if fmt == "csv":
            rows.append({"id": f"s{k}", "name": f"s{k}", "x": x, "y": y, "alt": LAY[k][2]})
            df.to_csv(d / f"s{k}.csv", index_label="date", float_format="%.17g")
        else:
            lon, lat = refmet.lonlat(x, y)
            ds = oa.forcing.make_point_dataset(df, point_id=f"s{k}", name=f"s{k}", lon=lon, lat=lat,
                                               alt=LAY[k][2])
            ds.to_netcdf(d / f"s{k}.nc")
    if fmt == "csv":
        pd.DataFrame(rows).to_csv(d / "stations.csv", index=False)


def run_case_(case, ck):
    """The run depends on the content of the dataset only, not on the way it was provided."""
    n, variant = case["n"], case["variant"]
    dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
    for vs in (MIN, MIN + ["wind_speed_gust", "wind_dir"], MIN + ["cloud_fraction"]):
        hist = []
        for kind in ("memory", variant):
            over, kw = {}, {}
            fmt = "memory"
            ds = dataset(n, dates, vs)
            if kind == "transposed":
                ds = ds.transpose()
            elif kind == "float32":
                for v in vs:
                    ds[v] = ds[v].astype("float32")
            elif kind == "reordered":
                ds = dataset(n, dates, list(reversed(vs)), order=list(reversed(range(n))))
            elif kind == "roundtrip":
                import xarray as xr

                f = ck.scratch.sub("nc") / "ds.nc"
                ds.to_netcdf(f)
                ds = xr.load_dataset(f)
            elif kind == "long":  # a longer dataset restricted to the model dates by the user
                ds = dataset(n, pd.date_range(dates[0], periods=9, freq="3h"), vs).sel(time=dates)
            elif kind in ("csv", "netcdf"):
                fmt = kind
                d = ck.scratch.sub("m")
                write_files(d, kind, n, dates, vs)
                over = {"input_data": {"meteo": {"format": kind, "dir": str(d), "bounds": "global"}}}
            cfg, oa = build(ck, over, fmt)
            m = oa.OpenAmundsen(cfg)
            before = ds.copy(deep=True)
            m.initialize(**({"meteo": ds} if fmt == "memory" else {}))
            info = {"variant": kind, "vars": vs}
            ck.check(m.meteo.indexes["time"].equals(dates), "dates of the model data", **info)
            ck.check(sorted(m.meteo.station.values) == [f"s{k}" for k in range(n)], "stations", **info)
            for k in range(n):
                d = m.meteo.sel(station=f"s{k}")
                for v in vs:
                    ck.close(d[v].values, [value(v, k, i) for i in range(4)], f"model data of {v}",
                             rtol=1e-6, **info)
                ck.close([float(d.x) - domain.X0, float(d.y) - domain.Y0, float(d.alt)], LAY[k],
                         "station position", atol=1e-3, **info)
            snaps = []
            for _ in range(4):
                m.run_single()
                snaps.append(snapshot(m))
                ck.transitions()
            hist.append(snaps)
            if fmt == "memory":
                ck.check(ds.identical(before), "the data of the user were modified", **info)
            ck.states(4)
        for t, (a, b) in enumerate(zip(*hist)):
            ck.check(a.keys() == b.keys(), "state variables", variant=variant)
            for key in a:
                ck.close(b[key], a[key], f"state variable {key} depends on how the forcing is provided",
                         rtol=1e-4, atol=1e-5, step=t, variant=variant)
        ck.traces()
        ck.outcome((n, variant, len(vs)))


def cli_case(case, ck):
    """The command line run of a configuration file equals the run with the API."""
    import openamundsen as oa
    from openamundsen import cli

    dates = pd.date_range("2020-04-15 06:00", periods=4, freq="3h")
    d = ck.scratch.sub("m")
    write_files(d, case["format"], 2, dates, MIN)
    for fmt, wf in itertools.product(("csv", "netcdf"), ("D", "6h")):
        outs = []
        for mode in ("api", "cli"):
            cfg, _ = build(ck, {"input_data": {"meteo": {"format": case["format"], "dir": str(d)}},
                                "output_data": {"timeseries": {"format": fmt, "add_default_points": True,
                                                               "write_freq": wf}}}, case["format"])
            if mode == "api":
                m = oa.OpenAmundsen(cfg)
                m.initialize()
                m.run()
            else:
                f = ck.scratch.sub("c") / "config.yml"
                f.write_text(json.dumps(cfg))
                ck.check(oa.read_config(f).toDict() == cfg, "configuration file", format=fmt)
                argv = sys.argv
                sys.argv = ["openamundsen", str(f)]
                try:
                    cli.main()
                finally:
                    sys.argv = argv
            from pathlib import Path

            import xarray as xr

            r = Path(cfg["results_dir"])
            files = sorted(p.name for p in r.iterdir())
            if fmt == "csv":
                outs.append((files, [(r / p).read_text() for p in files]))
            else:
                outs.append((files, [xr.load_dataset(r / p) for p in files]))
            ck.transitions(4)
            ck.states(4)
        ck.check(outs[0][0] == outs[1][0] and len(outs[0][0]) >= 1, "output files", got=outs[1][0],
                 expected=outs[0][0])
        for a, b in zip(outs[0][1], outs[1][1]):
            ck.check(a == b if fmt == "csv" else a.equals(b), "outputs of the command line run differ",
                     format=fmt)
        ck.traces()
        ck.outcome((case["format"], fmt, wf))


def run_case(case, ck):
    k = case["kind"]
    globals()["run_case_" if k == "run" else k + "_case"](case, ck)
