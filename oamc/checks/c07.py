"""C07: point (time series) output equals the history of the model state."""

import csv
import itertools

import numpy as np
import pandas as pd

from .. import domain, iorun
from ..domain import RES, X0, Y0

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "state values are scripted (distinct per pixel, time step and variable); grid 2x3",
    "default station points are covered with one to three stations in the meteo dataset",
]

SHAPE = (2, 3)
VARS = [("meteo.temp", None, 2, "f"), ("snow.num_layers", "nl", 2, "i"),
        ("snow.temp", "st", 3, "f"), ("soil.temp", "soil_t", 3, "f"), ("meteo.precip", "p", 2, "f")]
SPANS = [
    ("1h", "2020-01-30 00:00", 60), ("1h", "2020-01-31 22:00", 7), ("1h", "2020-01-30 05:00", 30),
    ("3h", "2020-01-30 00:00", 25), ("3h", "2020-01-30 06:00", 26), ("3h", "2020-01-31 01:00", 20),
    ("5h", "2020-01-30 00:00", 23), ("7h", "2020-01-27 03:00", 40), ("1D", "2020-01-29 00:00", 40),
    ("1D", "2020-01-30 06:00", 35), ("12h", "2019-12-30 12:00", 9), ("3h", "2020-01-30 00:00", 1),
    ("3h", "2020-01-30 00:00", 2),
]
META = {"meteo.temp": {"units": "K", "standard_name": "air_temperature"},
        "snow.num_layers": {"units": "1"}, "snow.temp": {"units": "K"},
        "soil.temp": {"units": "K"}, "meteo.precip": {"units": "kg m-2"}}
WRITE = ["h", "2h", "3h", "12h", "D", "2D", "W", "ME", "MS", "YE", "10YE"]
OFFS = [(0.5, 0.5), (0.01, 0.01), (0.99, 0.01), (0.01, 0.99), (0.99, 0.99)]
STALE = [False, True]


def cases(tier):
    out = []
    for (ts, start, n), wf in itertools.product(SPANS, WRITE):
        for fmt, stale in itertools.product(("netcdf", "csv"), STALE):
            if tier == "quick" and stale and wf not in ("D", "ME", "3h"):
                continue
            out.append({"kind": "run", "timestep": ts, "start": start, "n": n, "write": wf,
                        "format": fmt, "stale": stale})
    for ts, start, n in SPANS:
        out.append({"kind": "run", "timestep": ts, "start": start, "n": n, "write": "ME",
                    "format": "memory", "stale": False})
    for fmt in ("netcdf", "csv", "memory"):
        for gaps in (False, True):
            for roi in (None, [[1, 0, 1], [1, 1, 0]]):
                out.append({"kind": "points", "format": fmt, "gaps": gaps, "roi": roi})
        for mask in range(8):
            out.append({"kind": "stations", "format": fmt, "mask": mask})
        out.append({"kind": "defaults", "format": fmt})
    out.append({"kind": "reject"})
    return out


def pixel(r, c, off=(0.5, 0.5)):
    """Coordinates of a point within pixel (r, c)."""
    return (X0 + RES * (c + off[0]), Y0 + RES * (SHAPE[0] - 1 - r + off[1]))


def name_of(v):
    return v[1] or v[0].split(".")[-1]


def read_csv_file(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def num(s):
    return np.nan if s in ("", "nan", "NaN") else float(s)


class Observer:
    """Reads back the outputs and compares them with the recorded history."""

    def __init__(self, ck, m, fmt, res, points, variables):
        self.ck, self.m, self.fmt, self.res = ck, m, fmt, res
        self.points, self.vars = points, variables  # points: (name, row, col)
        self.dates = list(m.dates)
        self.hist = {v[0]: [] for v in variables}

    def record(self):
        for v in self.hist:
            self.hist[v].append(np.array(self.m.state[v], dtype=float, copy=True))

    def expected(self, v, upto):
        rows = [p[1] for p in self.points]
        cols = [p[2] for p in self.points]
        if upto == 0:
            return None
        return np.array(self.hist[v[0]][:upto])[..., rows, cols].astype(np.float32)

    def load(self):
        """-> (list of dates, {output name: array (time[, layer], point)}, dataset or None)"""
        if self.fmt == "csv":
            dates, out = None, {}
            for p in self.points:
                hdr, rows = read_csv_file(self.res / f"point_{p[0]}.csv")
                d = [pd.Timestamp(r[0]) for r in rows]
                self.ck.check(hdr[0] == "time", "first csv column", got=hdr[0])
                self.ck.check(len(set(hdr)) == len(hdr), "duplicate csv columns", header=hdr)
                self.ck.check(all(len(r) == len(hdr) for r in rows), "ragged csv rows")
                self.ck.check(dates is None or d == dates, "csv dates differ between points")
                dates = d
                cols = {h: [num(r[i]) for r in rows] for i, h in enumerate(hdr) if i}
                want = {"time"}
                for v in self.vars:
                    n = name_of(v)
                    if v[2] == 2:
                        want.add(n)
                        out.setdefault(n, []).append(cols.get(n))
                    else:
                        k = self.m.state[v[0]].shape[0]
                        want |= {f"{n}{j}" for j in range(k)}
                        out.setdefault(n, []).append([cols.get(f"{n}{j}") for j in range(k)])
                self.ck.check(set(hdr) == want, "csv columns", got=sorted(hdr),
                              expected=sorted(want))
            res = {}
            for n, a in out.items():
                a = np.array(a, dtype=float)  # (point, [layer,] time)
                res[n] = np.moveaxis(a, (0, -1), (-1, 0))
            return dates, res, None
        if self.fmt == "netcdf":
            import xarray as xr

            with xr.open_dataset(self.res / "output_timeseries.nc") as ds_:
                ds = ds_.load()
        else:
            ds = self.m.point_output.data
        self.ck.check(set(ds.data_vars) == {name_of(v) for v in self.vars}, "output variables",
                      got=sorted(ds.data_vars))
        self.ck.check([str(x) for x in ds["point"].values] == [p[0] for p in self.points],
                      "point names", got=[str(x) for x in ds["point"].values])
        for v in self.vars:
            for k, x in META[v[0]].items():
                got = ds[name_of(v)].attrs.get(k)
                self.ck.check(got == x, "metadata of an output variable", var=v[0], key=k, got=got)
        dem = self.m.state.base.dem
        self.ck.close(ds["alt"].values, [dem[p[1], p[2]] for p in self.points], "point altitudes")
        return ([pd.Timestamp(x) for x in ds["time"].values],
                {name_of(v): ds[name_of(v)].values for v in self.vars}, ds)

    def compare(self, upto, written, final):
        """``upto``: number of processed steps, ``written``: number of steps which must be there."""
        ck = self.ck
        exists = True
        if self.fmt == "netcdf":
            exists = (self.res / "output_timeseries.nc").exists()
        elif self.fmt == "csv":
            exists = all((self.res / f"point_{p[0]}.csv").exists() for p in self.points)
        if not exists:
            ck.check(written == 0, "output file missing", upto=upto)
            return
        dates, vals, ds = self.load()
        if self.fmt == "memory":
            ck.check(dates == self.dates, "dates in the in-memory output")
            k = upto
        else:
            k = len(dates)
            ck.check(dates == self.dates[:k], "output dates are not the model dates so far",
                     got=[str(d) for d in dates][:5], upto=upto, k=k)
            ck.check(written <= k <= upto, "time steps in the output file", got=k,
                     expected=(written, upto))
        for v in self.vars:
            n = name_of(v)
            exp = self.expected(v, k)
            if exp is None:
                continue
            got = vals[n][:k].astype(float)
            if v[3] == "i":
                ok = got.shape == exp.shape and (got == exp).all()
                ck.check(ok, "integer output values", var=v[0], upto=upto)
            else:
                ck.close(got, exp, "output values", rtol=1e-6, atol=0, var=v[0], upto=upto)
            if self.fmt == "memory" and v[3] == "f" and k < len(dates):
                ck.check(np.isnan(vals[n][k:].astype(float)).all(), "values before their time")
        if final:
            ck.outcome((self.fmt, len(dates), len(self.points)))


def model(ck, over, start, n, ts, roi=None, gaps=False, results=None, extra=None):
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))
    cfg = {"output_data": {"timeseries": over}}
    return iorun.tiny_model(ck, cfg, start, end, ts, shape=SHAPE, roi=roi, gaps=gaps,
                            results=results)


def varcfg():
    return [{"var": v[0], **({"name": v[1]} if v[1] else {})} for v in VARS]


def drive(ck, m, obs, fmt, write, every):
    """Run the model and compare the output with the history at every step (crash points)."""
    dates = list(m.dates)
    if fmt != "memory":
        wd = pd.date_range(dates[0], dates[-1], freq=write)
    for t in range(len(dates)):
        m.run_single()
        obs.record()
        final = t == len(dates) - 1
        if fmt == "memory":
            written = t + 1
        elif final:
            written = len(dates)
        else:
            reached = [d for d in wd if d <= dates[t]]
            written = sum(d <= reached[-1] for d in dates) if reached else 0
        if final or every(t):
            obs.compare(t + 1, written, final)
    ck.states(len(dates))
    ck.transitions(len(dates))
    ck.traces(len(obs.points) * len(obs.vars))


def run_case_(case, ck):
    res = ck.scratch.sub("r")
    fmt = case["format"]
    pts = [("a", 0, 2), ("point2", 1, 0)]
    if case["stale"]:
        # left over from an earlier run
        old = ck.scratch.sub("old")
        m = model(ck, {"format": fmt, "write_freq": "D", "add_default_variables": False,
                       "variables": [{"var": "meteo.temp"}, {"var": "snow.swe"}],
                       "points": [{"x": pixel(0, 2)[0], "y": pixel(0, 2)[1], "name": "a"},
                                  {"x": pixel(1, 0)[0], "y": pixel(1, 0)[1]}]},
                  "2019-06-01 00:00", 4, "3h", results=old)
        m.run()
        for p in old.iterdir():
            p.rename(res / p.name)
    xy = [pixel(p[1], p[2]) for p in pts]
    cfg = {"format": fmt, "write_freq": case["write"], "add_default_variables": False,
           "variables": varcfg(),
           "points": [{"x": xy[0][0], "y": xy[0][1], "name": "a"},
                      {"x": xy[1][0], "y": xy[1][1]}]}
    m = model(ck, cfg, case["start"], case["n"], case["timestep"], results=res)
    ck.check(len(m.dates) == case["n"], "number of time steps")
    obs = Observer(ck, m, fmt, res, pts, VARS)
    stale = case["stale"]
    step = 1 if case["n"] <= 10 else 7

    def every(t):
        # before the first write, a stale file is still the old one
        return not stale and t % step == step - 1

    drive(ck, m, obs, fmt, case["write"], every)


def points_case(case, ck):
    """Every pixel, five positions per pixel, several points per pixel, pixels outside the ROI."""
    pts, cfgp = [], []
    for r in range(SHAPE[0]):
        for c in range(SHAPE[1]):
            for j, off in enumerate(OFFS):
                x, y = pixel(r, c, off)
                p = {"x": x, "y": y}
                if (r + c + j) % 2:
                    p["name"] = f"n{r}{c}{j}"
                cfgp.append(p)
                pts.append((p.get("name", f"point{len(cfgp)}"), r, c))
    res = ck.scratch.sub("r")
    cfg = {"format": case["format"], "write_freq": "6h", "add_default_variables": False,
           "variables": varcfg(), "points": cfgp}
    roi = None if case["roi"] is None else np.array(case["roi"])
    m = model(ck, cfg, "2020-01-31 00:00", 6, "3h", roi=roi, gaps=case["gaps"], results=res)
    obs = Observer(ck, m, case["format"], res, pts, VARS)
    drive(ck, m, obs, case["format"], "6h", lambda t: True)
    _, _, ds = obs.load() if case["format"] != "csv" else (0, 0, None)
    if ds is not None:
        import pyproj

        tr = pyproj.Transformer.from_crs(domain.CRS, "epsg:4326", always_xy=True)
        lon, lat = tr.transform([p["x"] for p in cfgp], [p["y"] for p in cfgp])
        ck.close(ds["lon"].values, lon, "longitudes", atol=1e-7)
        ck.close(ds["lat"].values, lat, "latitudes", atol=1e-7)
        ck.close(ds["x"].values, [p["x"] for p in cfgp], "x coordinates", atol=1e-6)
        ck.close(ds["y"].values, [p["y"] for p in cfgp], "y coordinates", atol=1e-6)


def station_ds(stations, start, n, ts):
    import pyproj

    import openamundsen as oa

    tr = pyproj.Transformer.from_crs(domain.CRS, "epsg:4326", always_xy=True)
    dates = pd.date_range(start, periods=n, freq=ts)
    dss = []
    for k, (sid, x, y) in enumerate(stations):
        lon, lat = tr.transform(x, y)
        df = pd.DataFrame({"temp": 270.0 + k, "precip": 0.0, "rel_hum": 70.0, "sw_in": 100.0,
                           "wind_speed": 2.0}, index=dates)
        dss.append(oa.forcing.make_point_dataset(
            df, point_id=sid, name=f"Station {sid}", lon=lon, lat=lat,
            alt=1000.0 + 10 * k))
    return oa.forcing.combine_point_datasets(dss)


def stations_case(case, ck):
    """Stations within the ROI are output points by default, others are not."""
    import openamundsen as oa

    # bit set: station inside of the ROI
    inside = [(0, 0), (1, 1), (0, 2)]
    roi = np.array([[1, 0, 1], [1, 1, 0]])
    out_pos = [pixel(0, 1), (X0 + 1e4, Y0 + 1e4), pixel(1, 2)]
    st, pts = [], []
    for k in range(3):
        sid = f"s{k}"
        if case["mask"] >> k & 1:
            x, y = pixel(*inside[k], off=OFFS[k])
            pts.append((sid, *inside[k]))
        else:
            x, y = out_pos[k]
        st.append((sid, x, y))
    start, n, ts = "2020-01-01 00:00", 5, "3h"
    g = domain.make_grids(ck.scratch.sub("g"), 1500.0 + np.arange(6).reshape(SHAPE), roi=roi)
    res = ck.scratch.sub("r")
    x, y = pixel(1, 0)
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))
    cfg = domain.base_config(
        g, res, start, end, ts,
        input_data={"meteo": {"format": "memory"}},
        output_data={"timeseries": {
            "format": case["format"], "write_freq": "6h", "add_default_points": True,
            "add_default_variables": False, "variables": varcfg(),
            "points": [{"x": x, "y": y, "name": "extra"}, {"x": x, "y": y + 1.0}]}})
    if case["mask"] and case["format"] == "memory":  # names of stations are taken
        import copy

        dup = copy.deepcopy(cfg)
        dup["output_data"]["timeseries"]["points"][0]["name"] = pts[0][0]
        try:
            oa.OpenAmundsen(dup).initialize(meteo=station_ds(st, start, n, ts))
        except Exception:
            ck.outcome(("rejected", "point named like a station"))
        else:
            ck.fail("point named like a station accepted")
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo=station_ds(st, start, n, ts))

    m._model_interface = lambda: None
    pts += [("extra", 1, 0), ("point2", 1, 0)]
    obs = Observer(ck, m, case["format"], res, pts, VARS)
    drive(ck, m, obs, case["format"], "6h", lambda t: True)
    if case["format"] == "csv":
        have = {p.name for p in res.iterdir()}
        ck.check(have == {f"point_{p[0]}.csv" for p in pts}, "csv files", got=sorted(have))


def defaults_case(case, ck):
    """The default output variables, plus user defined ones."""
    res = ck.scratch.sub("r")
    x, y = pixel(1, 1)
    m = model(ck, {"format": case["format"], "write_freq": "D",
                   "variables": [{"var": "surface.conductance", "name": "cond"}],
                   "points": [{"x": x, "y": y}]}, "2020-01-01 00:00", 10, "3h", results=res)
    doc = {"temp": "meteo.temp", "precip": "meteo.precip", "swe": "snow.swe",
           "snow_depth": "snow.depth", "snow_temp": "snow.temp", "soil_temp": "soil.temp",
           "surface_temp": "surface.temp", "melt": "snow.melt", "runoff": "snow.runoff",
           "ice_content": "snow.ice_content", "sw_in": "meteo.sw_in", "rel_hum": "meteo.rel_hum",
           "wind_speed": "meteo.wind_speed", "snow_thickness": "snow.thickness",
           "surface_albedo": "surface.albedo", "cond": "surface.conductance"}
    hist = {n: [] for n in doc}
    for _ in range(10):
        m.run_single()
        for n, v in doc.items():
            hist[n].append(np.array(m.state[v], dtype=np.float32)[..., 1, 1])
    if case["format"] == "csv":
        hdr, rows = read_csv_file(res / "point_point1.csv")
        for n in doc:
            e = np.array(hist[n], dtype=float)
            if e.ndim == 1:
                got = np.array([num(r[hdr.index(n)]) for r in rows])
            else:
                got = np.array([[num(r[hdr.index(f"{n}{j}")]) for j in range(e.shape[1])]
                                for r in rows])
            ck.close(got, e, "default variable", rtol=1e-6, var=n)
    else:
        import xarray as xr

        if case["format"] == "netcdf":
            with xr.open_dataset(res / "output_timeseries.nc") as ds_:
                ds = ds_.load()
        else:
            ds = m.point_output.data
        for n in doc:
            ck.close(ds[n].isel(point=0).values, np.array(hist[n]), "default variable", rtol=1e-6,
                     var=n)
    ck.states(10)
    ck.transitions(10)
    ck.traces(len(doc))


def reject_case(case, ck):
    x, y = pixel(0, 0)
    w, h = RES * SHAPE[1], RES * SHAPE[0]
    base = {"add_default_variables": False}
    bad = [
        ({**base, "points": [{"x": X0 - 1, "y": y}]}, "left of the grid"),
        ({**base, "points": [{"x": X0 + w + 1, "y": y}]}, "right of the grid"),
        ({**base, "points": [{"x": x, "y": Y0 - 1}]}, "below the grid"),
        ({**base, "points": [{"x": x, "y": Y0 + h + 1}]}, "above the grid"),
        ({**base, "points": [{"x": x, "y": y, "name": "a"}, {"x": x, "y": y, "name": "a"}]},
         "duplicate point name"),
        ({**base, "points": [{"x": x, "y": y, "name": n} for n in "aba"]}, "duplicate point name"),
        ({**base, "points": [{"x": x, "y": y, "name": n} for n in "abcb"]}, "duplicate point name"),
        ({**base, "points": [{"x": x, "y": y, "name": "point2"}, {"x": x, "y": y}]},
         "duplicate point name (generated)"),
        ({**base, "points": [{"x": x}]}, "missing coordinate"),
        ({**base, "variables": [{"var": "meteo.temp"}, {"var": "meteo.temp"}]}, "duplicate output"),
        ({**base, "variables": [{"var": "snow.temp"}, {"var": "soil.temp"}]}, "duplicate output"),
        ({"variables": [{"var": "meteo.temp"}]}, "duplicate of a default output"),
        ({**base, "variables": [{"var": "meteo.nonexistent"}]}, "invalid variable"),
        ({**base, "variables": [{"var": "nonexistent.temp"}]}, "invalid category"),
        ({**base, "format": "xls"}, "invalid format"),
    ]
    for over, what in bad:
        try:
            model(ck, over, "2020-01-01 00:00", 3, "3h")
        except Exception:
            ck.c["assertions"] += 1
            ck.outcome(("rejected", what))
        else:
            ck.fail("invalid time series output specification accepted", what_=what)
    ck.states(len(bad))
    ck.transitions(len(bad))
    ck.traces(len(bad))


def run_case(case, ck):
    k = case["kind"]
    (run_case_ if k == "run" else globals()[k + "_case"])(case, ck)
