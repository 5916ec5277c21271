"""Pairs of models in one process, compared to each of them alone in a fresh process (see C12).

python -m oamc.peers CONFIG DIMENSION STEPS SCRATCH: prints one JSON object with the differences.
The parent only imports the package; every sequence of operations runs in a forked child."""

import copy
import itertools
import json
import os
import pickle
import sys
import warnings
from pathlib import Path

TS = "3h"
BASE = {
    "start": "2020-04-30 21:00", "ts": TS, "x0": 0.0, "y0": 0.0, "crs": "epsg:32632", "tz": 1, "res": 50,
    "dem": [[1500.0, 1560.0, 1640.0], [1450.0, 1530.0, 1700.0]],
    "roi": [[1, 1, 0], [1, 0, 1]],
    "svf": [[0.9, 0.8, 0.95], [1.0, 0.85, 0.7]],
    "lc": [[1, 4, 6], [7, 5, 8]], "soil": [[1, 3, 5], [7, 2, 9]], "glaciers": [[1, 0, 2], [0, 1, 1]],
    "srf": [[0.8, 1.1, 1.2], [0.9, 1.0, 1.3]],
    "pts": [[25.0, 25.0, 1480.0], [-2000.0, 900.0, 2100.0], [700.0, -3000.0, 900.0]],
    "ids": ["s0", "s1", "s2"], "scale": 0.0, "nan": None, "seed_offset": 0, "over": {},
}
CONF = {
    "sn_albedo": {"snow": {"albedo": {"max": 0.8, "min": 0.4, "cold_snow_decay_timescale": 100,
                                      "melting_snow_decay_timescale": 50}}},
    "sn_age": {"snow": {"albedo": {"method": "snow_age", "refresh_method": "binary"}}},
    "interp": {"meteo": {"interpolation": {
        "temperature": {"trend_method": "fixed", "lapse_rate": [-0.004] * 12},
        "precipitation": {"trend_method": "regression"}, "humidity": {"trend_method": "regression"},
        "wind": {"trend_method": "regression"}}}},
    "phase": {"meteo": {"precipitation_phase": {"method": "temp", "threshold_temp": 270.15}}},
    "corr": {"meteo": {"precipitation_correction": [{"method": "wmo", "gauge": "hellmann"}]}},
    "cloud": {"meteo": {"interpolation": {"cloudiness": {"method": "clear_sky_fraction",
                                                         "clear_sky_fraction_night_method": "constant"}}}},
    "snow_only": {"canopy": {"enabled": False}, "evapotranspiration": {"enabled": False},
                  "glaciers": {"enabled": False}},
}
DIMS = {
    "same": {}, "dem": {"dem": [[1800.0, 1750.0, 1640.0], [1450.0, 1490.0, 1705.0]]},
    "roi": {"roi": [[0, 1, 1], [0, 1, 1]]}, "roi_size": {"roi": [[0, 1, 1], [1, 1, 1]]},
    "svf": {"svf": [[0.5] * 3, [0.6] * 3]}, "lc": {"lc": [[4, 6, 1], [5, 8, 7]]},
    "lc_same_classes": {"lc": [[4, 1, 6], [5, 7, 8]]},
    "soil": {"soil": [[2, 4, 6], [8, 1, 3]]}, "glaciers": {"glaciers": [[0, 1, 1], [2, 0, 2]]},
    "east": {"x0": 30000.0}, "north": {"y0": 250000.0}, "crs": {"crs": "epsg:32633"}, "timezone": {"tz": 3},
    "resolution": {"res": 100}, "year": {"start": "2021-04-30 21:00"}, "later": {"start": "2020-04-30 22:00"},
    "month": {"start": "2020-07-10 09:00"}, "timestep": {"ts": "1h"},
    "stations": {"pts": [[30.0, 80.0, 1600.0], [-900.0, 100.0, 1200.0], [2700.0, 3000.0, 2900.0]]},
    "altitudes": {"pts": [[25.0, 25.0, 1580.0], [-2000.0, 900.0, 1100.0], [700.0, -3000.0, 1900.0]]},
    "fewer": {"pts": [[25.0, 25.0, 1480.0], [-2000.0, 900.0, 2100.0]]},
    "names": {"ids": ["t2", "t1", "t0"]}, "values": {"scale": 1.0}, "missing": {"nan": 1},
    "missing_all": {"nan": 2},
    **{f"conf_{k}": {"over": v} for k, v in CONF.items()},
}


def spec(name, dim):
    from . import configs

    out = {}
    for k in "ab":
        s = copy.deepcopy(BASE)
        if k == "b":
            s.update(copy.deepcopy(DIMS[dim]))
        s["config"] = copy.deepcopy(configs.ALL[name])
        out[k] = s
    return out


def prepare(s, d, steps):
    """Input grids, configuration and forcing (for one step more than run) of one model."""
    steps += 1
    import numpy as np
    import pandas as pd

    from . import domain
    import openamundsen as oa
    import pyproj

    d.mkdir(parents=True)
    x0, y0 = domain.X0 + s["x0"], domain.Y0 + s["y0"]
    r = {k: np.array(s[k]) for k in ("roi", "lc", "soil", "glaciers", "srf")}
    g = domain.make_grids(d / "g", np.array(s["dem"]), res=s["res"], svf=np.array(s["svf"]), x0=x0, y0=y0, **r)
    dates = pd.date_range(s["start"], periods=steps, freq=s["ts"])
    cfg = domain.base_config(
        g, d / "r", str(dates[0]), str(dates[-1]), s["ts"], crs=s["crs"], timezone=s["tz"],
        resolution=s["res"], input_data={"meteo": {"format": "memory"}},
        output_data={
            "timeseries": {"add_default_points": True, "variables": [{"var": "snow.albedo"}]},
            "grids": {"variables": [{"var": "snow.swe", "freq": "6h", "agg": "mean"},
                                    {"var": "meteo.precip", "freq": "D", "agg": "sum"},
                                    {"var": "meteo.temp"}]}})
    domain.merge(cfg, s["config"])
    domain.merge(cfg, s["over"])
    tr = pyproj.Transformer.from_crs(s["crs"], "epsg:4326", always_xy=True)
    dss = []
    i = np.arange(steps)
    for k, (x, y, alt) in enumerate(s["pts"]):
        lon, lat = tr.transform(x0 + x, y0 + y)
        df = pd.DataFrame({
            "temp": 274.0 - 2.5 * k + 1.3 * i + 2 * s["scale"], "precip": 1.0 + (k + i) % 3 + s["scale"],
            "rel_hum": 60.0 + 11 * k - 3 * i - 5 * s["scale"], "sw_in": 90.0 + 40 * i + 10 * k - 20 * s["scale"],
            "wind_speed": 2.0 + k - 0.5 * i + s["scale"]}, index=dates)
        if s["nan"] and k == 1:
            df.iloc[: 1 if s["nan"] == 1 else steps, :] = np.nan
        dss.append(oa.forcing.make_point_dataset(df, point_id=s["ids"][k], name=s["ids"][k], lon=lon, lat=lat,
                                                 alt=alt))
    return cfg, oa.forcing.combine_point_datasets(dss)


def execute(ops, inputs):
    """Run a sequence of operations ("a" = next operation of model a); final states and outputs."""
    from . import configs
    import openamundsen as oa

    models, hist = {}, {k: [] for k in set(ops)}
    for op in ops:
        if op not in models:
            cfg, ds = inputs[op]
            models[op] = oa.OpenAmundsen(cfg)
            models[op].initialize(meteo=ds)
        else:
            models[op].run_single()
        hist[op].append(configs.state_arrays(models[op]))
    for k, m in models.items():
        hist[k].append({"grid_X": m.grid.X, "roi": m.grid.roi.astype(float), "roi_xs": m.grid.roi_xs})
        for name, out in (("points", m.point_output.data), ("grids", m.gridded_output.data)):
            hist[k].append({f"{name} {v}": out[v].values for v in sorted(map(str, out.variables))})
        hist[k].append({"meteo " + str(v): m.meteo[v].values for v in m.meteo.data_vars})
    return hist


def child(ops, inputs, path):
    pid = os.fork()
    if pid == 0:
        try:
            try:
                r = execute(ops, inputs)
            except Exception as e:
                import traceback

                r = {"error": f"{type(e).__name__}: {e}", "traceback": traceback.format_exc()[-1500:],
                     "repo": any("/openamundsen/" in f.filename and "/oamc/" not in f.filename
                                 for f in traceback.extract_tb(e.__traceback__))}
            with open(path, "wb") as f:
                pickle.dump(r, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    with open(path, "rb") as f:
        return pickle.load(f)


def merges(n):
    for pos in itertools.combinations(range(2 * n), n):
        yield "".join("a" if i in pos else "b" for i in range(2 * n))


def main():
    name, dim, steps, scratch = sys.argv[1:5]
    steps = int(steps)
    import logging

    import numpy as np

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    d = Path(scratch)
    inputs = {k: prepare(s, d / k, steps) for k, s in spec(name, dim).items()}
    tmp = d / "result"
    n = steps + 1
    ref = {}
    for k in "ab":
        r = child(k * n, inputs, tmp)
        if "error" in r:
            print(json.dumps({"error": r, "ops": k * n}))
            return
        ref[k] = r[k]
    out = {"runs": 0, "differences": [], "compared": 0}
    for ops in merges(n):
        r = child(ops, inputs, tmp)
        if "error" in r:
            print(json.dumps({"error": r, "ops": ops}))
            return
        out["runs"] += 1
        for k in "ab":
            for i, (x, y) in enumerate(zip(ref[k], r[k], strict=True)):
                if x.keys() != y.keys():
                    out["differences"].append({"ops": ops, "model": k, "step": i, "var": "variables"})
                for v in x:
                    out["compared"] += 1
                    u, w = np.asarray(x[v]), np.asarray(y[v])
                    if not (u.shape == w.shape and np.array_equal(u, w, equal_nan=u.dtype.kind == "f")):
                        out["differences"].append({"ops": ops, "model": k, "step": i, "var": v})
        if out["differences"]:
            break
    out["distinct"] = [float(np.nansum(ref[k][i]["snow.swe"])) for k in "ab" for i in range(n)]
    print(json.dumps(out))


if __name__ == "__main__":
    main()
