"""Small helpers for the demonstrations (copied next to each demo)."""
import logging
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
import openamundsen as oa

TMP = tempfile.mkdtemp(prefix="demo_")
_n = [0]


def sub():
    _n[0] += 1
    d = f"{TMP}/d{_n[0]}"
    os.makedirs(d)
    return d


def asc(path, a, res=50):
    a = np.asarray(a, dtype=float)
    with open(path, "w") as f:
        f.write(f"ncols {a.shape[1]}\nnrows {a.shape[0]}\nxllcorner 500000\nyllcorner 5200000\n"
                f"cellsize {res}\nNODATA_value -9999\n")
        for r in a:
            f.write(" ".join(repr(float(v)) if np.isfinite(v) else "-9999" for v in r) + "\n")


def config(dem=None, start="2020-04-15", end=None, steps=1, timestep="3h", svf=True, rasters={}, **over):
    d = sub()
    dem = np.full((1, 1), 1500.0) if dem is None else np.asarray(dem, float)
    asc(f"{d}/dem_dom_50.asc", dem)
    if svf:
        asc(f"{d}/svf_dom_50.asc", np.ones(dem.shape))
    for k, v in rasters.items():
        asc(f"{d}/{k}_dom_50.asc", v)
    if end is None:
        end = str(pd.Timestamp(start) + (steps - 1) * pd.Timedelta(timestep))
    c = {
        "domain": "dom", "start_date": start, "end_date": end, "resolution": 50,
        "timestep": timestep, "crs": "epsg:32632", "timezone": 1, "results_dir": sub(),
        "enable_default_logging": False,
        "input_data": {"grids": {"dir": d}, "meteo": {"format": "callback"}},
        "output_data": {"timeseries": {"format": "memory", "add_default_points": False},
                        "grids": {"format": "memory"}},
    }

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                merge(a[k], v)
            else:
                a[k] = v
        return a
    return merge(c, over)


def dataset(dates, **v):
    import xarray as xr
    n = len(dates)
    base = dict(temp=270.0, precip=0.0, rel_hum=80.0, wind_speed=2.0, sw_in=100.0)
    base.update(v)
    x, y = base.pop("x", 500025.0), base.pop("y", 5200025.0)
    ds = xr.Dataset({k: ("time", np.broadcast_to(np.asarray(a, float), (n,)).copy())
                     for k, a in base.items()}, coords={"time": dates})
    return ds


def forced(cfg, forcing):
    """Run with a meteo callback; forcing: list of dicts, one per time step. Yields the model."""
    def cb(m):
        for k, v in forcing[m.date_idx].items():
            m.state.meteo[k][m.grid.roi] = v
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo_callback=cb)
    yield m
    for _ in forcing:
        m.run_single()
        yield m


W = {
    "S": dict(temp=267.0, rel_hum=95.0, wind_speed=3.0, precip=45.0, cloud_fraction=1.0, cloud_factor=0.3),
    "C": dict(temp=258.0, rel_hum=60.0, wind_speed=2.0, precip=0.0, cloud_fraction=0.0, cloud_factor=1.0),
    "R": dict(temp=280.0, rel_hum=95.0, wind_speed=5.0, precip=15.0, cloud_fraction=1.0, cloud_factor=0.3),
    "H": dict(temp=295.0, rel_hum=25.0, wind_speed=8.0, precip=0.0, cloud_fraction=0.0, cloud_factor=1.0),
    "W": dict(temp=262.0, rel_hum=10.0, wind_speed=18.0, precip=0.0, cloud_fraction=0.2, cloud_factor=0.9),
    "s": dict(temp=271.0, rel_hum=95.0, wind_speed=1.0, precip=0.3, cloud_fraction=0.8, cloud_factor=0.5),
    "N": dict(temp=np.nan, rel_hum=np.nan, wind_speed=np.nan, precip=np.nan, cloud_fraction=np.nan, cloud_factor=np.nan),
}


def finish(ok, msg=""):
    shutil.rmtree(TMP, ignore_errors=True)
    print("OK" if ok else "FAILED", msg)
    sys.exit(0 if ok else 1)
