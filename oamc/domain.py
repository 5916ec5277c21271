"""Synthetic model domains in scratch directories, and configuration builders.

Everything is driven through the public API of openAMUNDSEN: a configuration dictionary,
raster/meteo files in a scratch directory, ``OpenAmundsen(...).initialize()/run()/run_single()``,
the public state containers, and the produced outputs.
"""

import copy
import shutil
import tempfile
from pathlib import Path

import numpy as np

CRS = "epsg:32632"
RES = 50
X0 = 500000.0  # lower left corner
Y0 = 5200000.0
DOMAIN = "dom"


class Scratch:
    """A scratch directory which is removed at the end of the check."""

    def __init__(self):
        self.path = Path(tempfile.mkdtemp(prefix="oamc_"))
        self.n = 0

    def sub(self, name="d"):
        self.n += 1
        p = self.path / f"{name}{self.n}"
        p.mkdir()
        return p

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


def write_asc(path, arr, res=RES, x0=X0, y0=Y0, nodata=-9999.0):
    """Minimal independent ESRI ASCII grid writer."""
    arr = np.asarray(arr)
    rows, cols = arr.shape
    with open(path, "w") as f:
        f.write(f"ncols {cols}\nnrows {rows}\nxllcorner {x0!r}\nyllcorner {y0!r}\n")
        f.write(f"cellsize {float(res)!r}\nNODATA_value {nodata!r}\n")
        for r in range(rows):
            f.write(
                " ".join(
                    repr(float(v)) if np.isfinite(v) else repr(nodata) for v in arr[r]
                )
                + "\n"
            )


def make_grids(d, dem, res=RES, svf=True, x0=X0, y0=Y0, domain=DOMAIN, **rasters):
    d = Path(d)
    d.mkdir(exist_ok=True, parents=True)
    dem = np.asarray(dem, dtype=float)
    write_asc(d / f"dem_{domain}_{res}.asc", dem, res, x0, y0)
    if svf is True:
        svf = np.ones(dem.shape)
    if svf is not None and svf is not False:
        write_asc(d / f"svf_{domain}_{res}.asc", svf, res, x0, y0)
    for name, arr in rasters.items():
        if arr is not None:
            write_asc(d / f"{name.replace('_', '-')}_{domain}_{res}.asc", arr, res, x0, y0)
    return d


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = copy.deepcopy(v)
    return a


def base_config(grids_dir, results_dir, start, end, timestep="3h", **over):
    cfg = {
        "domain": DOMAIN,
        "start_date": start,
        "end_date": end,
        "resolution": RES,
        "timestep": timestep,
        "crs": CRS,
        "timezone": 1,
        "results_dir": str(results_dir),
        "log_level": "ERROR",
        "enable_default_logging": False,
        "input_data": {
            "grids": {"dir": str(grids_dir)},
            "meteo": {"format": "callback"},
        },
        "output_data": {
            "timeseries": {"format": "memory", "add_default_points": False},
            "grids": {"format": "memory"},
        },
    }
    return merge(cfg, over)
