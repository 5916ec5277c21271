"""Model configurations covering all submodules (used with weather words)."""

ALL = {
    "multi": {"snow": {"model": "multilayer"}},
    "multi_alt": {"snow": {"model": "multilayer", "min_thickness": [0.05, 0.05, 0.1, 0.2],
                           "albedo": {"method": "snow_age", "refresh_method": "binary"},
                           "liquid_water_content": {"method": "mass_fraction"},
                           "compaction": {"method": "empirical"}}},
    "cryo": {"snow": {"model": "cryolayers"}},
    "cryo_legacy": {"snow": {"model": "cryolayers", "cryolayers": {
        "surface_temperature_iteration_method": "legacy", "use_single_snow_albedo": False,
        "transition": {"old_snow": 130.0, "firn": 5, "ice": 400.0}}},
        "meteo": {"stability_correction": True}},
    "cryo_ti": {"snow": {"model": "cryolayers",
                         "melt": {"method": "temperature_index", "degree_day_factor": 6.0}}},
    "cryo_eti": {"snow": {"model": "cryolayers",
                          "melt": {"method": "enhanced_temperature_index",
                                   "degree_day_factor": 2.0, "albedo_factor": 0.05}}},
    "multi_veg": {"snow": {"model": "multilayer"}, "canopy": {"enabled": True},
                  "evapotranspiration": {"enabled": True}},
    "cryo_veg_gl": {"snow": {"model": "cryolayers"}, "canopy": {"enabled": True},
                    "evapotranspiration": {"enabled": True}, "glaciers": {"enabled": True}},
    "cryo_veg_ti": {"snow": {"model": "cryolayers",
                             "melt": {"method": "temperature_index", "degree_day_factor": 6.0}},
                    "canopy": {"enabled": True}},
}


def rasters(name, n):
    """Rasters required by a configuration: land cover 1..9, soil texture 1..9, glacier IDs."""
    import numpy as np

    i = np.arange(n)
    out = {}
    cfg = ALL[name]
    if cfg.get("canopy") or cfg.get("evapotranspiration"):
        out["lc"] = 1 + i % 9
    if cfg.get("evapotranspiration"):
        out["soil"] = 1 + (i // 9) % 9
    if cfg.get("glaciers"):
        out["glaciers"] = (i % 5 < 2).astype(int) * (1 + i % 2)
    return out


def state_arrays(m):
    """All state variables (name -> copy)."""
    import numpy as np

    out = {}
    for cat in m.state.categories:
        for v, x in m.state[cat].items():
            if isinstance(x, np.ndarray):
                out[f"{cat}.{v}"] = np.array(x, copy=True)
    return out


def same(a, b):
    import numpy as np

    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
