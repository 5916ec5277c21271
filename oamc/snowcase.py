"""Shared exploration of the snow models: all weather words over an alphabet, per configuration.

``explore`` runs the real model with one pixel per word and yields, after every time step, the
state before and after the step as plain arrays (last axis: word).
"""

import itertools

import numpy as np

from . import refsnow, words

T0 = 273.15
SNOW3D = ("ice_content", "liquid_water_content", "thickness", "density", "temp")
SNOW2D = (
    "swe",
    "depth",
    "area_fraction",
    "num_layers",
    "albedo",
    "melt",
    "refreezing",
    "sublimation",
    "runoff",
)
SURF = ("temp", "albedo", "heat_flux", "sens_heat_flux", "lat_heat_flux", "moisture_flux",
        "advective_heat_flux", "lat_heat", "roughness_length", "turbulent_exchange_coeff",
        "conductance", "moisture_availability", "thickness", "layer_temp", "therm_cond")
METEO = ("temp", "rel_hum", "wind_speed", "precip", "snowfall", "rainfall", "sw_in", "lw_in",
         "sw_out", "lw_out", "net_radiation", "wet_bulb_temp", "spec_hum", "atmos_press",
         "dry_air_density")


class Snap(dict):
    __getattr__ = dict.__getitem__


def snap(run):
    m = run.m
    out = Snap()
    for v in SNOW3D + SNOW2D:
        out[v] = run.get("snow", v)
    for v in ("layer_albedo", "cold_content", "heat_cap"):
        if v in m.state.snow:
            out[v] = run.get("snow", v)
    for v in SURF:
        if v in m.state.surface:
            out["surf_" + v] = run.get("surface", v)
    for v in METEO:
        out["met_" + v] = run.get("meteo", v)
    if "soil" in m.state.categories:
        for v in ("temp", "heat_cap", "thickness", "heat_flux", "therm_cond"):
            if v in m.state.soil:
                out["soil_" + v] = run.get("soil", v)
    return out


#            new    old    firn   ice
CRYO_RHO = (95.0, 320.0, 610.0, None)
CRYO_MASS = (0.0, 0.6, 45.0)


def cryo_states():
    """All combinations of absent/thin/thick layers, each dry, cold, wet and at the transition
    densities (which is a different state only for new snow and firn)."""
    out = []
    for masses in itertools.product(CRYO_MASS, repeat=4):
        for kind in ("dry", "cold", "wet", "dense"):
            if any(masses) or kind == "dry":
                out.append((masses, kind))
    return out


def set_cryo_states(run, states):
    """Put the pixels of run into the given (glacier) states via the state variables."""
    m = run.m
    c = m.config.snow
    sn = m.state.snow
    mass = np.array([s[0] for s in states]).T
    kind = np.array([s[1] for s in states])
    tr = c.cryolayers.transition
    rho = np.array([[r if r is not None else tr.ice] for r in CRYO_RHO]) * np.ones(mass.shape)
    rho[0] = np.where(kind == "dense", tr.old_snow - 0.01, np.minimum(rho[0], tr.old_snow - 5))
    rho[2] = np.where(kind == "dense", tr.ice - 0.001, np.minimum(rho[2], tr.ice - 10))
    alb = np.array([[c.albedo.max - 0.03], [c.albedo.min + 0.05], [c.albedo.firn],
                    [c.albedo.ice]]) * np.ones(mass.shape)
    empty = mass == 0
    roi = m.grid.roi
    sn.density[:, roi] = np.where(empty, np.nan, rho)
    sn.layer_albedo[:, roi] = np.where(empty, np.nan, alb)
    sn.ice_content[:, roi] = mass
    sn.thickness[:, roi] = np.where(empty, 0.0, mass / rho)
    cc = np.where(kind == "cold", 0.6 * c.cryolayers.cold_holding_capacity, 0.0) * mass
    cc[2:] = 0
    sn.cold_content[:, roi] = cc
    lwc = np.where(kind == "wet", 
                   0.7 * refsnow.capacity(refsnow.Params(c), mass, sn.thickness[:, roi]), 0.0)
    lwc[2:] = 0
    sn.liquid_water_content[:, roi] = lwc
    sn.density[:, roi] = np.where(empty, np.nan, (mass + lwc) / np.where(empty, 1, sn.thickness[:, roi]))
    sn.swe[roi] = (mass + lwc).sum(axis=0)
    sn.depth[roi] = sn.thickness[:, roi].sum(axis=0)
    getattr(m.snow, "update_properties", lambda: None)()


def explore(case, ck, letters=None, rasters=None):
    """Generator of (t, run, before, after)."""
    wl = words.words(case["alphabet"], case["length"], case.get("prefixes", [""]))
    states = cryo_states() if case.get("init") == "cryo" else None
    if states:
        inits = [s for s in states for _ in wl]
        wl = wl * len(states)
    run = words.WordRun(
        ck,
        wl,
        case.get("start", "2020-04-15 06:00"),
        case["timestep"],
        case["config"],
        letters=letters,
        rasters=rasters,
        elev=case.get("elev", 1500.0),
    )
    run.inits = None
    if states:
        set_cryo_states(run, inits)
        run.inits = inits
    ns, nt = words.prefix_nodes(wl)
    if states:
        ns, nt = ns * len(states), nt * len(states)
    ck.states(ns)
    ck.transitions(nt)
    ck.traces(len(wl))
    ck.sample({"config": case["config"], "first_word": wl[0], "last_word": wl[-1], "words": len(wl)})
    before = snap(run)
    for t in run.steps():
        run.m.run_single()
        after = snap(run)
        yield t, run, before, after
        before = after


def word_at(run, idx, t):
    return run.words[idx][: t + 1]


class Monitor:
    """Reports failing words instead of array indices."""

    def __init__(self, ck, run, t):
        self.ck, self.run, self.t = ck, run, t

    def __call__(self, ok, what, **arrays):
        ok = np.asarray(ok)
        self.ck.c["assertions"] += ok.size
        if ok.all():
            return
        idx = np.argwhere(~ok)
        first = tuple(int(i) for i in idx[0])
        info = {"word": word_at(self.run, first[-1], self.t), "step": self.t, "n_failing": len(idx)}
        if getattr(self.run, "inits", None):
            info["initial_state"] = self.run.inits[first[-1]]
        for k, a in arrays.items():
            a = np.asarray(a)
            try:
                info[k] = a[first] if a.shape == ok.shape else a[..., first[-1]]
            except Exception:
                info[k] = repr(a)[:100]
        self.ck.fail(what, **info)


ALL = "CSsMRHWFNPT"
CORE = "CSsMRHWF"

MULTILAYER_CONFIGS = {
    "default": {"snow": {"model": "multilayer"}},
    "massfrac_emp": {
        "snow": {
            "model": "multilayer",
            "liquid_water_content": {"method": "mass_fraction", "max": 0.1},
            "compaction": {"method": "empirical"},
            "albedo": {"refresh_method": "continuous",
                       "decay_timescale_determination_temperature": "air"},
        }
    },
    "thin5": {"snow": {"model": "multilayer", "min_thickness": [0.02, 0.05, 0.1, 0.2, 0.4]}},
    "single": {"snow": {"model": "multilayer", "min_thickness": [0.1],
                        "snow_cover_fraction_depth_scale": 0.03}},
    "two_stab": {"snow": {"model": "multilayer", "min_thickness": [0.3, 0.1],
                          "measurement_height_adjustment": True},
                 "meteo": {"stability_correction": True,
                           "precipitation_phase": {"method": "temp"}}},
}

CRYO_CONFIGS = {
    "eb_secant": {"snow": {"model": "cryolayers"}},
    "eb_legacy": {"snow": {"model": "cryolayers",
                           "liquid_water_content": {"method": "mass_fraction", "max": 0.1},
                           "cryolayers": {"surface_temperature_iteration_method": "legacy",
                                          "use_single_snow_albedo": True}}},
    "ti": {"snow": {"model": "cryolayers",
                    "melt": {"method": "temperature_index", "degree_day_factor": 6.0}}},
    "eti": {"snow": {"model": "cryolayers",
                     "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 4.0,
                              "albedo_factor": 0.1}}},
    "transitions": {"snow": {"model": "cryolayers",
                             "cryolayers": {"transition": {"old_snow": 130.0, "firn": 5,
                                                           "ice": 400.0}}}},
}


def word_cases(configs, tier, timesteps=("3h", "1D", "1h"), extra=()):
    """The bounded weather-history space: every config x timestep with all words."""
    out = []
    for name, cfg in configs.items():
        for ts in timesteps:
            # from the snow-free initial state, complete alphabet including data gaps
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": ALL,
                        "length": 4 if tier == "quick" else 5})
            # from deep cold, ripe and thin snowpacks
            for pre in ("SSSSCC", "SSRRHs", "sMsFsW"):
                out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": CORE,
                            "length": 4 if tier == "quick" else 5, "prefixes": [pre]})
            # from every combination of thin and thick glacier layers
            if cfg["snow"]["model"] == "cryolayers":
                out.append({"name": name, "config": cfg, "timestep": ts,
                            "alphabet": CORE + "NPT", "length": 1 if tier == "quick" else 2,
                            "init": "cryo"})
    # long runs over a small alphabet (accumulate, refreeze, melt, wait)
    for name, cfg in configs.items():
        out.append({"name": name, "config": cfg, "timestep": "3h", "alphabet": "SCRH",
                    "length": 7 if tier == "quick" else 8})
        out.append({"name": name, "config": cfg, "timestep": "1D", "alphabet": "SCRH",
                    "length": 7 if tier == "quick" else 8, "start": "2020-04-28 00:00"})
    out.extend(extra)
    return out
