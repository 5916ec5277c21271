"""C25: the energy balance of the cryospheric layers equals the documented model."""

import numpy as np

from .. import refsurf, snowcase as sc
from .c22 import MET, complete

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; 11 letter weather alphabet",
    "precipitation phase, derived humidity variables and incoming radiation are taken from the "
    "model state (decided by C13, C18 and C23)",
    "steps with missing forcing are excluded here (see C19)",
]

LOW = {"old_snow": 130.0, "firn": 5, "ice": 400.0}
CONFIGS = {
    "eb_secant": sc.CRYO_CONFIGS["eb_secant"],
    "eb_legacy": sc.CRYO_CONFIGS["eb_legacy"],
    "transitions": sc.CRYO_CONFIGS["transitions"],
    "cold": {"snow": {"model": "cryolayers", "snow_cover_fraction_depth_scale": 0.15,
                      "measurement_height_adjustment": True, "roughness_length": 0.003,
                      "albedo": {"min": 0.5, "max": 0.9, "firn": 0.35, "ice": 0.15},
                      "cryolayers": {"transition": LOW, "cold_holding_capacity": 0.01,
                                     "refreezing_factor": 0.4, "surface_heat_flux": -10.0,
                                     "use_single_snow_albedo": False}},
             "soil": {"albedo": 0.25, "roughness_length": 0.03},
             "meteo": {"stability_correction": True, "stability_adjustment_parameter": 3.0,
                       "measurement_height": {"temperature": 3.0, "wind": 4.0},
                       "radiation": {"snow_emissivity": 0.95}}},
    "legacy_cold": {"snow": {"model": "cryolayers",
                             "cryolayers": {"surface_temperature_iteration_method": "legacy",
                                            "transition": {**LOW, "ice": 150.0},
                                            "cold_holding_capacity": 0.3,
                                            "surface_heat_flux": 4.0}}},
}


def cases(tier):
    q = tier == "quick"
    out = []
    for name, cfg in CONFIGS.items():
        for ts in ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.ALL,
                        "length": 3 if q else 5})
            for pre in ("SSSSCC", "SSRRHs", "sMsFsW", "SsHHSR", "sssWWs"):
                out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                            "length": 3 if q else 5, "prefixes": [pre]})
        # every combination of thin and thick layers
        for ts in ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                        "length": 1 if q else 2, "init": "cryo"})
        for start in ("2020-04-28 00:00", "2020-05-01 00:00"):
            out.append({"name": name, "config": cfg, "timestep": "1D", "alphabet": "SCRH",
                        "length": 6 if q else 8, "start": start})
    return out


FLUX = {"melt": "melt", "refreezing": "refreezing", "surf_temp": "surface temperature",
        "met_net_radiation": "net radiation", "surf_sens_heat_flux": "sensible heat flux",
        "surf_moisture_flux": "moisture flux", "surf_lat_heat": "latent heat",
        "surf_lat_heat_flux": "latent heat flux",
        "surf_advective_heat_flux": "advective heat flux", "surf_albedo": "surface albedo",
        "surf_turbulent_exchange_coeff": "turbulent exchange coefficient",
        "sublimation": "sublimation", "runoff": "runoff"}
STATE = {"ice_content": "ice content", "liquid_water_content": "liquid water content",
         "thickness": "layer thickness", "cold_content": "cold content"}


def compare(ref, mon, ck, run, t, b, a, names):
    m = run.m
    ok = complete(a)
    ref.load(b)
    prev = m.dates[t - 1].month if t > 0 else None
    with np.errstate(all="ignore"):
        exp = ref.step({k: a["met_" + k] for k in MET}, b.surf_temp, a.surf_temp,
                       m.dates[t].month, prev)
    ck.count("steps_compared", (ok & exp["snow"]).sum())
    # frozen surface: the iterated temperature closes the energy balance
    froz = ok & exp["cold"]
    root = exp["root"]
    if ref.p.iter == "secant":
        mon(~froz | (np.abs(a.surf_temp - root) <= 0.02),
            "iterated surface temperature does not close the energy balance", got=a.surf_temp,
            expected=root)
    else:
        # first of the temperatures T0, T0 - 0.25 K, ... with a non-negative balance, not lower
        # than about 3 K below the air temperature
        k = np.ceil(np.round((sc.T0 - root) / 0.25, 6))
        low = a.met_temp - 3.0
        kmax = np.floor((sc.T0 - low) / 0.25 + 1e-6)
        e = sc.T0 - 0.25 * np.minimum(k, kmax)
        near = np.abs((sc.T0 - root) / 0.25 - np.round((sc.T0 - root) / 0.25)) < 1e-4
        mon(~froz | near | (np.abs(a.surf_temp - e) <= 1e-6),
            "iterated surface temperature is not the first one with a non-negative balance",
            got=a.surf_temp, expected=e, root=root, air=a.met_temp)
    tiny = (a.ice_content + a.liquid_water_content + exp["ice_content"]
            + exp["liquid_water_content"]) < 1e-6
    # complete melt: whether a rounding residue of ice is left decides about deposition
    edge = exp["left"] < 1e-9
    for k, label in names.items():
        g, e = a[k], exp[k]
        sel = ok & (exp["snow"] if k != "surf_albedo" else True)
        good = np.isclose(g, e, rtol=1e-6, atol=1e-6, equal_nan=True)
        if k in STATE:
            good = good | tiny | edge | ((k == "cold_content") & exp["amb"])
        elif k in ("sublimation", "runoff"):
            good = good | edge
        mon(good | ~sel, f"{label} differs from the reference model", got=g, expected=e,
            surf_temp=a.surf_temp, air=a.met_temp)
    ck.outcome((bool(exp["melt"].any()), bool(exp["refreezing"].any()),
                bool((exp["sublimation"] < 0).any()),
                tuple((exp["thickness"] > 0).any(axis=1).tolist())))
    return exp


def run_case(case, ck):
    ref = None
    for t, run, b, a in sc.explore(case, ck):
        if ref is None:
            ref = refsurf.CryoEB(case["config"], run.m.timestep, run.n)
        compare(ref, sc.Monitor(ck, run, t), ck, run, t, b, a, {**FLUX, **STATE})
