"""C22: the multilayer snowpack and its soil column evolve exactly as the documented model."""

import numpy as np

from .. import refsurf, snowcase as sc

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; 11 letter weather alphabet",
    "precipitation phase, derived humidity variables and incoming radiation are taken from the "
    "model state (decided by C13, C18 and C23)",
    "steps with missing forcing are excluded here (see C19)",
]

CONFIGS = {
    **sc.MULTILAYER_CONFIGS,
    "frac": {"snow": {"model": "multilayer", "min_thickness": [0.05, 0.15, 0.3],
                      "snow_cover_fraction_depth_scale": 0.2, "thermal_conductivity": 0.5,
                      "roughness_length": 0.002, "measurement_height_adjustment": True,
                      "albedo": {"min": 0.5, "max": 0.9}},
             "meteo": {"stability_correction": True, "stability_adjustment_parameter": 3.0,
                       "measurement_height": {"temperature": 1.5, "wind": 4.0},
                       "radiation": {"snow_emissivity": 0.95}},
             "soil": {"roughness_length": 0.05, "albedo": 0.3, "sand_fraction": 0.3,
                      "clay_fraction": 0.5, "init_moisture_content": 0.9,
                      "saturated_soil_surface_conductance": 0.02, "init_temp": 274.0,
                      "thickness": [0.15, 0.3]}},
    "frozen": {"snow": {"model": "multilayer",
                        "liquid_water_content": {"method": "pore_volume_fraction", "max": 0.08},
                        "compaction": {"method": "empirical", "max_cold_density": 250,
                                       "max_melting_density": 400, "timescale": 50}},
               "soil": {"init_temp": 268.0, "thickness": [0.3], "init_moisture_content": 0.3}},
    "dry": {"snow": {"model": "multilayer", "min_thickness": [0.2, 0.2]},
            "soil": {"init_temp": 280.0, "thickness": [0.1, 0.1, 0.5],
                     "init_moisture_content": 0.0}},
}


def cases(tier):
    q = tier == "quick"
    out = []
    for name, cfg in CONFIGS.items():
        for ts in ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.ALL,
                        "length": 3 if q else 5})
            for pre in ("SSSSCC", "SSRRHs", "sMsFsW", "SSSSHR"):
                out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                            "length": 3 if q else 5, "prefixes": [pre]})
        out.append({"name": name, "config": cfg, "timestep": "3h", "alphabet": "SCRH",
                    "length": 6 if q else 8})
    return out


def complete(a):
    ok = np.ones(a.met_temp.shape, bool)
    for v in ("temp", "rel_hum", "wind_speed", "precip", "snowfall", "rainfall", "sw_in", "lw_in"):
        ok &= np.isfinite(a["met_" + v])
    return ok


MET = ("temp", "wind_speed", "spec_hum", "snowfall", "rainfall", "wet_bulb_temp", "sw_in", "lw_in",
       "dry_air_density", "atmos_press")

ENERGY = {
    "surf_temp": "surface temperature", "surf_sens_heat_flux": "sensible heat flux",
    "surf_moisture_flux": "moisture flux", "surf_lat_heat": "latent heat",
    "surf_lat_heat_flux": "latent heat flux", "surf_heat_flux": "surface heat flux",
    "surf_advective_heat_flux": "advective heat flux", "met_net_radiation": "net radiation",
    "surf_moisture_availability": "moisture availability", "surf_albedo": "surface albedo",
    "surf_roughness_length": "roughness length",
    "surf_turbulent_exchange_coeff": "turbulent exchange coefficient",
    "surf_conductance": "surface conductance", "surf_thickness": "surface layer thickness",
    "surf_layer_temp": "surface layer temperature",
    "surf_therm_cond": "surface thermal conductivity",
    "melt": "melt", "refreezing": "refreezing", "sublimation": "sublimation",
    "temp": "snow temperature", "soil_temp": "soil temperature",
    "soil_heat_flux": "soil heat flux", "soil_heat_cap": "soil heat capacity",
    "soil_therm_cond": "soil thermal conductivity",
}
LAYERS = {
    "ice_content": "ice content", "liquid_water_content": "liquid water content",
    "thickness": "layer thickness", "density": "layer density", "depth": "snow depth",
    "swe": "snow water equivalent", "num_layers": "number of layers", "runoff": "runoff",
    "melt": "melt", "refreezing": "refreezing", "sublimation": "sublimation",
    "temp": "snow temperature",
}


def compare(ref, mon, ck, b, a, names):
    ok = complete(a)
    with np.errstate(all="ignore"):
        exp = ref.step(b, {k: a["met_" + k] for k in MET})
    # layers about as thin as the numerical cut-off of 1 micrometre may go either way
    thin = (exp["depth"] < 1e-5) & (a.depth < 1e-5)
    # decisions within rounding distance of a threshold may go either way
    edge = np.abs(exp["surf_temp"] - sc.T0) < 1e-9
    edge &= ~exp["partial"]
    sel = ok & ~thin & ~edge
    ck.count("steps_compared", sel.sum())
    for k, label in names.items():
        e, g = exp[k], a[k]
        good = np.isclose(g, e, rtol=1e-6, atol=1e-6, equal_nan=True)
        mon(good | ~sel, f"{label} differs from the reference model", got=g, expected=e,
            surf_temp=a.surf_temp, depth=a.depth)
    ck.outcome((tuple(np.unique(exp["num_layers"]).tolist()), bool(exp["partial"].any()),
                bool(exp["total"].any()), bool((exp["refreezing"] > 0).any()),
                bool((exp["sublimation"] < 0).any())))
    return exp


def run_case(case, ck):
    ref = None
    for t, run, b, a in sc.explore(case, ck):
        if ref is None:
            ref = refsurf.Fsm(case["config"], run.m.timestep)
        compare(ref, sc.Monitor(ck, run, t), ck, b, a, {**ENERGY, **LAYERS})
