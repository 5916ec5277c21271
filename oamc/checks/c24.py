"""C24: temperature index melt of the cryospheric layers equals the documented model."""

import itertools

import numpy as np

from .. import refsnow, snowcase as sc

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; 11 letter weather alphabet",
    "snowfall, rainfall, wet-bulb temperature and incoming shortwave radiation are taken from the "
    "model state (they are decided by C15 and C18)",
]

TI = {"method": "temperature_index", "degree_day_factor": 6.0}
ETI = {"method": "enhanced_temperature_index", "degree_day_factor": 4.0, "albedo_factor": 0.1}
LOW = {"transition": {"old_snow": 130.0, "firn": 5, "ice": 400.0}}


def snow_configs():
    out = {
        "ti": {"melt": TI},
        "eti": {"melt": ETI},
        "ti_thr": {"melt": {**TI, "threshold_temp": 271.5}, "cryolayers": LOW},
        "ti_thr_warm": {"melt": {**TI, "threshold_temp": 276.0, "degree_day_factor": 9.5},
                        "cryolayers": {**LOW, "use_single_snow_albedo": False}},
        "eti_trans": {"melt": {**ETI, "threshold_temp": 272.0, "albedo_factor": 0.35},
                      "cryolayers": {**LOW, "use_single_snow_albedo": False},
                      "albedo": {"refresh_method": "continuous",
                                 "decay_timescale_determination_temperature": "air",
                                 "min": 0.45, "max": 0.9, "cold_snow_decay_timescale": 90.0,
                                 "melting_snow_decay_timescale": 30.0, "refresh_snowfall": 2.5,
                                 "firn": 0.35, "ice": 0.15}},
        "eti_scf": {"melt": ETI, "snow_cover_fraction_depth_scale": 0.2,
                    "liquid_water_content": {"method": "mass_fraction", "max": 0.1},
                    "albedo": {"method": "usaco", "k_pos": 0.6, "k_neg": 0.2,
                               "significant_snowfall": 1.0}},
        "eti_fsm": {"melt": ETI, "albedo": {"method": "fsm", "refresh_snowfall": 4.0},
                    "cryolayers": {**LOW, "transition": {"old_snow": 100.0, "firn": 4,
                                                         "ice": 910.0}}},
        "ti_lowice": {"melt": TI, "cryolayers": {"transition": {"old_snow": 110.0, "firn": 5,
                                                               "ice": 150.0}}},
    }
    return {k: {"model": "cryolayers", **v} for k, v in out.items()}


def cases(tier):
    out = []
    q = tier == "quick"
    for name, snow in snow_configs().items():
        cfg = {"snow": snow, "soil": {"albedo": 0.23}}
        for ts in ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.ALL,
                        "length": 4 if q else 5})
            for pre in ("SSSSCC", "SSRRHs", "sMsFsW", "SsHHSR"):
                out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                            "length": 4 if q else 5, "prefixes": [pre]})
        # every combination of thin and thick layers
        for ts in ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                        "length": 1 if q else 2, "init": "cryo"})
        # runs across the firn transition, forwards from each side of it
        for start in ("2020-04-28 00:00", "2020-03-27 00:00", "2020-05-01 00:00"):
            out.append({"name": name, "config": cfg, "timestep": "1D", "alphabet": "SCRH",
                        "length": 7 if q else 8, "start": start})
        # months beginning without a time step on the first day or at midnight
        for start, ts in (("2020-04-19 00:00", "5D"), ("2020-04-30 16:00", "3h"),
                          ("2020-03-31 22:00", "3h"), ("2020-04-29 07:00", "1D")):
            c = {**cfg, "output_data": {"timeseries": {"write_freq": "10D"}}} if ts == "5D" else cfg
            out.append({"name": name, "config": c, "timestep": ts, "alphabet": "SCRH",
                        "length": 5 if q else 7, "start": start})
    return out


def run_case(case, ck):
    ref = None
    for t, run, b, a in sc.explore(case, ck):
        m = run.m
        mon = sc.Monitor(ck, run, t)
        if ref is None:
            ref = refsnow.CryoTI(case["config"]["snow"], 0.23, m.timestep, run.n)
        if t == 0 and run.inits is None:
            mon(b.ice_content + b.liquid_water_content == 0, "initial state is not snow-free")
        # one step of the reference from the state of the implementation: by induction over the
        # prefixes of all words this establishes the simulation relation without accumulating
        # rounding residues of melted layers
        ref.load(b)
        met = {k: a["met_" + k] for k in ("temp", "wet_bulb_temp", "snowfall", "rainfall", "sw_in")}
        month = m.dates[t].month
        prev = m.dates[t - 1].month if t > 0 else None
        fl = ref.step(met, b.surf_temp, month, prev)

        def eq(got, exp, what, rtol=1e-7, atol=1e-9):
            ok = np.isclose(got, exp, rtol=rtol, atol=atol, equal_nan=True)
            mon(ok, what, got=got, expected=exp)

        eq(a.ice_content, ref.ice, "ice content differs from the reference model")
        eq(a.liquid_water_content, ref.lwc, "liquid water content differs from the reference")
        eq(a.thickness, ref.th, "layer thickness differs from the reference model")
        real = (a.ice_content + a.liquid_water_content > 1e-9) | (ref.ice + ref.lwc > 1e-9)
        eq(np.where(real, a.density, np.nan), np.where(real, ref.rho, np.nan),
           "layer density differs from the reference model")
        eq(np.where(real, a.layer_albedo, np.nan), np.where(real, ref.alb, np.nan), "layer albedo differs from the reference model")
        eq(a.surf_albedo, fl["surf_albedo"], "surface albedo differs from the reference model")
        gap = np.isnan(a.met_temp) | np.isnan(a.met_sw_in)
        eq(np.where(gap & np.isnan(a.melt), 0.0, a.melt), fl["melt"],
           "melt differs from the reference model")
        eq(a.runoff, fl["runoff"], "runoff differs from the reference model")
        mon(a.sublimation == 0, "sublimation without energy balance", sublimation=a.sublimation)
        ck.outcome((tuple((ref.th > 0).any(axis=1).tolist()), bool((fl["melt"] > 0).any()),
                    bool((fl["runoff"] > 0).any())))
