"""C21: snow ageing - albedo decay and refresh, fresh snow density, compaction, snow depth."""

import warnings

import numpy as np

from .. import refsnow as rs, snowcase as sc

warnings.filterwarnings("ignore", message="All-NaN")

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; 11 letter weather alphabet",
    "the mass fluxes melt, sublimation and snowfall are taken from the model state (they are "
    "decided by C01, C02, C04, C15)",
    "layer merging is compared through the total depth (multilayer), C24 compares it exactly",
]

ALB = {"refresh_method": "continuous", "decay_timescale_determination_temperature": "air",
       "min": 0.45, "max": 0.9, "cold_snow_decay_timescale": 90.0,
       "melting_snow_decay_timescale": 30.0, "refresh_snowfall": 4.0}
CONFIGS = {
    "ml_default": {"model": "multilayer"},
    "ml_cont_emp": {"model": "multilayer", "albedo": ALB, "min_thickness": [0.05, 0.3],
                    "compaction": {"method": "empirical", "timescale": 60.0,
                                   "max_cold_density": 180.0, "max_melting_density": 420.0}},
    "ml_single": {"model": "multilayer", "min_thickness": [0.1],
                  "albedo": {**ALB, "refresh_method": "binary",
                             "decay_timescale_determination_temperature": "surface"},
                  "compaction": {"method": "empirical"}},
    "ml_usaco": {"model": "multilayer", "min_thickness": [0.02, 0.05, 0.1, 0.2],
                 "albedo": {"method": "usaco", "k_pos": 0.6, "k_neg": 0.2,
                            "significant_snowfall": 1.0}},
    "ml_fsm": {"model": "multilayer",
               "albedo": {"method": "fsm", "cold_snow_decay_timescale": 100.0,
                          "melting_snow_decay_timescale": 20.0, "refresh_snowfall": 1.0}},
    "cryo_single": {"model": "cryolayers"},
    "cryo_multi": {"model": "cryolayers", "albedo": {**ALB, "firn": 0.33, "ice": 0.12},
                   "cryolayers": {"use_single_snow_albedo": False,
                                  "transition": {"old_snow": 160.0, "firn": 5, "ice": 400.0}}},
    "cryo_legacy": {"model": "cryolayers",
                    "albedo": {"refresh_method": "continuous", "refresh_snowfall": 2.0},
                    "cryolayers": {"surface_temperature_iteration_method": "legacy",
                                   "transition": {"old_snow": 120.0}}},
}


def cases(tier):
    out = []
    q = tier == "quick"
    for name, snow in CONFIGS.items():
        cfg = {"snow": snow}
        for ts in ("3h", "1D") if q else ("3h", "1D", "1h"):
            out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.ALL,
                        "length": 4 if q else 5})
            for pre in ("SSSSCC", "SSRRHs", "sMsFsW"):
                out.append({"name": name, "config": cfg, "timestep": ts, "alphabet": sc.CORE,
                            "length": 4 if q else 5, "prefixes": [pre]})
        out.append({"name": name, "config": cfg, "timestep": "1h", "alphabet": sc.CORE,
                    "length": 4 if q else 5, "prefixes": ["SCsH"]})
        out.append({"name": name, "config": cfg, "timestep": "30min", "alphabet": sc.CORE,
                    "length": 3 if q else 5, "prefixes": ["SS"]})
        out.append({"name": name, "config": cfg, "timestep": "1D", "alphabet": "SCRH",
                    "length": 7 if q else 8, "start": "2020-04-28 00:00"})
    return out


def multilayer(p, mon, run, b, a):
    dt = run.m.timestep
    nn = np.nan_to_num
    sf = nn(a.met_snowfall)
    n0 = b.num_layers
    layer = np.arange(b.thickness.shape[0])[:, None] < n0
    th = np.where(layer, b.thickness, 0.0)
    ice = np.where(layer, b.ice_content, 0.0)
    lwc = np.where(layer, b.liquid_water_content, 0.0)
    th = rs.compact(p, ice, lwc, th, b.temp, a.met_temp, dt, th.shape[0])
    rho = rs.fresh_density(a.met_wet_bulb_temp)
    th[0] += sf / rho
    ice[0] += sf
    melt = nn(a.melt)
    with np.errstate(all="ignore"):
        dens = np.where(th > 0, ice / th, np.nan)
        lo_rho, hi_rho = np.nanmin(dens, axis=0), np.nanmax(dens, axis=0)
    gross = th.sum(axis=0)
    ice, th, _ = rs.remove_top(ice, th, melt)
    frost = np.maximum(-nn(a.sublimation), 0.0)
    ice[0] += frost
    th[0] += frost / rho
    ice, th, _ = rs.remove_top(ice, th, np.maximum(nn(a.sublimation), 0.0))
    exp = th.sum(axis=0)
    # melt need not start at the top (a lower layer may be the first to reach the melting point), so
    # the depth is only known up to the densities of the melting layers if there are several
    unique = (melt == 0) | (n0 <= 1)
    loss = melt + np.maximum(nn(a.sublimation), 0.0)
    with np.errstate(all="ignore"):
        lo = gross + frost / rho - loss / lo_rho
        hi = gross + frost / rho - loss / hi_rho
    tol = 3e-6 + 1e-7 * gross
    mon(unique | ((a.depth >= lo - tol) & (a.depth <= hi + tol)),
        "snow depth loss does not match melt and sublimation", got=a.depth, lo=lo, hi=hi,
        melt=melt, sublimation=a.sublimation)
    mon(~unique | (np.abs(a.depth - exp) <= tol),
        "snow depth does not follow compaction, accumulation, melt and sublimation",
        got=a.depth, expected=exp, snowfall=sf, melt=a.melt, sublimation=a.sublimation,
        depth_before=b.depth)
    # albedo
    had = n0 > 0
    start = np.where(had, b.albedo, p.amax)
    aged = rs.age_albedo(p, start, a.met_temp if p.by == "air" else b.surf_temp, sf, dt)
    exp = np.where(had | (sf > 0), aged, p.amax)
    exp = np.where(a.num_layers > 0, exp, np.nan)
    mon(np.isclose(a.albedo, exp, rtol=1e-9, atol=1e-12, equal_nan=True),
        "snow albedo does not follow the ageing and refresh rules", got=a.albedo, expected=exp,
        before=b.albedo, snowfall=sf, surf_temp=b.surf_temp, temp=a.met_temp)


def cryolayers(p, mon, run, b, a, t):
    dt = run.m.timestep
    sf = np.nan_to_num(a.met_snowfall)
    hb = b.thickness > 0
    la = b.layer_albedo.copy()
    init = (b.ice_content[rs.NEW] == 0) & (sf > 0)
    la[rs.NEW] = np.where(init, np.where(p.single & hb[rs.OLD], la[rs.OLD], p.amax), la[rs.NEW])
    hn, ho = hb[rs.NEW] | (sf > 0), hb[rs.OLD]
    top = np.where(hn, la[rs.NEW], la[rs.OLD])
    aged = rs.age_albedo(p, top, a.met_temp if p.by == "air" else b.surf_temp, sf, dt)
    la[rs.NEW] = np.where(hn, aged, la[rs.NEW])
    la[rs.OLD] = np.where(ho & (p.single | ~hn), aged, la[rs.OLD])
    mass0 = b.ice_content + b.liquid_water_content
    mass = a.ice_content + a.liquid_water_content
    real = mass > 1e-9
    # new snow layer: aged, or created by resublimation in this step
    fresh = np.where(p.single & ho, la[rs.OLD], p.amax)
    eq = lambda x, y: np.isclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)  # noqa: E731
    ok = np.where(hn, eq(a.layer_albedo[0], la[0]), eq(a.layer_albedo[0], fresh))
    remade = hn & (a.melt > 0) & (a.sublimation < 0)
    ok = ok | (remade & eq(a.layer_albedo[0], fresh))
    mon(ok | ~real[0], "new snow albedo does not follow the ageing and refresh rules",
        got=a.layer_albedo[0], expected=np.where(hn, la[0], fresh), before=b.layer_albedo[0],
        snowfall=sf, surf_temp=b.surf_temp)
    # old snow layer: unchanged membership -> aged albedo; new snow merged into it -> in between
    dates = run.m.dates
    firn_step = t > 0 and dates[t].month == p.t_firn and dates[t - 1].month != p.t_firn
    no_merge = real[0] & (a.sublimation >= 0)
    no_merge = no_merge | (~hn & (a.sublimation >= 0))
    exact = ho & no_merge & real[1]
    lo = np.fmin(np.fmin(la[0], la[1]), fresh) - 1e-12
    hi = np.fmax(np.fmax(la[0], la[1]), fresh) + 1e-12
    if not firn_step:
        mon(~exact | eq(a.layer_albedo[1], la[1]),
            "old snow albedo does not follow the ageing and refresh rules",
            got=a.layer_albedo[1], expected=la[1], before=b.layer_albedo[1], snowfall=sf)
        mon(~real[1] | ((a.layer_albedo[1] >= lo) & (a.layer_albedo[1] <= hi)),
            "old snow albedo is outside of the albedos it was formed from",
            got=a.layer_albedo[1], lo=lo, hi=hi)
    else:
        mon(mass[1] <= 1e-9, "old snow is left after the transition to firn", mass=mass)
    # exposed firn and ice have constant albedo
    snow_during = hn | ho
    bare_f = (b.thickness[2] > 0) & ~snow_during
    moved = a.thickness[2] > 0
    if not firn_step:
        mon(~(bare_f & moved & real[2]) | eq(a.layer_albedo[2], p.firn), "firn albedo",
            got=a.layer_albedo[2])
    bare_i = (b.thickness[3] > 0) & ~snow_during & ~(b.thickness[2] > 0)
    mon(~(bare_i & real[3]) | eq(a.layer_albedo[3], p.ice), "ice albedo", got=a.layer_albedo[3])
    # ice keeps its density, firn densifies linearly
    if not firn_step:
        kept = (b.thickness[2] > 0) & real[2] & (mass0[2] > 1e-9)
        rate = (p.t_ice - 500.0) / (10 * 365.25 * 24) * dt / 3600.0
        dry = (b.liquid_water_content[2] == 0)
        exp = b.density[2] + rate
        mon(~(kept & dry) | np.isclose(a.density[2], exp, rtol=1e-7), "firn density",
            got=a.density[2], expected=exp)
    # pure settling: no mass flux at all in this step
    still = (sf == 0) & (a.melt == 0) & (a.sublimation == 0) & (a.runoff == 0) \
        & (np.nan_to_num(a.met_rainfall) == 0) & (np.nan_to_num(a.refreezing) == 0)
    th = rs.compact(p, b.ice_content, b.liquid_water_content, b.thickness, None, a.met_temp, dt, 2)
    exp = th[0] + th[1]
    got = a.thickness[0] + a.thickness[1]
    if not firn_step:
        mon(~still | (np.abs(got - exp) <= 1e-9 + 1e-7 * exp), "settling without mass fluxes",
            got=got, expected=exp)
    # dry accumulation on settled snow (deposition adds fresh snow, too)
    frost = np.maximum(-np.nan_to_num(a.sublimation), 0.0)
    dry = (a.melt == 0) & (a.sublimation <= 0) & (a.runoff == 0) & (np.nan_to_num(a.refreezing) == 0) \
        & (np.nan_to_num(a.met_rainfall) == 0)
    one = real.sum(axis=0) <= 2
    exp2 = exp + (sf + frost) / rs.fresh_density(a.met_wet_bulb_temp)
    stay = ~((a.thickness[0] == 0) & hn)  # no new snow -> old snow merge in this step
    stay = stay & (np.abs(mass[1] - mass0[1]) <= 1e-9)
    if not firn_step:
        mon(~(dry & one & stay) | (np.abs(got - exp2) <= 1e-9 + 1e-7 * exp2),
            "depth of fresh snow", got=got, expected=exp2, snowfall=sf, frost=frost)


def run_case(case, ck):
    p = rs.Params(case["config"]["snow"])
    for t, run, b, a in sc.explore(case, ck):
        mon = sc.Monitor(ck, run, t)
        if case["config"]["snow"]["model"] == "multilayer":
            multilayer(p, mon, run, b, a)
        else:
            cryolayers(p, mon, run, b, a, t)
        ck.outcome((case["name"], bool((a.met_snowfall > 0).any()), bool((a.melt > 0).any()),
                    bool((a.sublimation < 0).any()), int(np.nanmax(a.num_layers))))
