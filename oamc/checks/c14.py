"""C14: canopy - snow interception balance and inside-canopy meteorology."""

import copy
import itertools

import numpy as np

from .. import domain, words

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "weather words over an 11-letter alphabet on all land cover classes with and without forest",
    "growing season curves compressed to a few days for the words with changing leaf area",
]

T0 = 273.15
SIGMA = 5.670374419e-8
LCS = [5, 6, 7, 4, 2, 0, 77]  # (77: a class without parameters)

# (start, time step, alphabet, length, prefixes, land cover overrides)
SPACES = {
    "winter3h": ("2020-01-10 12:00", "3h", "CSsMRHWFNPpT", 3, ["", "SSSS"], {}),
    "winter1D": ("2020-01-10 00:00", "1D", "CSsMRHWFNPpT", 2, ["", "SSS", "SSM"], {}),
    "short1h": ("2020-03-02 09:00", "1h", "CSMHWNpT", 3, ["", "SS"], {}),
    # leaf area decreases from day to day while snow is on the trees
    "autumn": ("2020-09-24 00:00", "1D", "CSMHNpT", 4, ["SS"],
               {6: {"growth_stage_lengths": [20, 70, 120, 4]}}),
    # leaf area increases
    "spring": ("2020-03-01 00:00", "1D", "CSMHN", 4, ["S"],
               {6: {"growth_stage_lengths": [2, 3, 150, 60], "plant_date": 61}}),
    # growing season composed of cutting cycles
    "cycles": ("2020-03-01 00:00", "1D", "CSHN", 5, ["S"],
               {6: {"growth_stage_lengths": [[0, 2, 1, 1], [1, 1, 1, 1]], "plant_date": 61}}),
    # more than 24 hours (the temperature of the previous day wraps around)
    "day6h": ("2020-01-10 00:00", "6h", "CSHN", 6, [""], {}),
    "day12h": ("2020-01-10 00:00", "12h", "CSMHTp", 4, [""], {}),
    "day1h": ("2020-03-02 09:00", "1h", "CHN", 3, ["CSMHFWCSMHFWCSMHNWCSMHFWC"], {}),
    # user-defined forest classes
    "custom": ("2020-06-10 00:00", "1D", "CSMHN", 3, ["S"],
               {4: {"is_forest": True, "leaf_area_index": {"min": 1.0, "max": 2.0},
                    "plant_date": 150, "growth_stage_lengths": [5, 10, 20, 30]},
                5: {"is_forest": False},
                7: {"leaf_area_index": {"min": 2.0, "max": 4.7, "effective_add": 0.25}}}),
}
LAI = {5: (3.8, 5.1, 3.2), 6: (0.5, 4.4, 1.9), 7: (2.0, 4.7, 2.5)}
SEASON = {5: (1, [0, 0, 366, 0]), 6: (60, [20, 70, 120, 60]), 7: (1, [0, 0, 366, 0])}
PARAMS = [{}, {"extinction_coefficient": 0.5, "temperature_scaling_coefficient": 0.6,
               "canopy_flow_index_coefficient": 0.5, "spherical_ice_particle_radius": 3e-4,
               "max_interception_storage_coefficient": 2.0,
               "exposure_coefficient_coefficient": 0.05, "degree_day_factor": 12.0}]


def cases(tier):
    out = []
    for name, par in itertools.product(SPACES, (0, 1)):
        parts = 4 if tier == "quick" else 16
        for part in range(parts):
            out.append({"space": name, "params": par, "part": part, "parts": parts,
                        "extra": 0 if tier == "quick" else 1})
    return out


def curve(day, stages, lo, hi):
    """Leaf area on a day (1 = first day) of the growing season: rise, plateau, decline."""
    if day < 1:
        return lo
    if not isinstance(stages[0], list):
        stages = [stages]
    for ini, dev, mid, late in stages:
        up = ini + dev
        if day <= up:
            return lo + (hi - lo) * day / up
        day -= up
        if day <= mid:
            return hi
        day -= mid
        if day <= late:
            return hi + (lo - hi) * day / late
        day -= late
    return lo


def run_case(case, ck):
    start, ts, alpha, length, prefixes, lc_over = SPACES[case["space"]]
    wl = words.words(alpha, length + case["extra"], prefixes)
    lens = {len(w) for w in wl}
    pad = max(lens)
    wl = sorted({w + w[-1] * (pad - len(w)) for w in wl})[case["part"]::case["parts"]]
    n = len(wl)
    lc = np.array([LCS[(k + i) % len(LCS)] for i in range(1) for k in range(n)])
    # every word on every land cover class
    wl = [w for w in wl for _ in LCS]
    lc = np.tile(LCS, n)
    n = len(wl)
    par = PARAMS[case["params"]]
    cfg = {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index",
                                                    "degree_day_factor": 6.0}},
           "canopy": {"enabled": True, **par},
           "land_cover": {"classes": copy.deepcopy(lc_over)}}
    r = words.WordRun(ck, wl, start, ts, cfg, rasters={"lc": lc})
    m = r.m
    p = {"extinction_coefficient": 0.71, "temperature_scaling_coefficient": 0.8,
         "canopy_flow_index_coefficient": 0.9, "spherical_ice_particle_radius": 5e-4,
         "max_interception_storage_coefficient": 4.4, "exposure_coefficient_coefficient": 0.01,
         "degree_day_factor": 5.0, **par}
    lais, seasons = copy.deepcopy(LAI), dict(SEASON)
    for k, o in lc_over.items():
        la = o.get("leaf_area_index", {})
        d = lais.get(k, (0, 0, 0))
        lais[k] = (la.get("min", d[0]), la.get("max", d[1]), la.get("effective_add", d[2]))
        d = seasons.get(k, (0, 0))
        seasons[k] = (o.get("plant_date", d[0]), o.get("growth_stage_lengths", d[1]))
    fc = [k for k in lais if lc_over.get(k, {}).get("is_forest", True)]
    forest = np.isin(lc, fc)
    dt = m.timestep
    nday = max(int(86400 / dt), 1)
    hist = []
    load = np.where(forest, 0.0, np.nan)
    alb_prev = r.get("surface", "albedo")
    for t in r.steps():
        m.run_single()
        g = lambda c, v: r.get(c, v)  # noqa: E731
        vals = np.array([r.letters[w[t]] for w in wl]).T
        T, RH, U, P = vals[:4]
        doy = m.date.dayofyear
        # -- leaf area
        lai = np.full(n, np.nan)
        eff = np.full(n, np.nan)
        for k, (lo, hi, add) in lais.items():
            pd_, st = seasons[k]
            lai[lc == k] = curve(doy - pd_ + 1, st, lo, hi)
            eff[lc == k] = lai[lc == k] + add
        hl = np.isfinite(lai)
        ck.close(g("land_cover", "lai")[hl], lai[hl], "leaf area index", date=str(m.date))
        ck.close(g("land_cover", "lai_eff")[hl], eff[hl], "effective leaf area index")
        # -- above-canopy values are saved and other pixels are left alone
        top = {v: g("meteo", "top_canopy_" + v) for v in
               ("temp", "rel_hum", "wind_speed", "sw_in", "lw_in")}
        cur = {v: g("meteo", v) for v in top}
        ck.close(top["temp"], T, "above-canopy temperature")
        ck.close(top["rel_hum"], RH, "above-canopy humidity")
        ck.close(top["wind_speed"], U, "above-canopy wind speed")
        for v in top:
            ck.close(cur[v][~forest], top[v][~forest], f"{v} modified outside of forests")
        # -- inside-canopy meteorology
        f, e = forest, eff[forest]
        frac = np.clip(0.55 + 0.29 * np.log(e), 0, 1)
        hist.append(T)
        with np.errstate(all="ignore"):
            h = np.array(hist[-nday:])
            cnt = np.isfinite(h).sum(axis=0)
            mean = np.where(cnt > 0, np.nansum(h, axis=0) / np.maximum(cnt, 1), np.nan)[f]
        dT = np.clip((mean - T0) / 3, -2, 2)
        t_in = T[f] - frac * (T[f] - (p["temperature_scaling_coefficient"] * (T[f] - mean)
                                      + mean - dT))
        ck.close(cur["temp"][f], t_in, "inside-canopy temperature", atol=1e-6)
        ck.close(cur["sw_in"][f], top["sw_in"][f] * np.exp(-p["extinction_coefficient"] * e),
                 "inside-canopy shortwave radiation", atol=1e-6)
        ck.close(cur["lw_in"][f], (1 - frac) * top["lw_in"][f] + frac * SIGMA * t_in ** 4,
                 "inside-canopy longwave radiation", atol=1e-6)
        ck.close(cur["rel_hum"][f], np.clip(RH[f] * (1 + 0.1 * frac), 0, 100),
                 "inside-canopy humidity", atol=1e-6)
        ck.close(cur["wind_speed"][f],
                 U[f] * np.exp(-0.4 * p["canopy_flow_index_coefficient"] * e),
                 "inside-canopy wind speed", atol=1e-6)
        # -- snow balance
        rain, snow, prec = (g("meteo", v) for v in ("rainfall", "snowfall", "precip"))
        above = P - rain  # snowfall above the canopy
        inter, sub, melt, new = (g("snow", v)[f] for v in (
            "canopy_intercepted_snowfall", "canopy_sublimation", "canopy_melt",
            "canopy_intercepted_load"))
        old = load[f]
        for nm, a in (("interception", inter), ("sublimation", sub), ("unloading", melt),
                      ("load", new)):
            ck.check_all(np.isfinite(a) & (a >= 0), f"canopy snow {nm} negative or missing", got=a,
                         word=np.array([ord(w[t]) for w in wl])[f])
        ck.check_all(np.abs(new - (old + inter - sub - melt)) <= 1e-9 * (1 + old),
                     "canopy snow storage not balanced", old=old, new=new, inter=inter, sub=sub,
                     melt=melt)
        known = np.isfinite(above[f])
        ck.check_all(np.abs(snow[f] - (above[f] - inter + melt))[known] <= 1e-9 * 50,
                     "snowfall below the canopy not balanced", got=snow[f][known],
                     above=above[f][known])
        ck.check_all(np.abs(prec - snow - rain)[np.isfinite(P)] <= 1e-9 * 50,
                     "precipitation is not the sum of the phases")
        ck.check_all(((inter == 0) & (melt == 0))[~known], "canopy exchange without known snowfall",
                     inter=inter[~known], melt=melt[~known])
        cap = p["max_interception_storage_coefficient"] * e
        exp_int = np.where(known, 0.7 * np.clip(cap - old, 0, None)
                           * (1 - np.exp(-np.nan_to_num(above[f]) / cap)), 0.0)
        ck.close(inter, exp_int, "intercepted snowfall", atol=1e-9)
        ck.check_all(inter <= np.nan_to_num(above[f]) + 1e-9, "more intercepted than falling",
                     inter=inter)
        ck.check_all(new <= np.maximum(cap, old) + 1e-9, "load above the interception capacity")
        # -- sublimation and unloading
        rad = p["spherical_ice_particle_radius"]
        with np.errstate(all="ignore"):
            absr = np.pi * rad ** 2 * (1 - alb_prev[f]) * top["sw_in"][f]
            re = np.clip(2 * rad * cur["wind_speed"][f] / 1.3e-5, 0.7, 10)
            nu = 1.79 + 0.606 * np.sqrt(re)
            es = g("meteo", "sat_vap_press")[f]
            dens = 0.622 * es / (461.52 * t_in)
            dif = 2.06e-5 * (t_in / 273) ** 1.75
            om = (2.835e6 * 0.0180153 / (8.314462618 * t_in) - 1) / (0.025 * t_in * nu)
            rate = (2 * np.pi * rad * (cur["rel_hum"][f] / 100 - 1) - absr * om) / (
                2.835e6 * om + 1 / (dif * dens * nu))
            coef = np.nan_to_num(rate) / (4 / 3 * np.pi * 917.0 * rad ** 3)
            l1 = old + inter
            expo = np.where(l1 > 0, p["exposure_coefficient_coefficient"]
                            * (l1 / cap) ** (-0.4), 0.0)
            exp_sub = np.clip(np.minimum(-expo * l1 * coef * dt, l1), 0, None)
        ck.close(sub, exp_sub, "canopy snow sublimation", rtol=1e-6, atol=1e-9)
        with np.errstate(all="ignore"):
            pot = p["degree_day_factor"] * np.clip(t_in - T0, 0, None) * dt / 86400
            exp_melt = np.where(np.isfinite(pot) & known, np.minimum(pot, l1 - sub), 0.0)
        ck.close(melt, exp_melt, "canopy snow unloading", rtol=1e-6, atol=1e-9)
        load = np.where(forest, g("snow", "canopy_intercepted_load"), np.nan)
        alb_prev = g("surface", "albedo")
        ck.transitions(n)
    nodes, _ = words.prefix_nodes([f"{w}" for w in wl])
    ck.states(nodes * len(LCS))
    ck.traces(n)
    ck.outcome((case["space"], case["params"], case["part"], round(float(np.nansum(load)), 6)))
