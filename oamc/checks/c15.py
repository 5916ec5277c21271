"""C15: evapotranspiration - water balances of soil and sealed surfaces, FAO-56 reference."""

import copy
import itertools

import numpy as np

from .. import domain, refmet, words

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "weather words over an 8-letter alphabet on all land cover classes and soil textures; a whole "
    "year of daily steps for the growing season curves",
    "incoming radiation is taken from the model state (covered by C18)",
]

T0 = 273.15
SIGMA = 5.670374419e-8
NAN = float("nan")
LETTERS = {
    "H": (298.0, 22.0, 7.0, 0.0, 0.0, 1.0),
    "D": (285.0, 70.0, 2.0, 0.0, 0.3, 0.9),
    "R": (283.0, 95.0, 3.0, 22.0, 1.0, 0.3),
    "d": (287.0, 80.0, 0.4, 0.3, 0.6, 0.6),
    "S": (267.0, 95.0, 3.0, 3.0, 1.0, 0.3),
    "N": (NAN, NAN, NAN, NAN, NAN, NAN),
    "P": (293.0, 40.0, 3.0, NAN, 0.2, 0.9),
    "T": (NAN, 95.0, 3.0, 6.0, 1.0, 0.3),
    "E": (290.0, 100.0, 3.0, 0.0, 1.0, 0.3),
}

# land cover class: type, Kc (ini, mid, end), plant date, stage lengths, height, root depth,
# depletion fraction, scale height
GRASS = ("dual", (0.3, 0.9, 0.8), 60, [10, 20, 210, 30], 0.225, 0.5, 0.6, True)
FOREST = ("dual", (0.95,) * 3, 1, [0, 0, 366, 0], 26.0, 1.25, 0.7, False)
CLASSES = {
    1: ("single", (1.25, 0.65, 1.25), 1, [0, 183, 0, 183], 0.0, NAN, NAN, True),
    2: ("sealed",), 3: ("sealed",), 4: GRASS, 5: FOREST,
    6: ("dual", (0.5, 1.05, 0.6), 60, [20, 70, 120, 60], 24.8, 2.05, 0.5, False),
    7: FOREST,
    8: ("dual", (0.15, 1.1, 0.25), 120, [30, 40, 50, 25], 2.0, 1.35, 0.55, True),
    9: GRASS, 10: ("dual", (1.2,) * 3, 1, [0, 0, 366, 0], 3.0, 0.5, 0.5, True),
    11: GRASS, 12: GRASS,
}
SPARSE = {10: 0.25}
# soil texture: field capacity, wilting point, readily evaporable water, depletion adjustment
SOIL = {1: (0.12, 0.045, 4.5, 1.1), 2: (0.15, 0.065, 6.0, 1.075), 3: (0.23, 0.11, 8.0, 1.05),
        4: (0.25, 0.12, 9.0, 1.025), 5: (0.29, 0.15, 9.5, 1.0), 6: (0.32, 0.17, 9.5, 0.975),
        7: (0.335, 0.205, 9.5, 0.95), 8: (0.36, 0.23, 10.0, 0.925), 9: (0.36, 0.22, 10.0, 0.9)}

OVER = {  # land cover parameter overrides
    "": {},
    "cycles": {4: {"growth_stage_lengths": [[2, 5, 3, 4], [0, 3, 6, 2], [5, 0, 1, 10]],
                   "plant_date": 100},
               8: {"growth_stage_lengths": [[1, 2, 3, 4], [4, 3, 2, 1]], "plant_date": 150},
               1: {"crop_coefficients": [0.4, 0.3, 1.1]}},
    "sparse": {10: {"sparse_vegetation_fraction": 0.6, "max_height": 0.2,
                    "crop_coefficients": [0.7, 0.7, 0.7]},
               },
    "low": {8: {"crop_coefficients": [0.5, 0.44, 0.46]},
            4: {"crop_coefficients": [0.7, 0.45, 0.3], "scale_height": False}},
    "single": {4: {"crop_coefficient_type": "single"},
               6: {"crop_coefficient_type": "single", "scale_height": True}},
}
PARAMS = {
    "": {},
    "climate": {"mean_wind_speed": 4.5, "mean_min_humidity": 25.0, "min_crop_coefficient": 0.15,
                "surface_soil_layer_evaporation_depth": 0.10, "grass_albedo": 0.3,
                "sealed_albedo": 0.2},
    "clip": {"mean_wind_speed": 9.0, "mean_min_humidity": 95.0, "min_crop_coefficient": 0.2,
             "surface_soil_layer_evaporation_depth": 0.15, "grass_emissivity": 0.95,
             "sealed_emissivity": 0.99},
}
# start, time step, alphabet, length, prefixes
SPACES = {
    "day": ("2020-06-20 00:00", "1D", "HRdSNPT", 3, ["", "HHHH", "HHHHHHHH"]),
    "noon": ("2020-06-20 11:00", "1h", "HDRSNT", 3, ["H", "R"]),
    "night": ("2020-06-20 21:00", "3h", "HERSNP", 3, ["", "R"]),
    "winter": ("2020-02-27 00:00", "1D", "HRSTN", 3, ["", "R"]),
}


def cases(tier):
    out = []
    for sp, canopy in itertools.product(SPACES, (False, True)):
        for over in OVER if sp == "day" else ("",):
            for par in PARAMS if sp == "day" and not canopy else ("climate",):
                out.append({"kind": "words", "space": sp, "canopy": canopy, "over": over,
                            "params": par, "extra": 0 if tier == "quick" else 1})
    for over, par in itertools.product(OVER, PARAMS):
        out.append({"kind": "season", "over": over, "params": par})
    return out


def kc_curve(day, stages, kc, kmin, hmax):
    """Crop coefficient and plant height on a day (1 = first day of the season)."""
    ini, mid, end = kc
    if not isinstance(stages[0], list):
        stages = [stages]
    if day < 1:
        return kmin, kmin / mid * hmax
    for si, sd, sm, sl in stages:
        if day <= si:
            return ini, max(ini, kmin) / mid * hmax
        day -= si
        if day <= sd:
            k = ini + day / sd * (mid - ini)
            return k, max(k, ini) / mid * hmax
        day -= sd
        if day <= sm:
            return mid, hmax
        day -= sm
        if day <= sl:
            k = mid + day / sl * (end - mid)
            return k, max(k / mid, 1) * hmax
        day -= sl
    return kmin, kmin / mid * hmax


def declination(doy):
    a = 2 * np.pi * (doy - 1) / 365
    return (0.006918 - 0.399912 * np.cos(a) + 0.070257 * np.sin(a) - 0.006758 * np.cos(2 * a)
            + 0.000907 * np.sin(2 * a) - 0.002697 * np.cos(3 * a) + 0.00148 * np.sin(3 * a))


class Reference:
    def __init__(self, lc, tex, over, par):
        self.lc, self.tex = lc, tex
        self.p = {"mean_wind_speed": 2.0, "mean_min_humidity": 45.0, "min_crop_coefficient": 0.175,
                  "surface_soil_layer_evaporation_depth": 0.125, "grass_albedo": 0.23,
                  "grass_emissivity": 0.985, "sealed_albedo": 0.4, "sealed_emissivity": 0.92, **par}
        self.cls = {}
        self.sparse = dict(SPARSE)
        for k, v in CLASSES.items():
            v = list(v)
            for name, idx in (("crop_coefficient_type", 0), ("crop_coefficients", 1),
                              ("plant_date", 2), ("growth_stage_lengths", 3), ("max_height", 4),
                              ("scale_height", 7)):
                if name in over.get(k, {}):
                    v[idx] = over[k][name]
            if "sparse_vegetation_fraction" in over.get(k, {}):
                self.sparse[k] = over[k]["sparse_vegetation_fraction"]
            self.cls[k] = v
        n = len(lc)
        soil = np.array([SOIL[t] for t in tex])
        fc, wp, self.rew, adj = soil.T
        self.tew = 1000 * (fc - 0.5 * wp) * self.p["surface_soil_layer_evaporation_depth"]
        root = np.array([self.cls[k][5] if k and self.cls[k][0] != "sealed" else NAN for k in lc])
        frac = np.array([self.cls[k][6] if k and self.cls[k][0] != "sealed" else NAN for k in lc])
        self.taw = 1000 * (fc - wp) * root
        self.raw = frac * adj * self.taw
        self.De = np.zeros(n)
        self.Dr = np.zeros(n)
        self.store = np.zeros(n)

    def clim(self, h):
        u = min(max(self.p["mean_wind_speed"], 1), 6)
        rh = min(max(self.p["mean_min_humidity"], 20), 80)
        h = min(max(h, 0.1), 10)
        return (0.04 * (u - 2) - 0.004 * (rh - 45)) * (h / 3) ** 0.3

    def step(self, doy, lat, dt, et_ref, rain, snow, pm):
        """Returns the expected fields."""
        n = len(self.lc)
        o = {k: np.full(n, NAN) for k in ("evaporation", "transpiration", "evapotranspiration",
                                           "deep_percolation", "crop_coeff", "plant_height",
                                           "water_stress_coeff")}
        o["deep_percolation"][:] = 0.0
        rain = np.nan_to_num(rain)
        e0 = np.nan_to_num(et_ref)
        for k in sorted(set(self.lc) - {0}):
            w = self.lc == k
            c = self.cls[k]
            if c[0] == "sealed":
                wet = w & ~snow & (rain > 0)
                dry = w & ~snow & ~(rain > 0)
                tot = self.store + rain
                o["deep_percolation"][wet] = np.clip(tot - 0.935, 0, None)[wet]
                self.store[wet] = np.minimum(tot, 0.935)[wet]
                o["evaporation"][w] = 0.0
                o["evaporation"][dry] = np.minimum(np.nan_to_num(pm) * dt, self.store)[dry]
                self.store[dry] -= o["evaporation"][dry]
                o["transpiration"][w] = 0.0
                o["evapotranspiration"][w] = o["evaporation"][w]
                continue
            typ, kc, plant, stages, h, _, _, scale = c
            kmin = self.p["min_crop_coefficient"]
            ini, mid, end = kc
            if k in self.sparse:
                fr = self.sparse[k]
                s = np.sin(lat) * np.sin(declination(doy)) + np.cos(lat) * np.cos(declination(doy))
                mid = kmin + (mid - kmin) * min(1, 2 * fr, (fr / s) ** (1 / (1 + h)))
            cc = self.clim(h)
            mid = mid + cc if mid >= 0.45 else mid
            end = end + cc if end >= 0.45 else end
            kcb, ph = kc_curve(doy - plant + 1, stages, (ini, mid, end), kmin, h)
            if not scale:
                ph = h
            o["plant_height"][w] = ph
            free = w & (~snow if k != 1 else True)
            if typ == "single":
                o["crop_coeff"][w] = kcb
                o["evapotranspiration"][w] = 0.0
                o["evapotranspiration"][free] = kcb * e0[free]
            else:
                kmax = max(1.2 + cc, kcb + 0.05)
                veg = self.sparse[k] if k in self.sparse else (
                    max(kcb - kmin, 0.01) / (kmax - kmin)) ** (1 + 0.5 * ph)
                few = min(1 - veg, 1.0)
                kr = np.where(self.De > self.rew, (self.tew - self.De) / (self.tew - self.rew), 1.0)
                ke = np.minimum(kr * (kmax - kcb), few * kmax)
                o["crop_coeff"][free] = (kcb + ke)[free]
                for v in ("evaporation", "transpiration"):
                    o[v][w] = 0.0
                o["evaporation"][free] = (ke * e0)[free]
                o["transpiration"][free] = kcb * e0[free]
                dpe = np.clip(rain - self.De, 0, None)
                new = np.clip(self.De - rain + np.nan_to_num(o["evaporation"]) / few + dpe, 0,
                              self.tew)
                self.De[free] = new[free]
                o["evapotranspiration"][w] = (o["evaporation"] + o["transpiration"])[w]
            if k == 1:
                continue
            ks = np.clip((self.taw - self.Dr) / (self.taw - self.raw), 0, 1)
            o["water_stress_coeff"][free] = ks[free]
            if typ == "single":
                o["evapotranspiration"][free] *= ks[free]
            else:
                o["transpiration"][free] *= ks[free]
                o["evapotranspiration"][free] = (o["evaporation"] + o["transpiration"])[free]
            et = o["evapotranspiration"]
            dp = np.clip(rain - et - self.Dr, 0, None)
            o["deep_percolation"][w] = dp[w]
            self.Dr[w] = np.clip(self.Dr - rain + et + dp, 0, self.taw)[w]
        return o


def run_case(case, ck):
    season = case["kind"] == "season"
    if season:
        start, ts = "2020-01-01 00:00", "1D"
        seqs = ["HHDdRHHPHHNHTDDHERHHHH", "RRHHHHHHHHHHHHHHHHHHHHHHHHHHH", "HSHDDDR"]
        L = 366
        wl = [(s * (L // len(s) + 1))[:L] for s in seqs]
    else:
        start, ts, alpha, length, prefixes = SPACES[case["space"]]
        wl = words.words(alpha, length + case["extra"], prefixes)
        pad = max(len(w) for w in wl)
        wl = sorted({w + w[-1] * (pad - len(w)) for w in wl})
    # every word on every land cover class; all textures occur on all classes
    combos = [(k, t) for k in [*CLASSES, 0] for t in (range(1, 10) if season else (None,))]
    full = [(w, k, t or (i + j + k) % 9 + 1) for i, w in enumerate(wl)
            for j, (k, t) in enumerate(combos)]
    W = [f[0] for f in full]
    lc = np.array([f[1] for f in full])
    tex = np.array([f[2] for f in full])
    n = len(W)
    over = OVER[case["over"]]
    cfg = {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index",
                                                    "degree_day_factor": 2.0}},
           "canopy": {"enabled": case.get("canopy", False)},
           "evapotranspiration": {"enabled": True, **PARAMS[case["params"]]},
           "land_cover": {"classes": copy.deepcopy(over)}}
    r = words.WordRun(ck, W, start, ts, cfg, rasters={"lc": lc, "soil": tex}, letters=LETTERS)
    m = r.m
    g = r.get
    lat = np.deg2rad(refmet.lonlat(domain.X0, domain.Y0)[1])
    ref = Reference(lc, tex, over, PARAMS[case["params"]])
    loose = case["over"] == "sparse"
    sealed = np.isin(lc, (2, 3))
    dt = m.timestep
    p = ref.p
    ck.close(g("evapotranspiration", "cum_root_zone_depletion")[np.isfinite(ref.taw)],
             np.zeros(np.isfinite(ref.taw).sum()), "initial root zone depletion")
    known = lc > 0
    for t in r.steps():
        m.run_single()
        lets = np.array([LETTERS[w[t]] for w in W]).T
        T, RH, U = lets[:3]
        d = refmet.derived(T, RH, np.full(n, 1500.0))
        sw, lw = g("meteo", "top_canopy_sw_in"), g("meteo", "top_canopy_lw_in")
        alb = np.where(sealed, p["sealed_albedo"], p["grass_albedo"])
        em = np.where(sealed, p["sealed_emissivity"], p["grass_emissivity"])
        rn = (1 - alb) * sw + lw - em * SIGMA * T ** 4
        hour = (m.date.hour + dt / 7200) % 24
        # soil heat flux: 10 % of net radiation during the day, 50 % at night
        got_g = g("evapotranspiration", "soil_heat_flux")
        ck.close(g("evapotranspiration", "ref_net_radiation")[known], rn[known],
                 "reference net radiation", rtol=1e-6, atol=1e-6, step=t)
        cand = [0.1] if ts == "1D" or 8 <= hour <= 17 else [0.5] if hour >= 22 or hour <= 3 else [0.1, 0.5]
        if ts == "1D":
            cand = [0.1, 0.5]
        fit = [f for f in cand if np.allclose(got_g[known], (f * rn)[known], rtol=1e-6, atol=1e-6,
                                              equal_nan=True)]
        ck.check(bool(fit), "soil heat flux below the reference surface", step=t)
        if not fit:
            return
        G = fit[0] * rn
        tc = T - T0
        with np.errstate(all="ignore"):
            D = 4098 * 0.6108 * np.exp(17.27 * tc / (tc + 237.3)) / (tc + 237.3) ** 2
            ga, es, ea = (d[k] / 1e3 for k in ("psych_const", "sat_vap_press", "vap_press"))
            u2 = U * np.log(2 / 0.03) / np.log(10 / 0.03)
            et0 = (0.408 * D * (rn - G) * 0.0036 + ga * 37 / (tc + 273) * u2 * (es - ea)) / (
                D + ga * (1 + 0.34 * u2))
            et0 = np.where(np.isnan(et0), NAN, np.clip(et0, 0, None)) * dt / 3600
            # Penman-Monteith for wet sealed surfaces (1.9 m high elements)
            h = 1.9
            ra = np.log((10 - 2 / 3 * h) / (0.123 * h)) * np.log((2 - 2 / 3 * h) / (0.0123 * h)) / (
                0.41 ** 2 * U)
            rho = refmet.pressure(1500.0) / (287.058 * 1.01 * T)
            cp = d["psych_const"] * 0.622 * 2.501e6 / refmet.pressure(1500.0)
            pm = (1e3 * D * (rn - G) + rho * cp * (es - ea) * 1e3 / ra) / (
                1e3 * D + d["psych_const"]) / 2.501e6
            pm = np.clip(pm, 0, None)
        ck.close(g("evapotranspiration", "et_ref")[known], et0[known], "reference evapotranspiration",
                 rtol=1e-4, atol=1e-6, step=t)
        et0 = g("evapotranspiration", "et_ref")
        rain = g("meteo", "rainfall")
        snow = g("snow", "swe") > 0
        before = (ref.De.copy(), ref.Dr.copy(), ref.store.copy())
        o = ref.step(m.date.dayofyear, lat, dt, et0, rain, snow, pm)
        tol = {"rtol": 2e-2 if loose else 1e-6, "atol": 2e-2 if loose else 1e-6}
        for k, v in o.items():
            got = g("land_cover" if k == "plant_height" else "evapotranspiration", k)
            q = known & np.isfinite(v) if k in ("crop_coeff", "water_stress_coeff") else known
            kw = dict(tol)
            if k == "evaporation":
                q = known & ~sealed
                ck.close(got[sealed], v[sealed], "evaporation of sealed surfaces", rtol=2e-2,
                         atol=1e-6, step=t)
                ref.store[sealed] += (v - got)[sealed]
            if k == "evapotranspiration":
                q = known & ~sealed
                ck.close(got[sealed], g("evapotranspiration", "evaporation")[sealed],
                         "sealed surfaces transpire", step=t)
            if k == "plant_height":
                q = known & ~sealed
            ck.close(got[q], v[q], k, step=t, date=str(m.date), **kw)
        ge = lambda v: g("evapotranspiration", v)  # noqa: E731
        De, Dr, st = ge("cum_soil_surface_depletion"), ge("cum_root_zone_depletion"), \
            ge("sealed_interception")
        dual = np.array([bool(k) and ref.cls[k][0] == "dual" for k in lc])
        soil = np.isfinite(ref.taw)
        ck.close(De[dual], ref.De[dual], "surface layer depletion", step=t, **tol)
        ck.close(Dr[soil], ref.Dr[soil], "root zone depletion", step=t, **tol)
        ck.close(st[sealed], ref.store[sealed], "water on sealed surfaces", step=t, **tol)
        # -- bounds and balances, independent of the formulas
        et = ge("evapotranspiration")
        ck.check_all((et >= 0)[known], "evapotranspiration negative or missing", et=et[known],
                     lc=lc[known])
        ck.check_all((De >= 0)[dual] & (De <= ref.tew + 1e-9)[dual], "surface depletion out of bounds")
        ck.check_all((Dr >= 0)[soil] & (Dr <= ref.taw + 1e-9)[soil], "root depletion out of bounds")
        ck.check_all((st >= 0)[sealed] & (st <= 0.935 + 1e-9)[sealed], "sealed storage out of bounds")
        cov = known & snow & (lc != 1)
        ck.check_all(et[cov] == 0, "evapotranspiration below snow", et=et[cov])
        R = np.nan_to_num(rain)
        dp = ge("deep_percolation")
        bal = before[1] - R + et + dp - Dr
        inner = soil & (Dr < ref.taw - 1e-9)
        ck.check_all(np.abs(bal)[inner] < (3e-2 if loose else 1e-6), "root zone balance",
                     bal=bal[inner], lc=lc[inner])
        q = sealed & ~snow
        b2 = before[2] + R - et - dp - st
        ck.check_all(np.abs(b2)[q] < 1e-6, "balance of sealed surfaces", bal=b2[q])
        q = sealed & snow
        ck.check_all((st == before[2])[q] | (np.abs(st - before[2]) < 1e-9)[q],
                     "water on snow-covered sealed surfaces changed")
        if loose:
            ref.De[dual], ref.Dr[soil] = De[dual], Dr[soil]
        ck.transitions(n)
    nodes, _ = words.prefix_nodes(wl)
    ck.states(nodes * len(combos))
    ck.traces(n)
    ck.outcome((str(case), round(float(np.nansum(ref.Dr)), 4)))
