"""C13: precipitation correction, phase and redistribution."""

import copy
import itertools

import numpy as np
import pandas as pd

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "letters: 7 air temperatures around the thresholds, 3 humidities, 5 wind speeds, precipitation "
    "dry/wet/missing, each also missing; 3 stations, 5 pixels",
    "wet-bulb temperatures accurate to 0.02 K",
]

NAN = float("nan")
TEMPS = [260.0, 272.9, 273.15, 273.6, 274.65, 276.2, 283.0, NAN]
RHS = [20.0, 75.0, 100.0, NAN]
PRECIPS = [0.0, 0.4, 30.0, NAN]
METHODS = ["temp", "wet_bulb_temp"]
THRESHOLDS = [272.65, 273.65, 274.4]
RANGES = [0.0, 1.0, 2.5]

KOCH = {  # Kochendorfer et al. (2017), Table 3, 10 m wind speeds
    "us_un": (0.045, 1.21, 0.66, 8), "all_sa": (0.03, 1.04, 0.57, 12),
    "nor_sa": (0.05, 0.66, 0.23, 12), "us_sa": (0.03, 1.06, 0.63, 12),
    "us_da": (0.021, 0.74, 0.66, 8), "us_bda": (0.01, 0.48, 0.51, 8),
    "us_sdfir": (0.004, 0.0, 0.0, 8)}
WMO = ["nipher", "tretyakov", "us_sh", "us_unsh", "hellmann"]


# (wind, temperature, snow roughness length)
HEIGHTS = [[5.0, 1.5, 0.002], [2.0, 2.0, 0.02], [1.5, 3.0, 0.01], [20.0, 4.0, 0.1]]


def corrections():
    one = [{"method": "constant_scf", "scf": f} for f in (0.7, 1.0, 1.4)]
    one += [{"method": "wmo", "gauge": g} for g in WMO]
    one += [{"method": "kochendorfer", "gauge": g} for g in KOCH]
    out = [[]] + [[c] for c in one]
    two = [one[2], one[3], one[7], one[8], one[10]]
    out += [[a, b] for a, b in itertools.permutations(two, 2)]
    out += [[{"method": "srf"}]] + [[{"method": "srf"}, two[0]], [two[1], {"method": "srf"}]]
    return out


def cases(tier):
    out = []
    for meth, thr, rng in itertools.product(METHODS, THRESHOLDS, RANGES):
        for srf in (False, True):
            out.append({"kind": "phase", "method": meth, "thr": thr, "range": rng, "srf": srf})
        out.append({"kind": "enforce", "method": meth, "thr": thr, "range": rng,
                    "npix": 4 if tier == "quick" else 5})
    for corr in corrections():
        for meth, rng in itertools.product(METHODS, RANGES):
            if tier == "quick" and len(corr) > 1 and rng != 1.0:
                continue
            out.append({"kind": "stations", "corr": corr, "method": meth, "range": rng})
    for corr in corrections():
        out.append({"kind": "endtoend", "corr": corr})
        if corr:
            out.append({"kind": "others", "corr": corr})
    for g in WMO:
        for h in HEIGHTS:
            out.append({"kind": "stations", "corr": [{"method": "wmo", "gauge": g}],
                        "method": "temp", "range": 1.0, "heights": h})
    for h in HEIGHTS:
        out.append({"kind": "stations", "corr": [{"method": "kochendorfer", "gauge": "us_un"}],
                    "method": "temp", "range": 1.0, "heights": h})
    return out


def phase_cfg(case, enforce=False):
    return {"meteo": {"precipitation_phase": {
        "method": case["method"], "threshold_temp": case["thr"], "temp_range": case["range"],
        "enforce_no_snow_below_rain": enforce}}}


def phase_case(case, ck):
    """Pixel-wise partitioning for all combinations of temperature, humidity, precipitation."""
    import openamundsen as oa

    combos = np.array(list(itertools.product(TEMPS, RHS, PRECIPS)))
    n = len(combos)
    shape = (8, n // 8)
    elev = 100.0 + 25.0 * (np.arange(n) % 97).reshape(shape)
    srf = (0.0 + 0.25 * (np.arange(n) % 9)).reshape(shape)
    ras = {"srf": srf} if case["srf"] else {}
    g = domain.make_grids(ck.scratch.sub("g"), elev, **ras)
    cfg = domain.base_config(g, ck.scratch.sub("r"), "2020-01-10 00:00", "2020-01-10 21:00", "3h")
    domain.merge(cfg, phase_cfg(case))
    if case["srf"]:
        cfg["meteo"]["precipitation_correction"] = [{"method": "srf"}]
    cur = {}

    def force(m):
        k = m.date_idx
        a = np.roll(combos, 13 * k, axis=0)
        cur["a"] = a
        m.state.meteo.temp[:] = a[:, 0].reshape(shape)
        m.state.meteo.rel_hum[:] = a[:, 1].reshape(shape)
        m.state.meteo.precip[:] = a[:, 2].reshape(shape)
        m.state.meteo.wind_speed[:] = 2.0
        m.state.meteo.cloud_fraction[:] = 0.5
        m.state.meteo.cloud_factor[:] = 0.5

    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo_callback=force)
    f_srf = srf.ravel() if case["srf"] else np.ones(n)
    for _ in range(2 if ck.tier == "quick" else 8):
        m.run_single()
        mm = m.state.meteo
        t, rh, p = cur["a"].T
        snow, rain, tot = (np.array(v).ravel() for v in (mm.snowfall, mm.rainfall, mm.precip))
        if case["method"] == "temp":
            frac = refmet.snow_fraction(t, case["thr"], case["range"])
            tol = 1e-9
        else:
            d = refmet.derived(t, rh, elev.ravel())
            tw = np.array([refmet.wet_bulb(*a) for a in zip(t, d["vap_press"], d["psych_const"])])
            tw = np.where(np.isnan(rh), np.nan, tw)
            frac = refmet.snow_fraction(tw, case["thr"], case["range"])
            tol = 0.02 / case["range"] if case["range"] else 1e-9
            if case["range"] == 0:
                near = np.abs(tw - case["thr"]) < 0.05
                frac = np.where(near, np.nan, frac)
        known = np.isfinite(p)
        chk = known & np.isfinite(frac)
        ck.check_all(np.abs(snow - frac * p * f_srf)[chk] <= (tol * p * f_srf + 1e-9)[chk],
                     "snowfall amount", got=snow[chk], t=t[chk], rh=rh[chk], p=p[chk],
                     expected=(frac * p * f_srf)[chk])
        ck.check_all(np.abs(rain - (1 - frac) * p)[chk] <= (tol * p + 1e-9)[chk], "rainfall amount",
                     got=rain[chk], t=t[chk], rh=rh[chk], p=p[chk], expected=((1 - frac) * p)[chk])
        with np.errstate(divide="ignore", invalid="ignore"):
            orig = np.where(f_srf > 0, snow / f_srf, p - rain) + rain
        ck.check_all(np.abs(orig - p)[known] <= 1e-9 * (1 + p[known]), "phases do not add up to the "
                     "precipitation", got=orig[known], p=p[known])
        ck.check_all(np.abs(tot - snow - rain)[known] <= 1e-9 * (1 + p[known]),
                     "total is not the sum of snowfall and rainfall", tot=tot[known])
        ck.check_all((snow >= 0)[known] & (rain >= 0)[known], "negative snowfall or rainfall",
                     snow=snow[known], rain=rain[known])
        gap = ~known
        ck.check_all(np.isnan(snow[gap]) & np.isnan(rain[gap]), "precipitation out of nothing")
        ck.states(n)
        ck.transitions(n)
        ck.traces(n)
    ck.outcome((case["method"], case["thr"], case["range"], round(float(np.nansum(snow)), 6)))


def enforce_case(case, ck):
    """No snowfall at or below the highest elevation with pure rain."""
    import openamundsen as oa

    npix = case["npix"]
    letters = [262.0, case["thr"] + 0.3 * case["range"], 290.0, NAN]
    words = list(itertools.product(letters, repeat=npix))
    elev = np.array([1900.0, 700.0, 1500.0, 1500.0, 400.0])[:npix]
    for enforce in (True, False):
        g = domain.make_grids(ck.scratch.sub("g"), elev[None, :])
        end = str(pd.Timestamp("2020-01-01") + (len(words) - 1) * pd.Timedelta("1h"))
        cfg = domain.base_config(g, ck.scratch.sub("r"), "2020-01-01 00:00", end, "1h")
        domain.merge(cfg, phase_cfg(case, enforce))

        def force(m):
            m.state.meteo.temp[:] = np.array(words[m.date_idx])[None, :]
            m.state.meteo.rel_hum[:] = 100.0
            m.state.meteo.precip[:] = 2.0 + np.arange(npix)[None, :]
            m.state.meteo.wind_speed[:] = 2.0
            m.state.meteo.cloud_fraction[:] = 0.5
            m.state.meteo.cloud_factor[:] = 0.5

        m = oa.OpenAmundsen(cfg)
        m.initialize(meteo_callback=force)
        for w in words:
            m.run_single()
            tp = np.array(w)
            frac = refmet.snow_fraction(tp, case["thr"], case["range"])
            rain = (frac == 0) & np.isfinite(tp)  # (an unknown phase affects the pixel itself only)
            if enforce and rain.any():
                frac = np.where(elev <= elev[rain].max(), 0.0, frac)
            p = 2.0 + np.arange(npix)
            tol = 1e-6 if case["method"] == "temp" else 0.05
            ck.close(m.state.meteo.snowfall[0], frac * p, "snowfall (enforce_no_snow_below_rain)",
                     atol=tol * 10, word=w, enforce=enforce)
            ck.close(m.state.meteo.rainfall[0], (1 - frac) * p, "rainfall", atol=tol * 10, word=w)
            ck.states()
            ck.transitions()
            ck.traces()
    ck.outcome((case["method"], case["thr"], case["range"]))


STAT = [(20.0, 30.0, 1500.0), (900.0, -400.0, 1200.0), (-1500.0, 2500.0, 2100.0)]


def letters_():
    """Letters (temp, rh, wind, precip) of the first station; the other stations follow patterns."""
    return list(itertools.product([263.15, 272.9, 273.7, 275.0, 281.0, NAN], [70.0, 100.0, NAN],
                                  [0.0, 3.0, 9.0, 16.0, NAN], [0.0, 2.5, NAN]))


OTHERS = [  # (temp, rh, wind, precip) of the other two stations
    ((274.2, 80.0, 4.0, 1.0), (268.0, 90.0, 7.5, 3.0)),
    ((NAN, NAN, NAN, 1.0), (NAN, NAN, NAN, NAN)),
    ((271.0, NAN, 2.0, 0.0), (NAN, 95.0, NAN, 5.0)),
]


def factor(c, t, wind, frac, z0, hw=10.0, ht=2.0):
    """Correction factor of one value."""
    if c["method"] == "constant_scf":
        return frac * c["scf"] + 1 - frac
    tc = t - 273.15
    if c["method"] == "kochendorfer":
        a, b, cc, umax = KOCH[c["gauge"]]
        f = np.exp(a * min(wind, umax) * (1 - np.arctan(b * tc) + cc)) if wind == wind else NAN
        return f if np.isfinite(f) else 1.0
    if c["method"] == "wmo":
        if frac == 0:
            return 1.0
        u = min(wind * np.log(ht / z0) / np.log(hw / z0), 7.0) if wind == wind else NAN
        if frac == 1:
            cr = {"nipher": 100 - 0.44 * u ** 2 - 1.98 * u,
                  "tretyakov": 103.11 - 8.67 * u + 0.30 * tc,
                  "us_sh": np.exp(4.61 - 0.04 * u ** 1.75),
                  "us_unsh": np.exp(4.61 - 0.16 * u ** 1.28),
                  "hellmann": 100 + 1.13 * u ** 2 - 19.45 * u}[c["gauge"]]
        else:
            cr = {"nipher": 97.29 - 3.18 * u + 0.58 * tc - 0.67 * tc,
                  "tretyakov": 96.99 - 4.46 * u + 0.88 * tc + 0.22 * tc,
                  "us_sh": 101.04 - 5.62 * u,
                  "us_unsh": 100.77 - 8.34 * u,
                  "hellmann": 96.63 + 0.41 * u ** 2 - 9.84 * u + 5.95 * tc}[c["gauge"]]
        f = 100 / cr
        return f if np.isfinite(f) else 1.0
    return 1.0  # srf: applied to the grids, not to the stations


def stations_case(case, ck):
    import openamundsen as oa

    A = letters_()
    seq = [(a, *o) for o in OTHERS for a in A]
    n = len(seq)
    data = np.array(seq)  # time, station, param
    dates = pd.date_range("2020-11-01", periods=n, freq="3h")
    st = []
    for k, (dx, dy, z) in enumerate(STAT):
        st.append({"id": f"s{k}", "x": domain.X0 + dx, "y": domain.Y0 + dy, "alt": z,
                   "temp": data[:, k, 0], "rel_hum": data[:, k, 1], "wind_speed": data[:, k, 2],
                   "precip": data[:, k, 3], "sw_in": np.full(n, 50.0)})
    ds = refmet.dataset(st, dates)
    before = ds.copy(deep=True)
    srf = np.array([[0.5, 1.0], [2.0, 0.0]])
    g = domain.make_grids(ck.scratch.sub("g"), np.full((2, 2), 1500.0), srf=srf)
    cfg = domain.base_config(
        g, ck.scratch.sub("r"), str(dates[0]), str(dates[-1]), "3h",
        input_data={"meteo": {"format": "memory"}},
        meteo={"precipitation_correction": copy.deepcopy(case["corr"]),
               "precipitation_phase": {"method": case["method"], "threshold_temp": 273.65,
                                       "temp_range": case["range"]},
               "interpolation": {"temperature": {"trend_method": "fixed"},
                                 "humidity": {"trend_method": "fixed"}}})
    hw, ht = 10.0, 2.0
    if case.get("heights"):
        hw, ht, z0 = case["heights"]
        cfg["meteo"]["measurement_height"] = {"wind": hw, "temperature": ht}
        cfg["snow"] = {"roughness_length": z0}
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo=ds)
    ck.check(ds.equals(before), "the forcing dataset of the user was modified")
    ic = m.config.meteo.interpolation
    z0 = m.config.snow.roughness_length
    xs = [s["x"] for s in st]
    ys = [s["y"] for s in st]
    zs = np.array([s["alt"] for s in st])
    got = np.array([m.meteo["precip"].sel(station=f"s{k}").values for k in range(3)]).T
    exp = np.full((n, 3), np.nan)
    tol = np.full((n, 3), 1e-9)
    for i in range(n):
        t, rh, w, p = (data[i, :, j].copy() for j in range(4))
        if not (p > 0).any():
            exp[i] = p
            continue
        mon = dates[i].month - 1
        for v, prm, key in ((t, "temp", "temperature"), (rh, "rel_hum", "humidity"),
                            (w, "wind_speed", "wind")):
            miss = np.isnan(v)
            if miss.any() and not miss.all():
                have = ~miss
                src = data[i, :, {"temp": 0, "rel_hum": 1, "wind_speed": 2}[prm]][have]
                kw = {}
                meth = "regression" if prm == "wind_speed" else "fixed"
                if prm == "rel_hum":
                    kw = {"temps": t[have], "ttemps": t[miss]}
                sel = np.flatnonzero(miss)
                v[miss] = refmet.interp(
                    prm, meth, ic[key].lapse_rate[mon], prm != "wind_speed", src,
                    np.array(xs)[have], np.array(ys)[have], zs[have],
                    [xs[k] for k in sel], [ys[k] for k in sel], zs[sel], **kw)
        if case["method"] == "temp":
            tp = t
            dtol = 0.0
        else:
            d = refmet.derived(t, rh, zs)
            tp = np.array([refmet.wet_bulb(*a) for a in zip(t, d["vap_press"], d["psych_const"])])
            tp = np.where(np.isnan(rh), np.nan, tp)  # counts as rain
            dtol = 0.02
        fr = refmet.snow_fraction(tp, 273.65, case["range"])
        for k in range(3):
            f = 1.0
            skip = False
            for c in case["corr"]:
                f *= factor(c, t[k], w[k], fr[k], z0, hw, ht)
            if dtol:
                # next to the limits of mixed precipitation a tiny difference decides
                for lim in (273.65 - case["range"] / 2, 273.65 + case["range"] / 2):
                    skip |= abs(tp[k] - lim) < 0.05
                tol[i, k] = 0.05 / max(case["range"], 0.1) * 2
            exp[i, k] = NAN if skip else p[k] * f
            if skip:
                got[i, k] = NAN
    ok = np.isclose(got, exp, rtol=0, atol=1e-9, equal_nan=True) | (
        np.abs(got - exp) <= tol * np.abs(exp) + 1e-9)
    ck.check_all(ok, "corrected station precipitation", got=got, expected=exp,
                 data=np.repeat(data.reshape(n, 1, 12), 3, axis=1).transpose(2, 0, 1))
    dry = (data[:, :, 3] == 0)
    ck.check_all(got[dry] == 0, "correction created precipitation")
    ck.states(n * 3)
    ck.transitions(n * 3)
    ck.traces(n)
    ck.outcome((str(case["corr"]), case["method"], case["range"], round(float(np.nansum(got)), 3)))


def endtoend_case(case, ck):
    """Corrected precipitation arrives at the grid (one station, flat terrain)."""
    import openamundsen as oa

    A = [a for a in letters_() if np.isfinite(a[0]) and np.isfinite(a[1]) and a[2] in (3.0, 9.0)]
    n = len(A)
    d = np.array(A)
    dates = pd.date_range("2020-11-01", periods=n, freq="3h")
    ds = refmet.dataset([{"id": "s", "x": domain.X0 + 30, "y": domain.Y0 + 30, "alt": 1500.0,
                          "temp": d[:, 0], "rel_hum": d[:, 1], "wind_speed": d[:, 2],
                          "precip": d[:, 3], "sw_in": np.zeros(n)}], dates)
    srf = np.array([[0.5, 1.0], [2.0, 0.0]])
    g = domain.make_grids(ck.scratch.sub("g"), np.full((2, 2), 1500.0), srf=srf)
    cfg = domain.base_config(
        g, ck.scratch.sub("r"), str(dates[0]), str(dates[-1]), "3h",
        input_data={"meteo": {"format": "memory"}},
        meteo={"precipitation_correction": copy.deepcopy(case["corr"]),
               "precipitation_phase": {"method": "temp", "threshold_temp": 273.65,
                                       "temp_range": 1.0},
               "interpolation": {"cloudiness": {"method": "humidity"}}})
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo=ds)
    z0 = m.config.snow.roughness_length
    has_srf = any(c["method"] == "srf" for c in case["corr"])
    for t, rh, w, p in A:
        m.run_single()
        fr = float(refmet.snow_fraction(t, 273.65, 1.0))
        f = 1.0
        for c in case["corr"]:
            f *= factor(c, t, w, fr, z0)
        p = 0.0 if np.isnan(p) else p * f  # no station available: no precipitation
        s = fr * p * (srf if has_srf else 1.0) * np.ones((2, 2))
        r = (1 - fr) * p * np.ones((2, 2))
        ck.close(m.state.meteo.snowfall, s, "snowfall", rtol=1e-6, atol=1e-6, letter=(t, rh, w, p))
        ck.close(m.state.meteo.rainfall, r, "rainfall", rtol=1e-6, atol=1e-6, letter=(t, rh, w, p))
        ck.close(m.state.meteo.precip, s + r, "precipitation", rtol=1e-6, atol=1e-6)
        ck.states(4)
        ck.transitions(4)
    ck.traces(4)
    ck.outcome((str(case["corr"]), round(float(np.nansum(s)), 6)))


def others_case(case, ck):
    """Correcting precipitation changes nothing but precipitation: interpolated temperature (with
    a piecewise regression), humidity and wind speed are the same with and without it, whichever
    of the recordings are missing."""
    import openamundsen as oa

    n, k = 8, 9
    dates = pd.date_range("2020-11-01", periods=n, freq="3h")
    alt = np.linspace(600.0, 2600.0, k)
    base = np.where(alt < 1500, 280.0 + (alt - 600) * 0.004, 283.6 - (alt - 1500) * 0.008)
    st = []
    for j in range(k):
        miss = np.array([(i >> b) & 1 for b in range(3) for i in range(n)]).reshape(3, n) > 0
        miss &= j % 4 == 1  # every subset of temperature, humidity and wind speed missing
        tt = base[j] + 0.3 * np.arange(n)
        st.append({"id": f"s{j}", "x": domain.X0 + 400.0 * (j % 3) - 350, "alt": alt[j],
                   "y": domain.Y0 + 500.0 * (j // 3) - 420,
                   "temp": np.where(miss[0], NAN, tt),
                   "rel_hum": np.where(miss[1], NAN, 50.0 + 5 * j),
                   "wind_speed": np.where(miss[2], NAN, 1.0 + j),
                   "precip": np.full(n, 0.5 + 0.1 * j), "sw_in": np.full(n, 50.0)})
    ds = refmet.dataset(st, dates)
    g = domain.make_grids(ck.scratch.sub("g"), np.array([[500.0, 1100.0, 1400.0], [1600.0, 2100.0, 2700.0]]),
                          srf=np.full((2, 3), 1.5))
    out = []
    for corr in ([], case["corr"]):
        cfg = domain.base_config(
            g, ck.scratch.sub("r"), str(dates[0]), str(dates[-1]), "3h",
            input_data={"meteo": {"format": "memory"}},
            meteo={"precipitation_correction": copy.deepcopy(corr),
                   "interpolation": {"temperature": {"trend_method": "regression", "regression_params": {
                                         "max_segments": 2, "min_points_per_segment": 3}},
                                     "humidity": {"trend_method": "regression", "regression_params": {
                                         "max_segments": 2, "min_points_per_segment": 3}}}})
        m = oa.OpenAmundsen(cfg)
        m.initialize(meteo=ds.copy(deep=True))
        rows = []
        for _ in range(n):
            m.run_single()
            rows.append([np.array(m.state.meteo[v]) for v in ("temp", "rel_hum", "wind_speed",
                                                              "precip")])
        out.append(np.array(rows))
    a, b = out
    ck.close(b[:, :3], a[:, :3], "precipitation correction changed temperature, humidity or wind",
             rtol=0, atol=0, corr=str(case["corr"]))
    ck.states(n)
    ck.transitions(n)
    ck.traces()
    ck.outcome((str(case["corr"]), bool(np.any(a[:, 3] != b[:, 3]))))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
