"""C18: sun position, clear-sky irradiance, cloudiness state machine, longwave irradiance."""

import itertools
import math

import numpy as np
import pandas as pd

from .. import domain, refmet, refsun
from .. import refterrain as rt

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "cloudiness: 2 stations x availability of shortwave radiation / humidity / cloud fraction per "
    "step; every ordered pair of availability symbols occurs in a day->night and a night->day step",
    "two published variants of the aerosol forward scattering ratio are accepted (one per run)",
    "time steps at which a shadow boundary is within 1e-7 of a pixel are skipped",
]

FAST = {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index",
                                                 "threshold_temp": 0.0,
                                                 "degree_day_factor": 0.0}}}
LAPSE_T = [-0.0040, -0.0050, -0.0063, -0.0067, -0.0068, -0.0069, -0.0070, -0.0070, -0.0069,
           -0.0066, -0.0055, -0.0044]
LAPSE_TD = [-0.0041, -0.0042, -0.0048, -0.0039, -0.0038, -0.0037, -0.0033, -0.0037, -0.0040,
            -0.0047, -0.0048, -0.0049]


def cases(tier):
    th = tier != "quick"
    out = [{"kind": "sun", "lat": lat, "th": th} for lat in (-72.0, -33.5, 0.0, 46.8, 69.0)]
    # clear sky
    tzs = [(1, None), (1, 0), (0, 1), (2, -5), (-3, 4)]
    days = ["2020-01-15", "2020-03-20", "2020-06-21", "2020-10-04", "2021-12-31"]
    par = [{}, {"ozone_layer_thickness": 0.002}, {"atmospheric_visibility": 60000.0},
           {"single_scattering_albedo": 0.7}, {"clear_sky_albedo": 0.2}]
    for i, ((tz, sim), day) in enumerate(itertools.product(tzs, days)):
        if not th and (i % 5 + i // 5) % 2:
            continue
        out.append({"kind": "clear", "tz": tz, "sim": sim, "day": day, "par": par[(i + i // 5) % 5],
                    "pattern": ["relief", "flat", "bowl"][i % 3]})
    for day in days if th else days[1:4:2]:  # a region completely in the shadow for hours
        out.append({"kind": "clear", "tz": 1, "sim": None, "day": day, "par": {}, "pattern": "pit"})
    # cloudiness
    al1 = ["", "s", "h", "sh"]
    al2 = ["", "s", "h", "c"] if not th else ["", "s", "h", "c", "sc", "hc"]
    for start in (0, 12):
        for fb, geo in itertools.product((True, False), ("in", "outroi", "outgrid", "ext")):
            for night in ("humidity", "constant"):
                if not th and geo in ("outroi", "outgrid") and (night == "constant") != fb:
                    continue
                out.append({"kind": "cloud", "method": "clear_sky_fraction", "night": night,
                            "fb": fb, "start": start, "alphabet": al1, "geo": geo})
                if geo in ("in", "ext") and (th or night == "humidity" or start == 0):
                    out.append({"kind": "cloud", "method": "prescribed", "night": night, "fb": fb,
                                "start": start, "alphabet": al2, "geo": geo})
            if geo != "outroi":
                out.append({"kind": "cloud", "method": "humidity", "night": "humidity", "fb": fb,
                            "start": start, "alphabet": ["", "h", "sh"], "geo": geo,
                            "hum": [700, 0.832, 58.4] if fb else [600, 0.7, 40.0]})
    # longwave
    for eps, rock in ((0.976, 0.01), (0.9, 0.01), (0.976, 0.03)):
        out.append({"kind": "lw", "eps": eps, "rock": rock})
    for eps in (0.99, 0.95):
        out.append({"kind": "out", "eps": eps})
    return out


def run_case(case, ck):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, ck)


# ---------------------------------------------------------------------------------------------
def run_sun(case, ck):
    from openamundsen.modules.radiation import sun_parameters

    lat = case["lat"]
    combos = list(itertools.product((-120.0, 0.0, 11.3, 170.0), (-8, 0, 1, 12)))
    k = 0
    for day in pd.date_range("2020-01-01", "2020-12-31", freq="1D"):
        for hour in range(24):
            k += 1
            if k % (1 if case["th"] else 3):
                continue
            lon, tz = combos[(k * 7) % len(combos)]
            date = day + pd.Timedelta(hours=hour, minutes=(k * 17) % 60)
            p = sun_parameters(date, lon, lat, tz)
            vec, da = refsun.sun(date, tz, lon, lat)
            ck.close(p["sun_vector"], vec, "sun vector", atol=1e-9, date=str(date), lon=lon, tz=tz)
            ck.close(p["day_angle"], da, "day angle")
            ck.close(p["zenith_angle"], 90 - refsun.elevation(vec), "zenith angle", atol=1e-6)
            if abs(vec[2]) > 1e-9:
                ck.check(bool(p["sun_over_horizon"]) == (vec[2] > 0), "sun above the horizon",
                         date=str(date))
            ck.transitions()
        ck.states()
        ck.outcome(round(float(vec[2]), 3))


# ---------------------------------------------------------------------------------------------
def _center(x0, y0, rows, cols):
    return refmet.lonlat(x0 + 50 * cols / 2, y0 + 50 * rows / 2)


def _shadows(dem, vec, sure_only=True):
    hor = rt.horizon(dem[None], 50.0, refsun.azimuth(vec))[0]
    t = math.tan(math.radians(refsun.elevation(vec)))
    if (np.abs(hor - t) < 1e-7).any():
        return None
    return (hor < t).astype(int)


def _terrain(pattern):
    if pattern == "flat":
        dem = np.full((4, 5), 1800.0)
        svf = np.ones(dem.shape)
    elif pattern == "relief":
        dem = np.array([[2000, 2090, 2210, 2150, 2105], [2010, 2050, 2140, 2161, 2123],
                        [2035, 2042, 2081, 2111, 2104], [3107, 2007, 2013, 2063, 2071.0]])
        svf = np.round((1 - (dem - 2000) / 4000) * 1024) / 1024
    else:
        dem = np.array([[903, 880, 870, 881, 911], [842, 733, 701, 745, 850],
                        [839, 721, 712, 741, 859], [907, 858, 862, 874, 915.0]])
        svf = np.where(dem < 800, 0.625, 0.875)
    return dem, svf


def run_clear(case, ck):
    import openamundsen as oa

    dem, svf = _terrain(case["pattern"])
    roi = np.ones(dem.shape, dtype=bool)
    roi[1, 2] = roi[3, 0] = False
    if case["pattern"] == "pit":
        roi = dem < 740
    d = domain.Scratch()
    try:
        g = domain.make_grids(d.sub("g"), dem, svf=svf, roi=roi.astype(int))
        over = {"timezone": case["tz"], "meteo": {"radiation": case["par"]}}
        if case["sim"] is not None:
            over["simulation_timezone"] = case["sim"]
        cfg = domain.base_config(g, d.sub("r"), f"{case['day']} 00:00", f"{case['day']} 23:00",
                                 "1h", **domain.merge(over, FAST))
        temp = 270.0 + np.arange(dem.size).reshape(dem.shape) * 0.7
        rh = 40.0 + np.arange(dem.size).reshape(dem.shape) * 2.5

        def force(m):
            v = m.state.meteo
            fac = 0.3 + 0.02 * m.date.hour
            for name, val in (("temp", temp), ("rel_hum", rh), ("wind_speed", 2.0), ("precip", 0.0),
                              ("cloud_factor", fac), ("cloud_fraction", 0.4)):
                v[name][roi] = val[roi] if np.ndim(val) else val

        m = oa.OpenAmundsen(oa.parse_config(cfg))
        m.initialize(meteo_callback=force)
        lon, lat = _center(domain.X0, domain.Y0, *dem.shape)
        normal = rt.normal_vector(dem, 50.0)
        met = refmet.derived(temp, rh, dem)
        variants = {"code", "paper"}
        shift = 0 if case["sim"] is None else case["tz"] - case["sim"]
        for date in pd.date_range(cfg["start_date"], cfg["end_date"], freq="1h"):
            alb = m.state.surface.albedo[roi].mean()
            if np.isnan(alb):
                alb = m.config.soil.albedo
            m.run_single()
            s = m.state.meteo
            vec, da = refsun.sun(date + pd.Timedelta(hours=shift), case["tz"], lon, lat)
            ck.transitions()
            for name in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky", "sw_in"):
                ck.check(np.isnan(s[name][~roi]).all(), f"{name} outside the ROI is not set")
            if abs(vec[2]) < 1e-6:
                continue
            if vec[2] < 0:
                for name in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky", "sw_in"):
                    ck.check((s[name][roi] == 0).all(), "no shortwave irradiance at night",
                             date=str(date), var=name)
                ck.outcome("night")
                continue
            sh = _shadows(dem, vec)
            if sh is None:
                continue
            args = case["par"]
            ok = set()
            for v in sorted(variants):
                ref = refsun.clear_sky(
                    vec, da, sh, dem, svf, normal, met["atmos_press"], met["precipitable_water"],
                    alb, roi, ozone=args.get("ozone_layer_thickness", 0.0035),
                    visibility=args.get("atmospheric_visibility", 25000.0),
                    ssa=args.get("single_scattering_albedo", 0.9),
                    csa=args.get("clear_sky_albedo", 0.0685), ratio=v)
                if vec[2] < math.cos(math.radians(86.8)) or (
                    np.allclose(s.dir_in_clearsky[roi], ref[0][roi], rtol=1e-7, atol=1e-7)
                    and np.allclose(s.diff_in_clearsky[roi], ref[1][roi], rtol=1e-7, atol=1e-7)
                ):
                    ok.add(v)
            ck.check(bool(ok), "clear-sky direct and diffuse irradiance", date=str(date),
                     got=[s.dir_in_clearsky[roi][:3], s.diff_in_clearsky[roi][:3]],
                     expected=[ref[0][roi][:3], ref[1][roi][:3]])
            variants = ok or variants
            ck.check_all(s.diff_in_clearsky[roi] > 0, "diffuse irradiance by day")
            ck.check_all(s.dir_in_clearsky[roi] >= 0, "direct irradiance is not negative")
            ck.check_all(s.sw_in_clearsky[roi] < 1500, "less than the solar constant")
            ck.close(s.sw_in_clearsky[roi], s.dir_in_clearsky[roi] + s.diff_in_clearsky[roi],
                     "global = direct + diffuse irradiance")
            ck.close(s.sw_in[roi], s.sw_in_clearsky[roi] * (0.3 + 0.02 * date.hour),
                     "global irradiance = clear-sky irradiance x cloud factor")
            ck.outcome((round(vec[2], 2), int(sh.sum())))
        ck.states(24)
        ck.traces()
    finally:
        d.remove()


# ---------------------------------------------------------------------------------------------
def de_bruijn(k):
    """Sequence in which every ordered pair of k symbols occurs (Eulerian walk)."""
    succ = {i: list(range(k)) for i in range(k)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if succ[v]:
            stack.append(succ[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def run_cloud(case, ck):
    import openamundsen as oa

    symbols = list(itertools.product(case["alphabet"], repeat=2))
    seq = de_bruijn(len(symbols))
    n = len(seq)
    start = pd.Timestamp("2020-03-01") + pd.Timedelta(hours=case["start"])
    dates = pd.date_range(start, periods=n, freq="12h")
    geo = case["geo"]
    rows, cols, ro, co = 3, 3, 2, 2
    dem = np.array([[1500, 1520, 1545], [1510, 1533, 1561], [1522, 1540, 1570.0]])
    roi = np.ones(dem.shape, dtype=bool)
    svf = np.full(dem.shape, 0.875)
    A = (domain.X0 + 31, domain.Y0 + 77, 1490.0)
    B = {"in": (domain.X0 + 121, domain.Y0 + 40, 1600.0),
         "outroi": (domain.X0 + 121, domain.Y0 + 40, 1600.0),
         "outgrid": (domain.X0 + 421, domain.Y0 + 40, 1600.0),
         "ext": (domain.X0 + 190, domain.Y0 + 10, 1600.0)}[geo]
    if geo == "outroi":
        roi[2, 2] = False
    k = np.arange(n)
    sw = [20.0 + (k * 37) % 700, 10.0 + (k * 53) % 900]
    rh = [30.0 + (k * 7) % 70, 25.0 + (k * 11) % 75]
    cf = [(k * 13) % 101 + 0.0, (k * 29) % 101 + 0.0]
    tmp = [268.0 + (k * 3) % 14, 266.0 + (k * 5) % 14]
    st = []
    for i, (x, y, z) in enumerate((A, B)):
        has = [symbols[q][i] for q in seq]
        s = {"id": "ab"[i], "x": x, "y": y, "alt": z, "temp": tmp[i],
             "wind_speed": np.full(n, 2.0), "precip": np.zeros(n),
             "rel_hum": np.where(["h" in h for h in has], rh[i], np.nan),
             "sw_in": np.where(["s" in h for h in has], sw[i], np.nan)}
        if case["method"] == "prescribed":
            s["cloud_fraction"] = np.where(["c" in h for h in has], cf[i], np.nan)
        st.append(s)
    hum = case.get("hum", [700, 0.832, 58.4])
    d = domain.Scratch()
    try:
        g = domain.make_grids(d.sub("g"), dem, svf=svf, roi=roi.astype(int))
        if geo == "ext":
            E = 8
            big = np.full((E, E), 1550.0)
            big[ro:ro + rows, co:co + cols] = dem
            esvf = np.ones(big.shape)
            esvf[ro:ro + rows, co:co + cols] = svf
            xe, ye = domain.X0 - co * 50, domain.Y0 - (E - ro - rows) * 50
            domain.write_asc(g / f"extended-dem_{domain.DOMAIN}_50.asc", big, 50, xe, ye)
            domain.write_asc(g / f"extended-svf_{domain.DOMAIN}_50.asc", esvf, 50, xe, ye)
        cfg = domain.base_config(
            g, d.sub("r"), str(dates[0]), str(dates[-1]), "12h",
            **domain.merge({
                "input_data": {"meteo": {"format": "memory", "bounds": "global"}},
                "meteo": {"interpolation": {
                    "temperature": {"trend_method": "fixed", "lapse_rate": LAPSE_T},
                    "humidity": {"trend_method": "fixed", "lapse_rate": LAPSE_TD},
                    "cloudiness": {"method": case["method"],
                                   "clear_sky_fraction_night_method": case["night"],
                                   "allow_fallback": case["fb"], "pressure_level": hum[0],
                                   "saturation_cloud_fraction": hum[1],
                                   "e_folding_humidity": hum[2]}}}}, FAST))
        m = oa.OpenAmundsen(oa.parse_config(cfg))
        m.initialize(meteo=refmet.dataset(st, dates))
        lon, lat = _center(domain.X0, domain.Y0, rows, cols)
        X = domain.X0 + 25 + 50 * np.arange(cols)[None, :] + 0 * dem
        Y = domain.Y0 + 25 + 50 * (rows - 1 - np.arange(rows))[:, None] + 0 * dem
        prev = np.full(roi.sum(), np.nan)
        for i, date in enumerate(dates):
            alb = m.state.surface.albedo[roi].mean()
            if np.isnan(alb):
                alb = m.config.soil.albedo
            swe = m.state.snow.swe[roi].copy()
            tsurf = m.state.surface.temp[roi].copy()
            m.run_single()
            s = m.state.meteo
            vec, da = refsun.sun(date, 1, lon, lat)
            day = vec[2] > 0
            got = s.cloud_factor[roi]
            cand = _expected(case, st, i, date, day, s, prev, X[roi], Y[roi], vec, da, alb, geo)
            ok = [c for c in cand if np.allclose(got, c, rtol=1e-6, atol=1e-9, equal_nan=True)]
            label = (case["method"], case["night"], case["fb"], bool(day), symbols[seq[i]])
            ck.check(bool(ok), "cloud factor", date=str(date), symbols=symbols[seq[i]], day=bool(day),
                     previous=prev, got=got, expected=cand[0])
            ck.close(s.cloud_fraction[roi], refsun.cloud_fraction(got), "cloud fraction",
                     atol=1e-9, date=str(date))
            ck.close(s.sw_in[roi], s.sw_in_clearsky[roi] * got, "global irradiance", date=str(date))
            ck.check_all(np.isnan(got) | ((got >= 0) & (got <= 1)), "cloud factor within 0-1")
            pw = refmet.derived(s.temp[roi], s.rel_hum[roi], dem[roi])["precipitable_water"]
            lw = refsun.longwave(s.temp[roi], pw, svf[roi], s.cloud_fraction[roi], s.sw_in[roi],
                                 swe, tsurf)
            ck.close(s.lw_in[roi], lw, "longwave irradiance", rtol=1e-7, date=str(date))
            prev = got.copy()
            ck.transitions()
            ck.outcome((label, geo))
        ck.states(n)
        ck.traces()
    finally:
        d.remove()


def _expected(case, st, i, date, day, s, prev, tx, ty, vec, da, alb, geo):
    """Acceptable cloud factors for a step (one, or one per published scattering ratio variant)."""
    method = case["method"]
    fb = case["fb"]
    if method == "prescribed":
        c = [(q["x"], q["y"], refsun.cloud_factor(q["cloud_fraction"][i] / 100)) for q in st
             if np.isfinite(q["cloud_fraction"][i])]
        if c or not fb:
            return [_interp(c, tx, ty)]
        method = "clear_sky_fraction"
    if method == "clear_sky_fraction":
        if not day:
            method = case["night"]
        else:
            out = []
            for variant in ("code", "paper"):
                c = []
                for j, q in enumerate(st):
                    if not np.isfinite(q["sw_in"][i]):
                        continue
                    if j == 1 and geo in ("outroi", "outgrid"):
                        continue
                    if j == 1 and geo == "ext":
                        if not np.isfinite(q["rel_hum"][i]):
                            continue
                        one = np.ones((1, 1))
                        met = refmet.derived(q["temp"][i] * one, q["rel_hum"][i] * one, 1550.0 * one)
                        normal = np.zeros((3, 1, 1))
                        normal[2] = 1
                        cs = sum(refsun.clear_sky(vec, da, one, 1550.0 * one, one, normal,
                                                  met["atmos_press"], met["precipitable_water"],
                                                  alb, one == 1, ratio=variant))[0, 0]
                    else:
                        col = int((q["x"] - domain.X0) // 50)
                        row = 2 - int((q["y"] - domain.Y0) // 50)
                        cs = s.sw_in_clearsky[row, col]
                    c.append((q["x"], q["y"], q["sw_in"][i] / cs))
                out.append(c)
            if out[0] or not fb:
                return [_interp(c, tx, ty) for c in out]
            method = "humidity"
    if method == "humidity":
        c = []
        mon = date.month - 1
        hum = case.get("hum", [700, 0.832, 58.4])
        for q in st:
            if np.isfinite(q["rel_hum"][i]):
                f = refsun.cloud_fraction_from_humidity(
                    q["temp"][i], q["rel_hum"][i], q["alt"], LAPSE_T[mon], LAPSE_TD[mon],
                    hum[0] * 100, hum[1], hum[2])
                c.append((q["x"], q["y"], float(refsun.cloud_factor(f))))
        if c or not fb:
            return [_interp(c, tx, ty)]
    return [np.where(np.isnan(prev), 0.75, prev)]


def _interp(c, tx, ty):
    if not c:
        return np.full(len(tx), np.nan)
    xs, ys, v = zip(*c)
    return np.clip([refmet.idw(xs, ys, v, a, b) for a, b in zip(tx, ty)], 0, 1)


# ---------------------------------------------------------------------------------------------
def run_lw(case, ck):
    """Longwave irradiance for all snow cover patterns of four pixels x svf x cloudiness."""
    import openamundsen as oa

    dem = np.full((1, 5), 1500.0)
    roi = np.array([[1, 1, 1, 1, 0]], dtype=bool)
    svf = np.array([[1.0, 0.875, 0.625, 0.3125, 1.0]])
    fracs = [0.0, 0.5, 1.0]
    d = domain.Scratch()
    try:
        g = domain.make_grids(d.sub("g"), dem, svf=svf, roi=roi.astype(int))
        for pat in itertools.product((0, 1), repeat=4):
            cfg = domain.base_config(
                g, d.sub("r"), "2020-02-01 00:00", "2020-02-02 12:00", "6h",
                **domain.merge({"meteo": {"radiation": {"cloud_emissivity": case["eps"],
                                                        "rock_emission_factor": case["rock"]}}},
                               FAST))
            step = {"n": 0}

            def force(m, pat=pat):
                v = m.state.meteo
                n = step["n"]
                temp = np.array([[262.0, 265.0, 268.0, 271.0, 0]]) + n
                rh = np.array([[50.0, 60, 70, 90, 0]])
                precip = np.array([[*pat, 0]]) * (5.0 if n == 0 else 0.0)
                frac = fracs[n % 3]
                for name, val in (("temp", temp), ("rel_hum", rh), ("wind_speed", 2.0),
                                  ("precip", precip), ("cloud_fraction", frac),
                                  ("cloud_factor", float(refsun.cloud_factor(frac)))):
                    v[name][roi] = val[roi] if np.ndim(val) else val
                step["n"] += 1

            m = oa.OpenAmundsen(oa.parse_config(cfg))
            m.initialize(meteo_callback=force)
            for i in range(len(m.dates)):
                swe = m.state.snow.swe[roi].copy()
                ts = m.state.surface.temp[roi].copy()
                m.run_single()
                s = m.state.meteo
                pw = refmet.derived(s.temp[roi], s.rel_hum[roi], dem[roi])["precipitable_water"]
                ref = refsun.longwave(s.temp[roi], pw, svf[roi], s.cloud_fraction[roi],
                                      s.sw_in[roi], swe, ts, case["eps"], case["rock"])
                ck.close(s.lw_in[roi], ref, "longwave irradiance", rtol=1e-8, snow=list(pat), step=i)
                ck.transitions()
                ck.outcome((pat, i, int((swe > 0).sum())))
            ck.states()
    finally:
        d.remove()


def run_out(case, ck):
    """Outgoing radiation and net radiation for both snow models."""
    import openamundsen as oa

    dem = np.full((1, 4), 1500.0)
    roi = np.array([[1, 1, 1, 0]], dtype=bool)
    d = domain.Scratch()
    try:
        g = domain.make_grids(d.sub("g"), dem, roi=roi.astype(int))
        for model, t0 in itertools.product(("multilayer", "cryolayers"), (263.0, 272.0, 278.0)):
            cfg = domain.base_config(
                g, d.sub("r"), "2020-02-01 00:00", "2020-02-03 21:00", "3h",
                snow={"model": model}, meteo={"radiation": {"snow_emissivity": case["eps"]}})

            def force(m, t0=t0):
                v = m.state.meteo
                n = m.dates.get_loc(m.date)
                for name, val in (("temp", t0 + np.array([[0.0, 1, 2, 0]])), ("rel_hum", 70.0),
                                  ("wind_speed", 3.0),
                                  ("precip", np.array([[0.0, 1.0, 5.0, 0]]) * (n < 6)),
                                  ("cloud_factor", 0.8), ("cloud_fraction", 0.5)):
                    v[name][roi] = val[roi] if np.ndim(val) else val

            m = oa.OpenAmundsen(oa.parse_config(cfg))
            m.initialize(meteo_callback=force)
            for i in range(len(m.dates)):
                m.run_single()
                s = m.state.meteo
                out = s.lw_out[roi]
                ok = np.isfinite(out)
                ck.check_all((out[ok] / case["eps"] / refmet.SIGMA) ** 0.25 < 330, "surface temp")
                ck.close(s.sw_out[roi][ok], (m.state.surface.albedo * s.sw_in)[roi][ok],
                         "reflected shortwave radiation = albedo x irradiance")
                ck.close(s.net_radiation[roi],
                         (s.sw_in - s.sw_out + s.lw_in - s.lw_out)[roi], "net radiation")
                snow = ok & (m.state.snow.swe[roi] > 0)
                ts = (out[snow] / case["eps"] / refmet.SIGMA) ** 0.25
                # the emitted longwave radiation belongs to a surface temperature of the step
                if model == "cryolayers":
                    ck.close(ts, m.state.surface.temp[roi][snow], "outgoing longwave radiation",
                             atol=1e-6)
                ck.transitions()
                ck.outcome((model, t0, i, int(snow.sum())))
            ck.states()
    finally:
        d.remove()
