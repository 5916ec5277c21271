"""C10: spatial interpolation of the station data."""

import itertools

import numpy as np
import pandas as pd

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "3 (thorough: 4) stations with all availability masks per variable, 5 station layouts, "
    "a 2x3 model grid with 5 ROI pixels",
    "piecewise regression is compared (0.3 K) with an exhaustive break point search for all numbers of "
    "stations (2-5) below and above one inversion, exact and noisy data, 4 segment requirements and 3 thresholds",
]

NAN = float("nan")
SHAPE = (2, 3)
DEM = np.array([[1500.0, 1700.0, 2350.0], [900.0, 1500.0, 1100.0]])
ROI = np.array([[1, 1, 1], [1, 0, 1]])

# station layouts: (x, y) offsets from the lower left corner and elevations
LAYOUTS = {
    "mixed": [(25.0, 25.0, 900.0), (1200.0, -300.0, 1650.0), (-800.0, 2500.0, 2400.0),
              (60.0, 70.0, 1320.0)],
    "flat": [(10.0, 20.0, 1200.0), (400.0, 800.0, 1200.0), (-5000.0, 100.0, 1200.0),
             (130.0, 40.0, 1200.0)],
    "sealevel": [(10.0, 20.0, 0.0), (400.0, 800.0, 0.0), (-5000.0, 100.0, 0.0),
                 (130.0, 40.0, 10.0)],
    "colocated": [(75.0, 80.0, 1000.0), (75.0, 80.0, 1500.0), (500.0, 500.0, 2000.0),
                  (75.0, 80.0, 1500.0)],
    "far": [(9e4, 1e4, 300.0), (-5e4, -7e4, 3200.0), (1e4, 8e4, 1500.0), (3e4, -8e4, 1501.0)],
}
LAPSE = {"temperature": [-0.001 * (k + 1) for k in range(12)],
         "precipitation": [1e-4 * (k + 1) for k in range(12)],
         "humidity": [-0.0005 * (k + 1) for k in range(12)],
         "wind": [0.0002 * (k + 1) for k in range(12)]}


def cases(tier):
    out = []
    ns = 3 if tier == "quick" else 4
    for lay in LAYOUTS:
        for (t, te), p, pe, (h, he) in itertools.product(
                itertools.product(("regression", "fixed"), (True, False)),
                ("regression", "adjustment_factor", "fractional"), (True, False),
                itertools.product(("regression", "fixed"), (True, False))):
            if tier == "quick" and pe != he and p != "regression":
                continue
            out.append({"kind": "field", "layout": lay, "temp": [t, te], "precip": [p, pe],
                        "hum": [h, he], "wind": [t, he], "ns": ns, "zero_rh": lay == "far", "start": "2020-01-30 00:00"})
    for month in range(1, 13):
        out.append({"kind": "field", "layout": "mixed", "temp": ["fixed", True],
                    "precip": ["fractional" if month % 2 else "adjustment_factor", True],
                    "hum": ["fixed", True], "wind": ["fixed", True], "ns": 2,
                    "start": f"2019-{month:02d}-03 00:00"})
    for lay, ext in itertools.product(LAYOUTS, (True, False)):
        for dem in ("hilly", "flat", "plane"):
            out.append({"kind": "liston", "layout": lay, "extrapolate": ext, "ns": ns, "dem": dem})
    for lay in LAYOUTS:
        out.append({"kind": "segments", "layout": lay, "ns": ns})
        out.append({"kind": "segments", "layout": lay, "ns": ns, "fixed": True})
        out.append({"kind": "permute", "layout": lay})
    for var, mp, (noise, thr) in itertools.product(
            ("temp", "rel_hum"), (2, 3, 4, 5), ((0.0, None), (1.0, None), (1.0, 3), (1.0, 9))):
        if tier == "thorough" or var == "temp" or (mp < 4 and thr != 3):
            out.append({"kind": "piecewise", "var": var, "min_points": mp, "noise": noise, "thr": thr})
    for var, k, trend in itertools.product(("temp", "rel_hum"), (1, 2, 3),
                                           ([265, 275, 262, 266], [260, 262, 276, 272])):
        out.append({"kind": "nseg", "var": var, "max_segments": k, "trend": trend})
    return out


def values(i, k):
    """Station values (temp, rh, wind, precip) of station k in step i."""
    return (262.0 + 4.1 * k + (i * 7 % 23), 12.0 + (31 * k + 17 * i) % 88,
            (0.0, 0.05, 2.0, 7.5)[(i + k) % 4] + 0.3 * k, (0.0, 0.0, 1.5, 8.0, 3.0)[(2 * i + k) % 5])


def targets(roi=ROI, dem=DEM):
    rr, cc = np.nonzero(roi)
    tx = [domain.X0 + domain.RES * (c + 0.5) for c in cc]
    ty = [domain.Y0 + domain.RES * (SHAPE[0] - 1 - r + 0.5) for r in rr]
    return tx, ty, dem[rr, cc]


def make_stations(lay, ns, n, masks, gust=False, wdir=False, zero_rh=False):
    st = []
    for k in range(ns):
        dx, dy, z = LAYOUTS[lay][k]
        v = np.array([values(i, k) for i in range(n)]).reshape(n, 4)
        for i in range(n):
            for j in range(4):
                if not masks[i][j] >> k & 1:
                    v[i, j] = NAN
        if zero_rh:
            v[::3, 1] = np.where(np.isfinite(v[::3, 1]) & (k == 0), 0.0, v[::3, 1])
            v[1::3, 1] = np.where(np.isfinite(v[1::3, 1]) & (k == 1), 0.5, v[1::3, 1])
        s = {"id": f"s{k}", "x": domain.X0 + dx, "y": domain.Y0 + dy, "alt": z, "temp": v[:, 0],
             "rel_hum": v[:, 1], "wind_speed": v[:, 2], "precip": v[:, 3], "sw_in": np.zeros(n)}
        if gust:
            g = np.array([values(i, k)[2] for i in range(n)]) * 1.7 + 0.1
            # gusts and mean wind speeds are not necessarily available at the same stations
            s["wind_speed_gust"] = np.where([bool((mk[2] * 5 + i) >> k & 1) for i, mk in enumerate(masks)],
                                            g, NAN) if not wdir else v[:, 2] * 1.7 + 0.1
        if wdir:
            s["wind_dir"] = (np.arange(n) * 61.0 + 100 * k) % 360
        st.append(s)
    return st


def build(ck, st, dates, interp, dem=DEM, roi=ROI):
    import openamundsen as oa

    g = domain.make_grids(ck.scratch.sub("g"), dem, roi=roi)
    cfg = domain.base_config(g, ck.scratch.sub("r"), str(dates[0]), str(dates[-1]), "3h",
                             input_data={"meteo": {"format": "memory"}},
                             extend_roi_with_stations=False,
                             meteo={"interpolation": {"cloudiness": {"method": "humidity"}}})
    domain.merge(cfg["meteo"]["interpolation"], interp)
    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo=refmet.dataset(st, dates))
    return m


def mask_steps(ns):
    """All (temperature, humidity) availability masks; the others are cycled through."""
    full = 2 ** ns
    return [(a, b, (a + 3 * b) % full, (3 * a + b + i) % full)
            for i, (a, b) in enumerate(itertools.product(range(full), repeat=2))]


def reference(st, i, month, case_cfg, tx, ty, tz):
    """Reference fields (temp, rel_hum, wind_speed, precip[, gusts]) of step i."""
    xs, ys, zs = ([s[c] for s in st] for c in ("x", "y", "alt"))
    get = lambda p: [s[p][i] for s in st]  # noqa: E731
    out = {}
    for p, key in (("temp", "temperature"), ("precip", "precipitation"), ("wind_speed", "wind")):
        meth, ext = case_cfg[key]
        out[p] = refmet.interp(p, meth, LAPSE[key][month - 1], ext, get(p), xs, ys, zs, tx, ty, tz)
    meth, ext = case_cfg["humidity"]
    out["rel_hum"] = refmet.interp("rel_hum", meth, LAPSE["humidity"][month - 1], ext,
                                   get("rel_hum"), xs, ys, zs, tx, ty, tz, temps=get("temp"),
                                   ttemps=out["temp"])
    if "wind_speed_gust" in st[0]:
        meth, ext = case_cfg["wind"]
        out["wind_speed_gust"] = refmet.interp(
            "wind_speed", meth, LAPSE["wind"][month - 1], ext, get("wind_speed_gust"), xs, ys, zs,
            tx, ty, tz)
    return out


def compare(ck, m, ref, roi=ROI, **info):
    r = roi.astype(bool)
    for p, v in ref.items():
        ck.close(np.array(m.state.meteo[p])[r], v, f"interpolated {p}", rtol=1e-5, atol=1e-5, **info)
    mm = m.state.meteo
    ck.check(not (np.array(mm.precip)[r] < 0).any(), "negative precipitation", **info)
    rh = np.array(mm.rel_hum)[r]
    ck.check(not ((rh < 0) | (rh > 100)).any(), "relative humidity out of range", **info)
    ck.check(not (np.array(mm.wind_speed)[r] < 0.1).any(), "wind speed below the minimum", **info)


def cfg_of(case):
    return {"temperature": case["temp"], "precipitation": case["precip"], "humidity": case["hum"],
            "wind": case["wind"]}


def interp_cfg(cc):
    return {k: {"trend_method": v[0], "extrapolate": v[1], "lapse_rate": LAPSE[k]}
            for k, v in cc.items()}


def field_case(case, ck):
    ns = case["ns"]
    masks = mask_steps(ns)
    n = len(masks)
    dates = pd.date_range(case["start"], periods=n, freq="3h")
    st = make_stations(case["layout"], ns, n, masks, gust=case["layout"] in ("mixed", "flat"),
                       zero_rh=case.get("zero_rh", False))
    cc = cfg_of(case)
    m = build(ck, st, dates, interp_cfg(cc))
    tx, ty, tz = targets()
    for i in range(n):
        m.run_single()
        ref = reference(st, i, dates[i].month, cc, tx, ty, tz)
        compare(ck, m, ref, step=i, masks=masks[i])
        ck.states(len(tx))
        ck.transitions(len(tx))
    ck.traces(len(tx))
    ck.outcome((str(case), round(float(np.nansum(ref["temp"])), 6)))


def uv(ws, wd):
    return -ws * np.sin(np.deg2rad(wd)), -ws * np.cos(np.deg2rad(wd))


def norm(a):
    lo, hi = np.nanmin(a), np.nanmax(a)
    if not hi > lo:
        return np.where(np.isnan(a), np.nan, 0.0)
    return (a - lo) / (hi - lo) - 0.5


def liston_case(case, ck):
    """Wind distribution of Liston & Elder (2006)."""
    ns = case["ns"]
    masks = [(2 ** ns - 1, 2 ** ns - 1, w, 0) for w in range(2 ** ns)]
    n = len(masks)
    dates = pd.date_range("2020-03-30 12:00", periods=n, freq="3h")
    st = make_stations(case["layout"], ns, n, masks, gust=True, wdir=True)
    for s in st:
        s["wind_dir"][n // 2] = NAN  # direction missing: no contribution
    rows, cols = 5, 6
    y, x = np.mgrid[0:rows, 0:cols]
    dem = {"hilly": 1500 + 60 * np.sin(x * 1.3) + 45 * np.cos(y * 2.1) + 3.0 * x * y,
           "flat": np.full((rows, cols), 1500.0), "plane": 1500.0 + 20.0 * x - 10.0 * y}[case["dem"]]
    ext = case["extrapolate"]
    m = build(ck, st, dates, {"wind": {"method": "liston", "trend_method": "fixed",
                                       "lapse_rate": LAPSE["wind"], "extrapolate": ext,
                                       "curvature_length_scale": 100.0}},
              dem=dem, roi=np.ones((rows, cols)))
    # curvature with a length scale of two pixels, edge values repeated
    pad = np.pad(dem, 2, mode="edge")
    sh = lambda dr, dc: pad[2 + dr:2 + dr + rows, 2 + dc:2 + dc + cols]  # noqa: E731
    L = 100.0
    curv = ((dem - (sh(0, -2) + sh(0, 2)) / 2) / (2 * L) + (dem - (sh(-2, 0) + sh(2, 0)) / 2) / (2 * L)
            + (dem - (sh(2, -2) + sh(-2, 2)) / 2) / (2 * np.sqrt(2) * L)
            + (dem - (sh(-2, -2) + sh(2, 2)) / 2) / (2 * np.sqrt(2) * L)) / 4
    sc = norm(np.where(np.abs(curv - curv.mean()) < 1e-12, curv.mean(), curv)).ravel()
    slope = np.array(m.state.base.slope).ravel()
    aspect = np.array(m.state.base.aspect).ravel()
    tx = (domain.X0 + domain.RES * (x + 0.5)).ravel()
    ty = (domain.Y0 + domain.RES * (rows - 1 - y + 0.5)).ravel()
    tz = dem.ravel()
    xs, ys, zs = ([s[c] for s in st] for c in ("x", "y", "alt"))
    for i in range(n):
        m.run_single()
        for var in ("wind_speed", "wind_speed_gust"):
            ws = np.array([s[var][i] for s in st])
            wd = np.array([s["wind_dir"][i] for s in st])
            ws = np.where(np.isnan(wd), np.nan, ws)
            u, v = uv(ws, wd)
            lapse = LAPSE["wind"][dates[i].month - 1]
            a = (lapse, ext)
            ui = refmet.interp("wind_vec", "fixed", *a, u, xs, ys, zs, tx, ty, tz)
            vi = refmet.interp("wind_vec", "fixed", *a, v, xs, ys, zs, tx, ty, tz)
            sp = np.hypot(ui, vi)
            dr = np.rad2deg(np.arctan2(-ui, -vi)) % 360
            d = np.deg2rad(dr - aspect)
            s_ = np.deg2rad(slope) * np.cos(d)
            got = np.array(m.state.meteo[var]).ravel()
            if np.isnan(sp).all():
                ck.check(np.isnan(got).all(), "wind without data", step=i)
                continue
            if case["dem"] == "hilly" and np.ptp(s_) > 1e-6:
                om = norm(s_)
                w = 1 + 0.58 * om + 0.42 * sc
                ck.close(got, np.clip(sp * w, 0.1, None), f"{var} (liston)", rtol=1e-5, atol=1e-5,
                         step=i)
                if var == "wind_speed":
                    gd = np.array(m.state.meteo.wind_dir).ravel()
                    exp = dr - 0.5 * om * np.sin(-2 * d)
                    diff = (gd - exp + 180) % 360 - 180
                    ck.check_all((np.abs(diff) < 1e-3) | (sp < 1e-6), "wind direction (liston)",
                                 got=gd, expected=exp)
                    ck.check_all((gd >= 0) & (gd <= 360), "wind direction range", got=gd)
            else:
                # no terrain influence can be distinguished: finite and within the weights
                ck.check_all(np.isfinite(got), "wind field missing", got=got, i=np.full(got.shape, i))
                ck.check_all((got >= np.minimum(0.1, 0.5 * sp) - 1e-9)
                             & (got <= np.maximum(0.1, 1.5 * sp) + 1e-9), "wind speed bounds", got=got)
        ck.states(len(tx))
        ck.transitions(len(tx))
    ck.traces(len(tx))
    ck.outcome((case["layout"], case["dem"], ext, round(float(np.nansum(got)), 4)))


def segments_case(case, ck):
    """Fewer stations than required for two segments: identical to the linear regression."""
    ns = case["ns"]
    masks = mask_steps(ns)[:: 1 if ns == 3 else 7]
    n = len(masks)
    dates = pd.date_range("2020-01-30 00:00", periods=n, freq="3h")
    st = make_stations(case["layout"], ns, n, masks)
    cc = {"temperature": ["regression", True], "precipitation": ["regression", True],
          "humidity": ["regression", True], "wind": ["regression", False]}
    ic = interp_cfg(cc)
    if case.get("fixed"):  # the parameters of the regression are irrelevant for the other methods
        cc["temperature"] = cc["humidity"] = ["fixed", True]
        ic = interp_cfg(cc)
    for k in ("temperature", "humidity"):
        ic[k]["regression_params"] = {"max_segments": 3}
    m = build(ck, st, dates, ic)
    tx, ty, tz = targets()
    for i in range(n):
        m.run_single()
        compare(ck, m, reference(st, i, dates[i].month, cc, tx, ty, tz), step=i, masks=masks[i])
        ck.states(len(tx))
        ck.transitions(len(tx))
    ck.traces(len(tx))
    ck.outcome(str(case))


def permute_case(case, ck):
    """The order of the stations is irrelevant."""
    masks = [(15, 15, 15, 15), (7, 14, 11, 13), (6, 6, 9, 3), (1, 1, 8, 4)]
    n = len(masks)
    dates = pd.date_range("2020-06-30 18:00", periods=n, freq="3h")
    st = make_stations(case["layout"], 4, n, masks)
    cc = {"temperature": ["regression", True], "precipitation": ["fractional", True],
          "humidity": ["regression", False], "wind": ["regression", False]}
    tx, ty, tz = targets()
    for perm in itertools.permutations(range(4)):
        m = build(ck, [st[k] for k in perm], dates, interp_cfg(cc))
        for i in range(n):
            m.run_single()
            compare(ck, m, reference(st, i, dates[i].month, cc, tx, ty, tz), step=i, perm=perm)
            ck.states(len(tx))
            ck.transitions(len(tx))
        ck.traces(len(tx))
    ck.outcome(case["layout"])


def best_two(z, v):
    """Continuous least-squares fit with two segments (break point by exhaustive search)."""
    best = None
    for b in np.linspace(z.min(), z.max(), 4001)[1:-1]:
        A = np.column_stack([np.ones_like(z), z - z.min(), np.clip(z - b, 0, None)])
        c, *_ = np.linalg.lstsq(A, v, rcond=None)
        rss = float(((A @ c - v) ** 2).sum())
        if best is None or rss < best[0]:
            best = (rss, b, c)
    rss, b, c = best
    return rss, b, lambda t: c[0] + c[1] * (t - z.min()) + c[2] * np.clip(t - b, 0, None)


def aic(rss, n, k):
    return n * np.log(rss / n) + 2 * k


Z_LOW = [600.0, 700.0, 820.0, 905.0, 1010.0]
Z_HIGH = [1290.0, 1400.0, 1605.0, 1800.0, 2210.0]


def piecewise_case(case, ck):
    """All numbers of stations below and above an inversion, for all segment requirements: two
    segments are used exactly if both have enough points and the AIC improves by the threshold."""
    var, noise, min_pts = case["var"], case["noise"], case["min_points"]
    brk = 1150.0
    zs = np.array(Z_LOW + Z_HIGH)
    eps = noise * np.array([0.3, -0.5, 0.2, 0.4, -0.35, 0.45, -0.2, -0.4, 0.35, -0.1])
    f = lambda a: 265 + np.where(a < brk, 0.006 * (a - brk), -0.008 * (a - brk))  # noqa: E731
    words = [(a, b) for a in range(2, 6) for b in range(2, 6)]
    n = len(words)
    dates = pd.date_range("2020-01-30 00:00", periods=n, freq="3h")
    avail = np.array([[(k if k < 5 else k - 5) < w[0 if k < 5 else 1] for w in words]
                      for k in range(10)])
    trend = np.where(avail, (f(zs) + eps)[:, None], NAN)
    st = []
    for k, a in enumerate(zs):
        temp = trend[k] if var == "temp" else np.full(n, 285.0 - 0.004 * a)
        rh = (np.where(avail[k], 60.0, NAN) if var == "temp"
              else 100 * refmet.esat(trend[k], "water") / refmet.esat(temp, "water"))
        st.append({"id": f"s{k}", "x": domain.X0 + 900 * np.cos(k), "y": domain.Y0 + 700 * np.sin(k),
                   "alt": a, "temp": temp, "rel_hum": rh, "wind_speed": np.full(n, 2.0),
                   "precip": np.zeros(n), "sw_in": np.zeros(n)})
    key = "temperature" if var == "temp" else "humidity"
    xs, ys = (np.array([s[c] for s in st]) for c in ("x", "y"))
    # expected choice per step; thresholds around the AIC improvement of a middle configuration
    fits = []
    for i, (a, b) in enumerate(words):
        ok = np.isfinite(trend[:, i])
        z, v = zs[ok], trend[ok, i]
        rss2, bk, fit = best_two(z, v)
        c = np.polyfit(z, v, 1)
        rss1 = float(((np.polyval(c, z) - v) ** 2).sum())
        gain = aic(rss1, len(z), 2) - (aic(rss2, len(z), 4) if noise else -np.inf)
        cnt = (z <= bk).sum(), (z >= bk).sum()
        fits.append((ok, z, v, bk, fit, gain, cnt))
    gains = sorted(x[5] for x in fits)
    thr = 7.0 if case["thr"] is None else (gains[case["thr"]] + gains[case["thr"] + 1]) / 2
    m = build(ck, st, dates, {key: {"regression_params": {
        "max_segments": 2, "min_points_per_segment": min_pts, "delta_aic_threshold": float(thr)}}})
    tx, ty, tz = targets()
    tt = 285.0 - 0.004 * tz
    r = ROI.astype(bool)
    for i, (ok, z, v, bk, fit, gain, cnt) in enumerate(fits):
        m.run_single()
        got = np.array(m.state.meteo[var])[r]
        edge = np.abs(z - bk).min() < 15  # number of points per segment not robust
        lin = refmet.interp("temp", "regression", 0, True, v, xs[ok], ys[ok], z, tx, ty, tz)
        two = np.array([refmet.idw(xs[ok], ys[ok], v - fit(z), tx[j], ty[j]) + fit(tz[j])
                        for j in range(len(tz))])
        conv = (lambda d: d) if var == "temp" else (  # noqa: E731
            lambda d: np.clip(100 * refmet.esat(d, "water") / refmet.esat(tt, "water"), 0, 100))
        tol = 0.3 if var == "temp" else 2.0
        ok2 = len(z) >= 2 * min_pts and min(cnt) >= min_pts
        isl, ist = (np.abs(got - conv(x)) < tol * y for x, y in ((lin, 1e-3), (two, 1.0)))
        if edge or abs(gain - thr) < 0.5:
            ck.check_all(isl | ist, "piecewise trend", got=got, linear=conv(lin), two=conv(two))
        elif ok2 and gain > thr:
            ck.check_all(ist, f"piecewise {var} trend (two segments)", got=got, expected=conv(two),
                         gain=np.full(len(got), gain), step=np.full(len(got), i))
        else:
            ck.check_all(isl, f"piecewise {var} trend (one segment)", got=got, expected=conv(lin),
                         gain=np.full(len(got), gain), step=np.full(len(got), i))
        ck.states(len(tx))
        ck.transitions(len(tx))
        ck.outcome((var, min_pts, bool(ok2), bool(gain > thr)))
    ck.traces()


def nseg_case(case, ck):
    """Three segments of a trend are only used if allowed."""
    var, maxseg = case["var"], case["max_segments"]
    zs = np.array([400.0, 550, 650, 800, 930, 1070, 1200, 1350, 1480, 1650, 1800, 1950, 2100, 2300])
    f = lambda a: np.interp(a, [400, 1000, 1550, 2300], case["trend"])  # noqa: E731
    dates = pd.date_range("2020-01-30 00:00", periods=2, freq="3h")
    v = f(zs)
    st = []
    for k, a in enumerate(zs):
        t = v[k] if var == "temp" else 285.0 - 0.004 * a
        rh = 60.0 if var == "temp" else 100 * refmet.esat(v[k], "water") / refmet.esat(t, "water")
        st.append({"id": f"s{k}", "x": domain.X0 + 900 * np.cos(k), "y": domain.Y0 + 700 * np.sin(k),
                   "alt": a, "temp": np.full(2, t), "rel_hum": np.full(2, rh),
                   "wind_speed": np.full(2, 2.0), "precip": np.zeros(2), "sw_in": np.zeros(2)})
    key = "temperature" if var == "temp" else "humidity"
    m = build(ck, st, dates, {key: {"regression_params": {
        "max_segments": maxseg, "min_points_per_segment": 2, "delta_aic_threshold": 1.0}}})
    xs, ys = (np.array([s[c] for s in st]) for c in ("x", "y"))
    tx, ty, tz = targets()
    tt = 285.0 - 0.004 * tz
    conv = (lambda d: d) if var == "temp" else (  # noqa: E731
        lambda d: np.clip(100 * refmet.esat(d, "water") / refmet.esat(tt, "water"), 0, 100))
    fit = f
    if maxseg == 2:
        fit = best_two(zs, v)[2]
    elif maxseg == 1:
        c = np.polyfit(zs, v, 1)
        fit = lambda z: np.polyval(c, z)  # noqa: E731
    exp = np.array([refmet.idw(xs, ys, v - fit(zs), tx[j], ty[j]) + float(fit(tz[j]))
                    for j in range(len(tz))])
    inside = (tz >= zs.min()) & (tz <= zs.max())
    m.run_single()
    got = np.array(m.state.meteo[var])[ROI.astype(bool)]
    tol = 0.3 if var == "temp" else 2.0
    ck.check(inside.any(), "no target within the range of the stations")
    ck.check_all(np.abs(got - conv(exp))[inside] < tol, "trend with a limited number of segments",
                 got=got[inside], expected=conv(exp)[inside], max_segments=maxseg)
    ck.states(len(tx))
    ck.transitions(len(tx))
    ck.traces()
    ck.outcome(str(case))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
