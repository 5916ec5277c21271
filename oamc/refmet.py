"""Reference models for meteorological preprocessing (plain Python/NumPy, written from the
documentation and the cited papers; nothing of the package is used)."""

import math

import numpy as np
import pandas as pd

from . import domain

T0 = 273.15
P0 = 101325.0
G = 9.80665
CP = 1004.68506
M_DRY = 0.02896968
R_UNI = 8.314462618
R_DRY = 287.058
LV = 2.501e6
LF = 0.334e6
SIGMA = 5.670374419e-8
ICE = (610.71, 22.44, 272.44)
WATER = (610.78, 17.08, 234.18)
EXP = CP * M_DRY / R_UNI


def esat(t, over=None):
    """Saturation vapor pressure (Pa), Magnus formula."""
    tc = np.asarray(t, dtype=float) - T0
    ew = WATER[0] * np.exp(WATER[1] * tc / (WATER[2] + tc))
    ei = ICE[0] * np.exp(ICE[1] * tc / (ICE[2] + tc))
    if over == "water":
        return ew
    if over == "ice":
        return ei
    return np.where(tc >= 0, ew, ei)


def pressure(z):
    return P0 * (1 - G * np.asarray(z, dtype=float) / (CP * 288.15)) ** EXP


def derived(t, rh, z):
    """Derived meteorological variables as a dict."""
    t, rh, z = (np.asarray(v, dtype=float) for v in (t, rh, z))
    p = pressure(z)
    es = esat(t)
    e = es * rh / 100
    q = 0.622 * e / (p - 0.378 * e)
    cp = CP * (1 + 0.84 * q)
    lv = LV - 2361.0 * (t - T0)
    gamma = cp * p / (0.622 * lv)
    ew = esat(t, "water") * rh / 100
    with np.errstate(divide="ignore", invalid="ignore"):
        lg = np.log(ew / WATER[0])
        td = WATER[2] * lg / (WATER[1] - lg) + T0
    return {"atmos_press": p + 0 * t, "sat_vap_press": es, "vap_press": e, "spec_hum": q,
            "spec_heat_cap_moist_air": cp, "lat_heat_vap": lv, "psych_const": gamma,
            "dew_point_temp": td, "precipitable_water": 46.5 * (e / 100) / t * 10,
            "dry_air_density": p / (R_DRY * t)}


def wet_bulb(t, e, gamma):
    """Wet-bulb temperature by bisection of e = es(tw) - gamma * (t - tw) (scalars)."""
    if not (math.isfinite(t) and math.isfinite(e)):
        return math.nan
    lo, hi = t - 80, t + 5
    for _ in range(60):
        mid = (lo + hi) / 2
        if float(esat(mid)) - gamma * (t - mid) > e:
            hi = mid
        else:
            lo = mid
    return (lo + hi) / 2


def snow_fraction(t, thr, rng):
    t = np.asarray(t, dtype=float)
    if rng == 0:
        f = np.where(t < thr, 1.0, 0.0)
    else:
        f = np.clip((thr + rng / 2 - t) / rng, 0, 1)
    return np.where(np.isnan(t), 0.0, f)


def idw(xs, ys, v, tx, ty):
    """Inverse distance squared weighting for one target point."""
    num = den = 0.0
    for x, y, z in zip(xs, ys, v):
        if not math.isfinite(z):
            continue
        d2 = (x - tx) ** 2 + (y - ty) ** 2
        if d2 == 0:
            return z
        num += z / d2
        den += 1 / d2
    return num / den if den > 0 else math.nan


def slope_of(z, v):
    """Least squares trend (0 if undefined)."""
    z = np.asarray(z, dtype=float)
    v = np.asarray(v, dtype=float)
    if len(z) < 2 or z.max() == z.min():
        return 0.0
    zm, vm = z.mean(), v.mean()
    return float(((z - zm) * (v - vm)).sum() / ((z - zm) ** 2).sum())


RANGES = {"temp": (0, np.inf), "precip": (0, np.inf), "rel_hum": (0, 100), "wind_speed": (0.1, np.inf)}


def interp(param, method, lapse, extrapolate, v, xs, ys, zs, txs, tys, tzs, temps=None, ttemps=None):
    """Interpolated values of one parameter at the target points."""
    v, xs, ys, zs = (np.asarray(a, dtype=float) for a in (v, xs, ys, zs))
    ok = np.isfinite(v)
    if temps is not None:
        temps = np.asarray(temps, dtype=float)
        ok &= np.isfinite(temps)
        temps = temps[ok]
    v, xs, ys, zs = v[ok], xs[ok], ys[ok], zs[ok]
    n = len(txs)
    if len(v) == 0:
        return np.full(n, 0.0 if param == "precip" else np.nan)
    d = v
    if param == "rel_hum":
        # the dew point is undefined for a humidity of 0%: no contribution to the field
        d = derived(temps, v, 0.0)["dew_point_temp"]
        ok = np.isfinite(d)
        d, xs, ys, zs = d[ok], xs[ok], ys[ok], zs[ok]
        if len(d) == 0:
            return np.full(n, np.nan)
    out = np.empty(n)
    if method == "regression":
        lapse = slope_of(zs, d)
    elif method == "fractional":
        lapse = lapse * d.mean()
    for i in range(n):
        if method == "adjustment_factor":
            dz = tzs[i] - idw(xs, ys, zs, txs[i], tys[i])
            out[i] = idw(xs, ys, d, txs[i], tys[i]) * (1 + lapse * dz) / (1 - lapse * dz)
        else:
            out[i] = idw(xs, ys, d - lapse * zs, txs[i], tys[i]) + lapse * tzs[i]
    if param == "rel_hum":
        out = 100 * esat(out, "water") / esat(np.asarray(ttemps, dtype=float), "water")
    if not extrapolate:
        out = np.clip(out, v.min(), v.max())
    if param in RANGES:
        out = np.clip(out, *RANGES[param])
    return out


def lonlat(x, y):
    import pyproj

    return pyproj.Transformer.from_crs(domain.CRS, "epsg:4326", always_xy=True).transform(x, y)


def dataset(stations, dates):
    """Point dataset from [{"id", "x", "y", "alt", <param>: array, ...}, ...]."""
    import openamundsen as oa

    dss = []
    for s in stations:
        lon, lat = lonlat(s["x"], s["y"])
        data = {k: np.asarray(a, dtype=float) for k, a in s.items()
                if k not in ("id", "x", "y", "alt", "name")}
        dss.append(oa.forcing.make_point_dataset(
            pd.DataFrame(data, index=dates), point_id=s["id"], name=s.get("name", s["id"]),
            lon=lon, lat=lat, alt=s["alt"]))
    return oa.forcing.combine_point_datasets(dss)
