"""Reference sun position and clear-sky irradiance (plain Python, from the cited papers)."""

import math

import numpy as np
import pandas as pd

from . import refmet

SOLAR_CONSTANT = 1366.1


def sun(date, tz, lon, lat):
    """(sun vector [east, south, up], day angle) for a local time of the given timezone."""
    date = pd.Timestamp(date)
    doy = date.dayofyear
    hour = date.hour + date.minute / 60 + date.second / 3600
    da = 2 * math.pi * (doy - 1) / 365.25
    eot = (0.0000075 + 0.001868 * math.cos(da) - 0.032077 * math.sin(da)
           - 0.014615 * math.cos(2 * da) - 0.040849 * math.sin(2 * da)) * 720 / math.pi  # minutes
    n = 2 * math.pi / 365.25 * (doy - 79.346)
    dec = math.radians(0.3723 + 23.2567 * math.sin(n) - 0.7580 * math.cos(n)
                       + 0.1149 * math.sin(2 * n) + 0.3656 * math.cos(2 * n)
                       - 0.1712 * math.sin(3 * n) + 0.0201 * math.cos(3 * n))
    solar_time = hour + (4 * (lon - 15 * tz) + eot) / 60
    ha = math.radians(15 * (solar_time - 12))
    phi = math.radians(lat)
    vec = np.array([
        -math.sin(ha) * math.cos(dec),
        math.sin(phi) * math.cos(ha) * math.cos(dec) - math.cos(phi) * math.sin(dec),
        math.cos(phi) * math.cos(ha) * math.cos(dec) + math.sin(phi) * math.sin(dec),
    ])
    return vec, da


def azimuth(vec):
    """Degrees clockwise from north."""
    return math.degrees(math.atan2(vec[0], -vec[1])) % 360


def elevation(vec):
    return math.degrees(math.asin(vec[2]))


def clear_sky(vec, da, shadows, z, svf, normal, press, pw, albedo, roi, ozone=0.0035,
              visibility=25000.0, ssa=0.9, csa=0.0685, ratio="code"):
    """Corripio (2002) direct and diffuse irradiance; ``normal`` = (3, ...) with north positive."""
    zen = math.acos(vec[2])
    ecc = (1.000110 + 0.034221 * math.cos(da) + 0.001280 * math.sin(da)
           + 0.000719 * math.cos(2 * da) + 0.000077 * math.sin(2 * da))
    top = SOLAR_CONSTANT * ecc
    cosi = np.clip(vec[0] * normal[0] - vec[1] * normal[1] + vec[2] * normal[2], 0, None)
    mr = 1 / (math.cos(zen) + 0.15 * (93.885 - math.degrees(zen)) ** -1.253)
    ma = mr * press / 101325.0
    t_r = np.exp(-0.0903 * ma ** 0.84) * (1 + ma - ma ** 1.01)
    lm = ozone * 100 * mr
    t_o = 1 - (0.1611 * lm * (1 + 139.48 * lm) ** -0.3035
               - 0.002715 * lm / (1 + 0.044 * lm + 3e-4 * lm ** 2))
    t_g = np.exp(-0.0127 * ma ** 0.26)
    wm = pw / 10 * mr
    t_v = 1 - 2.4959 * wm / ((1 + 79.034 * wm) ** 0.6828 + 6.385 * wm)
    t_a = (0.97 - 1.265 * (visibility / 1000) ** -0.66) ** (ma ** 0.9)
    t_aa = 1 - (1 - ssa) * (1 - ma + ma ** 1.06) * (1 - t_a)
    bz = 2.2e-5 * np.minimum(z, 3000)
    t_dir = np.clip(t_r * t_o * t_g * t_v * t_a + bz, 0, 1)
    pot = top * cosi * shadows
    direct = 0.9751 * pot * t_dir
    base = 0.79 * top * math.cos(zen) * t_o * t_g * t_v * t_aa / (1 - ma + ma ** 1.02)
    d_r = base * 0.5 * (1 - t_r)
    if ratio == "code":
        f = -0.2562 * zen ** 2 * 0.1409 * zen + 0.9067
    else:
        f = -0.2562 * zen ** 2 + 0.1409 * zen + 0.9067
    d_a = base * f * (1 - t_a / t_aa)
    atm = csa + (1 - f) * (1 - t_a / t_aa)
    d_m = (direct * math.cos(zen) + d_r + d_a) * albedo * atm / (1 - albedo * atm)
    sky = d_r + d_a + d_m
    sunny = (shadows == 1) & roi
    mean_cosi = np.nanmean(cosi[sunny]) if sunny.any() else 0.0
    sun_frac = shadows[roi].mean()
    terrain = (1 - svf) * (pot * t_dir * sun_frac * mean_cosi + sky) * albedo
    return direct, sky * svf + terrain


def cloud_fraction_from_humidity(t, rh, z, lr_t, lr_td, p_level, sat, efold):
    """Walcek (1994), Liston & Elder (2006)."""
    t, rh, z = (np.asarray(v, dtype=float) for v in (t, rh, z))
    z700 = refmet.CP * 288.15 / refmet.G * (1 - (p_level / refmet.P0) ** (1 / refmet.EXP))
    td = refmet.derived(t, rh, z)["dew_point_temp"]
    t7 = t + lr_t * (z700 - z)
    td7 = td + lr_td * (z700 - z)
    rh7 = 100 * refmet.esat(td7) / refmet.esat(t7)
    return np.clip(sat * np.exp((rh7 - 100) / (100 - efold)), 0, 1)


def cloud_factor(frac):
    """Greuell et al. (1997)."""
    frac = np.asarray(frac, dtype=float)
    return np.clip(1 - 0.233 * frac - 0.415 * frac ** 2, 0, 1)


def cloud_fraction(factor):
    """Inverse of ``cloud_factor``."""
    factor = np.asarray(factor, dtype=float)
    x = (-0.233 + np.sqrt(0.233 ** 2 + 4 * 0.415 * (1 - factor))) / (2 * 0.415)
    return np.clip(x, 0, 1)


def longwave(t, pw, svf, frac, sw, swe, tsurf, cloud_eps=0.976, rock=0.01):
    """All arguments for the pixels of the ROI."""
    w = pw / 10
    eps = 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3 * w))
    sky = refmet.SIGMA * t ** 4 * svf * (eps * (1 - frac ** 2) + cloud_eps * frac ** 2)
    free = (swe == 0).mean()
    slopes = refmet.SIGMA * (1 - svf) * (free * (t + rock * sw) ** 4 + (1 - free) * tsurf ** 4)
    return sky + slopes
