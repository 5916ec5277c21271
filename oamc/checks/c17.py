"""C17: terrain parameters, shadows, sky view factor, curvature, openness vs. reference models."""

import itertools
import math

import numpy as np

from .. import domain, refmet, refsun
from .. import refterrain as rt

JIT = True
NUMBA_THREADS = 4
LEVEL = "model_checking"
ASSUMPTIONS = [
    "elevations and sun angles are chosen such that no horizon angle coincides with a sun elevation",
    "all 3x3 DEMs over three elevations; larger and non-square DEMs from structured families",
]

LEV = np.array([0.0, 37.0, 91.0])
RES = 50.0


def all_dems(n, part, parts, levels=LEV, shape=(3, 3)):
    """Part of all DEMs of the shape over the levels, as stack."""
    size = shape[0] * shape[1]
    k = len(levels)
    idx = np.arange(part, k ** size, parts)
    digits = (idx[:, None] // k ** np.arange(size)) % k
    return np.asarray(levels)[digits].reshape(-1, *shape)


def patterns(rows, cols):
    """Structured larger DEMs."""
    r, c = np.mgrid[:rows, :cols].astype(float)
    out = {
        "ridge": 100.0 + 83.0 * (c == cols // 2),
        "peak": 400.0 / (1 + (r - rows // 2) ** 2 + (c - cols // 3) ** 2),
        "pit": 300.0 - 250.0 / (1 + (r - rows // 2) ** 2 + (c - cols // 2) ** 2),
        "plane": 2000 + 13.0 * c - 29.0 * r,
        "stairs": 31.0 * ((r * 7 + c * 5) % 4),
        "noise": np.array([[(i * 7919 + j * 104729 + i * j * 31) % 211 for j in range(cols)]
                           for i in range(rows)], dtype=float),
    }
    return out


def cases(tier):
    th = tier != "quick"
    out = []
    parts = 16
    for p in range(parts):
        out.append({"kind": "slope", "part": p, "parts": parts})
    n = 24
    for p in range(n):
        out.append({"kind": "shadow", "part": p, "parts": n,
                    "elevs": [17, 33, 52] if th else [[17], [33], [52]][p % 3]})
    shapes = [(1, 1), (1, 5), (5, 1), (2, 2), (2, 6), (6, 2), (3, 7), (7, 3), (8, 8), (5, 12)]
    for sh in shapes:
        out.append({"kind": "azim", "shape": sh, "th": th})
    for p in range(8):
        out.append({"kind": "svf", "part": p, "parts": 8, "levels": [0.0, 61.0]})
    if th:
        for p in range(24):
            out.append({"kind": "svf", "part": p * 40 + 7, "parts": 960, "levels": list(LEV)})
    for sh in shapes:
        out.append({"kind": "misc", "shape": sh})
    for sh in [(5, 5), (4, 7), (6, 4)]:
        out.append({"kind": "gaps", "shape": sh, "th": th})
    out.append({"kind": "threads", "n": 60})
    if th:
        out.append({"kind": "threads", "n": 240})
    for ext, down, sweeps in itertools.product((False, True), (1, 2, 3), (1, 2, -1)):
        if not th and ext and sweeps == 2:
            continue
        out.append({"kind": "model", "ext": ext, "down": down, "sweeps": sweeps,
                    "pattern": "noise" if sweeps == 1 else "ridge"})
    for pat in ("ridge", "peak", "pit", "plane", "stairs", "noise"):
        out.append({"kind": "file", "pattern": pat, "ext": pat in ("peak", "noise")})
    return out


def run_case(case, ck):
    import numba

    numba.set_num_threads(1)
    globals()["run_" + case["kind"]](case, ck)


def _slope(ck, dem, res, what):
    from openamundsen import terrain

    before = dem.copy()
    slope, aspect = terrain.slope_aspect(dem, res)
    nv = terrain.normal_vector(dem, res)
    ck.check(np.array_equal(dem, before), "the DEM is not altered")
    if min(dem.shape) < 3:
        ck.close(slope, np.zeros(dem.shape), "DEMs smaller than 3x3 are level")
        ck.check(np.isnan(aspect).all(), "DEMs smaller than 3x3 have no aspect")
        ck.close(nv, np.stack([np.zeros(dem.shape), np.zeros(dem.shape), np.ones(dem.shape)]),
                 "DEMs smaller than 3x3 are level (normal vector)")
        return
    s, a = (v[0] for v in rt.slope_aspect(dem[None].astype(float), res))
    ck.close(slope, s, f"slope follows Horn's formula ({what})", atol=1e-8, dem=dem)
    ok = ~np.isnan(a)
    diff = np.abs((np.asarray(aspect, float) - np.where(ok, a, 0) + 180) % 360 - 180)
    ck.check_all(diff[ok] < 1e-6, f"aspect is the downslope direction ({what})",
                 got=np.asarray(aspect)[ok], expected=a[ok])
    ck.check_all((np.asarray(aspect)[ok] >= 0) & (np.asarray(aspect)[ok] <= 360),
                 "aspect is within 0-360 degrees", got=np.asarray(aspect)[ok])
    ck.close(nv, rt.normal_vector(dem.astype(float), res), f"surface normal ({what})", dem=dem)
    ck.close((nv ** 2).sum(axis=0), np.ones(dem.shape), "the surface normal has unit length")


def run_slope(case, ck):
    dems = all_dems(9, case["part"], case["parts"], levels=(0.0, 1.0, 2.0))
    for i, dem in enumerate(dems):
        if i % 4 == 0 or case["part"] < 4:
            res = (1.0, 3.0, 50)[i % 3]
            _slope(ck, dem, res, "3x3")
            ck.states()
    ck.transitions(len(dems))


def run_shadow(case, ck):
    from openamundsen.modules.radiation import shadows

    dems = all_dems(9, case["part"], case["parts"])
    dems = dems[:: 1 if case["part"] % 2 else 2]
    for name, az in rt.COMPASS.items():
        for elev in case["elevs"]:
            ref = rt.lit(dems, RES, az, elev)
            if az % 90 == 0 and case["part"] == 0:
                for k in range(0, len(dems), 50):  # the two references agree
                    assert (ref[k] == rt.lit_compass(dems[k], RES, name, elev)).all()
            sv = rt.sun_vec(az, elev)
            for i, dem in enumerate(dems):
                # (exact vectors for the cardinal directions)
                got = shadows(dem, RES, np.where(np.abs(sv) < 1e-12, 0.0, sv) if i % 2 else sv)
                if not np.array_equal(got, ref[i]):
                    ck.fail("a pixel is in the shadow iff terrain toward the sun blocks it",
                            dem=dem, azimuth=az, elevation=elev, got=got, expected=ref[i])
            ck.c["assertions"] += dems.size
            ck.transitions(len(dems))
            ck.outcome((az, elev, int(ref.sum())))
    ck.states(len(dems))


def run_azim(case, ck):
    from openamundsen.modules.radiation import shadows

    rows, cols = case["shape"]
    pats = patterns(rows, cols)
    az_all = sorted(set(range(0, 360, 5)) | {1, 89, 91, 179, 181, 269, 271, 359})
    azs = az_all if case["th"] else az_all[::2] + [45, 135, 225, 315, 1, 89, 271, 359]
    for name, dem in pats.items():
        for az in azs:
            prev = None
            for elev in (3.3, 17.1, 33.7, 52.3, 80.9):
                sv = rt.sun_vec(az, elev)
                res = {}
                for sweeps in (1, 2, -1):
                    ref = rt.lit(dem[None], RES, az, elev, sweeps)[0]
                    got = shadows(dem, RES, sv, num_sweeps=sweeps)
                    ck.check(np.array_equal(got, ref),
                             "shadows for arbitrary azimuths and numbers of sweeps",
                             pattern=name, azimuth=az, elevation=elev, sweeps=sweeps,
                             got=got, expected=ref)
                    res[sweeps] = got
                    ck.transitions()
                got = res[1]
                ck.check((res[-1] <= got).all(), "further sweeps only add shadows")
                ck.check(got[np.unravel_index(dem.argmax(), dem.shape)] == 1,
                         "the highest pixel is never in the shadow", pattern=name, azimuth=az)
                if prev is not None:
                    ck.check((got >= prev).all(), "a higher sun never adds shadows",
                             pattern=name, azimuth=az, elevation=elev)
                prev = got
                # invariances
                ck.check(np.array_equal(shadows(dem + 1024.0, RES, sv), got),
                         "shadows do not depend on the elevation datum")
                ck.check(np.array_equal(shadows(dem * 2, RES * 2, sv), got),
                         "shadows do not depend on the unit of length")
                ck.outcome((name, az, elev, int(got.sum())))
            ck.states()
        for elev in (17.1, 33.7, 52.3):
            for k, (d, az) in enumerate(rt.COMPASS.items()):
                base = rt.lit_compass(dem, RES, d, elev)
                for turns in range(4):
                    rot = np.ascontiguousarray(np.rot90(dem, -turns))
                    got = shadows(rot, RES, rt.sun_vec(az + 90 * turns, elev))
                    ck.check(np.array_equal(got, np.rot90(base, -turns)),
                             "shadows for the compass directions, rotated terrain",
                             pattern=name, direction=d, turns=turns, elevation=elev)


def run_svf(case, ck):
    from openamundsen import terrain

    dems = all_dems(9, case["part"], case["parts"], levels=case["levels"])
    ref = rt.sky_view_factor(dems, RES)
    for i, dem in enumerate(dems):
        got = terrain.sky_view_factor(dem, RES)
        ck.close(got, ref[i], "sky view factor", atol=1e-9, dem=dem)
        ck.check_all((got > 0) & (got <= 1), "sky view factor within 0-1", got=got)
        ck.transitions(36)
        ck.outcome(round(float(got.sum()), 6))
    ck.states(len(dems))


def run_misc(case, ck):
    from openamundsen import terrain

    rows, cols = case["shape"]
    for name, dem in patterns(rows, cols).items():
        _slope(ck, dem, RES, name)
        _slope(ck, dem, 7.5, name)
        if rows * cols <= 40:
            for dt in (float, "float32"):
                if dt == "float32" and name != "stairs":
                    continue
                got = terrain.sky_view_factor(dem.astype(dt), RES, num_sweeps=2)
                ck.close(got, rt.sky_view_factor(dem[None], RES, 2)[0], f"sky view factor ({name})")
            for a0, a1, st in ((0, 360, 50), (90, 270, 45), (0, 360, 90)):
                z = dem * 1.0137  # (avoids horizons of whole degrees)
                got = terrain.sky_view_factor(z, RES, min_azim=a0, max_azim=a1, azim_step=st)
                ck.close(got, rt.sky_view_factor(z[None], RES, azims=range(a0, a1, st))[0],
                         "sky view factor for given azimuths", pattern=name, azims=(a0, a1, st))
        for L in (1.0, 50.0, 60.0, 120.0, 500.0):
            got = terrain.curvature(dem, RES, "liston", L=L)
            ck.close(got, rt.curvature(dem, RES, L), "topographic curvature", pattern=name, L=L)
            ck.transitions()
        ck.close(terrain.curvature(dem, RES, "liston"), rt.curvature(dem, RES, RES),
                 "the default length scale of the curvature is the resolution")
        for L, neg in itertools.product((50.0, 110.0, 400.0), (False, True)):
            ref = rt.openness(dem, RES, L, neg)
            got = terrain.openness(dem, RES, L, negative=neg)
            ck.close(got, ref.mean(axis=0), "topographic openness", pattern=name, L=L, negative=neg)
            got = terrain.openness(dem, RES, L, negative=neg, mean=False)
            ck.close(np.sort(got, axis=0), np.sort(ref, axis=0),
                     "topographic openness in the eight directions", pattern=name, L=L)
            ck.transitions()
        if name == "plane" and min(rows, cols) >= 3:
            s, a = terrain.slope_aspect(dem, RES)
            n = terrain.normal_vector(dem, RES)
            i, j = rows // 2, cols // 2
            nxy = [math.sin(math.radians(s[i, j])) * math.sin(math.radians(a[i, j])),
                   math.sin(math.radians(s[i, j])) * math.cos(math.radians(a[i, j])),
                   math.cos(math.radians(s[i, j]))]
            ck.close(n[:, i, j], nxy, "slope/aspect and surface normal of a plane agree")
        ck.states()


def gap_masks(rows, cols):
    """Patterns of pixels without a valid elevation."""
    r, c = np.mgrid[:rows, :cols]
    out = [(r == i) & (c == j) for i in range(rows) for j in range(cols)]
    out += [c == cols // 2, r == rows // 2, c == cols - 1, r == 0, r == c,
            (r == 0) | (c == 0), (r == 1) & (c > 0), (r + c) < 3, (r + c) % 3 == 0]
    return out


def run_gaps(case, ck):
    """DEMs with missing elevations: these pixels neither block the sun nor reset the horizon."""
    from openamundsen import terrain
    from openamundsen.modules.radiation import shadows

    rows, cols = case["shape"]
    azs = range(0, 360, 15 if case["th"] else 45)
    for name, full in patterns(rows, cols).items():
        for k, mask in enumerate(gap_masks(rows, cols)):
            dem = np.where(mask, np.nan, full * 1.0137)  # (avoids horizons of whole degrees)
            ok = ~mask
            for az, elev, sweeps in itertools.product(list(azs) + [100, 200], (17.1, 33.7, 52.3),
                                                      (1, -1)):
                ref = rt.lit(dem[None], RES, az, elev, sweeps)[0]
                got = shadows(dem, RES, rt.sun_vec(az, elev), num_sweeps=sweeps)
                ck.check(np.array_equal(got[ok], ref[ok]), "shadows with missing elevations",
                         pattern=name, mask=mask, azimuth=az, elevation=elev, sweeps=sweeps,
                         got=got, expected=ref)
                ck.transitions()
            s, _ = rt.slope_aspect(dem[None], RES)
            if np.isfinite(s).any():
                got = terrain.sky_view_factor(dem, RES)
                ck.close(got[ok], rt.sky_view_factor(dem[None], RES)[0][ok],
                         "sky view factor with missing elevations", pattern=name, mask=mask)
                ck.check_all((got[ok] > 0) & (got[ok] <= 1), "sky view factor within 0-1")
                s0 = np.asarray(terrain.slope_aspect(dem, RES)[0])
                ck.close(s0, s[0], "slope with missing elevations", pattern=name, mask=mask)
            for neg in (False, True):
                got = terrain.openness(dem, RES, 110.0, negative=neg)
                ref = rt.openness(dem, RES, 110.0, neg).mean(axis=0)
                fin = np.isfinite(ref) & ok
                ck.close(got[fin], ref[fin], "openness with missing elevations", pattern=name,
                         mask=mask, negative=neg)
            ck.states()
            ck.outcome((name, k))


def run_threads(case, ck):
    """The results do not depend on the number of threads."""
    import numba

    from openamundsen import terrain
    from openamundsen.modules.radiation import shadows

    n = case["n"]
    dem = patterns(n, n + 3)["noise"] + patterns(n, n + 3)["peak"]
    res = {}
    for threads in (1, 2, 4):
        numba.set_num_threads(threads)
        for rep in range(1 if threads == 1 else 4):
            cur = [terrain.openness(dem, RES, 1500.0),
                   terrain.openness(dem, RES, 1500.0, negative=True)]
            cur += [shadows(dem, RES, rt.sun_vec(az, el), num_sweeps=sw)
                    for az in (0, 33, 45, 118, 200, 275) for el in (5.5, 22.2) for sw in (1, 3)]
            for k, v in enumerate(cur):
                ck.check(np.array_equal(v, res.setdefault(k, v)),
                         "terrain parameters do not depend on the number of threads",
                         threads=threads, item=k)
            ck.traces()
            ck.transitions(len(cur))
    numba.set_num_threads(1)
    ref = rt.openness(dem[:20, :20], RES, 150.0).mean(axis=0)
    ck.close(terrain.openness(dem[:20, :20].copy(), RES, 150.0), ref, "topographic openness")
    for az, el in itertools.product((0, 33, 45, 118, 200, 275), (5.5, 22.2)):
        ck.check(np.array_equal(shadows(dem, RES, rt.sun_vec(az, el)),
                                rt.lit(dem[None], RES, az, el)[0]), "shadows of a larger DEM")
    ck.states()


def _model(case, d, ext, svf, pat, **over):
    """Model whose grid is a part of the extended DEM (or the whole DEM)."""
    import openamundsen as oa

    ER, EC, R, C, ro, co = 11, 13, 5, 6, 3, 4
    big = patterns(ER, EC)[pat] * 3 + 1500.0
    big = np.floor(big * 4) / 4
    if ext:
        dem = big[ro:ro + R, co:co + C]
        x0, y0 = domain.X0 + co * 50, domain.Y0 + (ER - ro - R) * 50
    else:
        dem, x0, y0 = big, domain.X0, domain.Y0
    g = d.sub("g")
    domain.make_grids(g, dem, svf=svf, x0=x0, y0=y0)
    if ext:
        domain.write_asc(g / f"extended-dem_{domain.DOMAIN}_50.asc", big, 50, domain.X0, domain.Y0)
        if svf is not None:
            domain.write_asc(g / f"extended-svf_{domain.DOMAIN}_50.asc", np.ones(big.shape), 50,
                             domain.X0, domain.Y0)
    cfg = domain.base_config(g, d.sub("r"), "2020-03-20 00:00", "2020-03-20 23:00", "1h", **over)
    return oa, cfg, g, big, dem, (ro, co)


def _start(oa, cfg):
    def force(m):
        v = m.state.meteo
        for name, val in (("temp", 275.0), ("rel_hum", 60.0), ("wind_speed", 2.0), ("precip", 0.0),
                          ("sw_in", 0.0), ("lw_in", 250.0)):
            v[name][m.grid.roi] = val

    m = oa.OpenAmundsen(oa.parse_config(cfg))
    m.initialize(meteo_callback=force)
    return m


def run_model(case, ck):
    """Zero pattern of the direct irradiance over a day vs. the reference shadows."""
    d = domain.Scratch()
    try:
        oa, cfg, g, big, dem, off = _model(
            case, d, case["ext"], np.ones((5, 6) if case["ext"] else (11, 13)), case["pattern"],
            meteo={"radiation": {"shadows_downsampling_factor": case["down"],
                                 "num_shadow_sweeps": case["sweeps"]}})
        days = ["2020-03-20", "2020-06-21", "2020-12-21"]
        for day in days:
            _model_day(case, ck, oa, cfg, d, big, dem, off, day)
    finally:
        d.remove()


def _model_day(case, ck, oa, cfg, d, big, dem, off, day):
    cfg = dict(cfg, start_date=f"{day} 00:00", end_date=f"{day} 23:00",
               results_dir=str(d.sub("r")))
    n = _start(oa, cfg)
    lon, lat = _center(case, dem)
    k = case["down"]
    normal = rt.normal_vector(dem, RES)
    seen = set()
    for date in n.dates:
        n.run_single()
        vec, _ = refsun.sun(date, 1, lon, lat)
        direct = n.state.meteo.dir_in_clearsky
        diffuse = n.state.meteo.diff_in_clearsky
        total = n.state.meteo.sw_in_clearsky
        ck.transitions()
        if abs(vec[2]) < 1e-6:
            continue
        if vec[2] < 0:
            ck.check((direct == 0).all() and (diffuse == 0).all() and (total == 0).all(),
                     "no shortwave irradiance while the sun is below the horizon", date=str(date))
            continue
        low = (big if case["ext"] else dem)[::k, ::k]
        hor = rt.horizon(low[None], RES * k, refsun.azimuth(vec), case["sweeps"])[0]
        t = math.tan(math.radians(refsun.elevation(vec)))
        cosi = vec[0] * normal[0] - vec[1] * normal[1] + vec[2] * normal[2]
        hor = hor.repeat(k, axis=0).repeat(k, axis=1)
        if case["ext"]:
            hor = hor[off[0]:off[0] + 5, off[1]:off[1] + 6]
        else:
            hor = hor[: dem.shape[0], : dem.shape[1]]
        sure = (np.abs(hor - t) > 1e-7) & (np.abs(cosi) > 1e-7)
        sunny = (hor < t) & (cosi > 0)
        ck.check_all((~sure) | ((direct > 0) == sunny),
                     "direct irradiance is zero exactly where the terrain shades the pixel or the "
                     "slope faces away from the sun", got=direct, horizon=hor,
                     tan_sun_elevation=np.full(hor.shape, t), date=np.full(hor.shape, str(date)))
        ck.check_all(diffuse > 0, "diffuse irradiance also in the shadow", got=diffuse)
        ck.close(total, direct + diffuse, "global = direct + diffuse irradiance")
        seen.add(int(sunny.sum()))
    ck.states(len(n.dates))
    ck.outcome((case["ext"], k, case["pattern"], day, tuple(sorted(seen))))


def _center(case, dem):
    rows, cols = dem.shape
    x0 = domain.X0 + (4 * 50 if case["ext"] else 0)
    y0 = domain.Y0 + ((11 - 3 - 5) * 50 if case["ext"] else 0)
    return refmet.lonlat(x0 + 50 * (cols - 1) / 2 + 25, y0 + 50 * (rows - 1) / 2 + 25)


def run_file(case, ck):
    """Terrain state variables of the model; written sky view factor file and re-read."""
    d = domain.Scratch()
    try:
        for sweeps in (1, 3):
            oa, cfg, g, big, dem, off = _model(
                case, d, case["ext"], None, case["pattern"],
                meteo={"radiation": {"num_shadow_sweeps": sweeps},
                       "interpolation": {"wind": {"method": "liston",
                                                  "curvature_length_scale": 120}}})
            ref = rt.sky_view_factor((big if case["ext"] else dem)[None], RES, sweeps)[0]
            if case["ext"]:
                ref = ref[off[0]:off[0] + 5, off[1]:off[1] + 6]
            for rnd in (0, 1):
                m = _start(oa, dict(cfg, results_dir=str(d.sub("r"))))
                b = m.state.base
                ck.close(b.dem, dem, "the DEM of the model")
                ck.close(b.svf, ref, "sky view factor of the model" + (" (from file)" if rnd else ""),
                         atol=1e-9 if rnd == 0 else 5.01e-4, sweeps=sweeps)
                s, a = (v[0] for v in rt.slope_aspect(dem[None], RES))
                ck.close(b.slope, s, "slope of the model", atol=1e-8)
                ok = ~np.isnan(a)
                ck.check_all(np.abs((b.aspect - np.where(ok, a, 0) + 180) % 360 - 180)[ok] < 1e-6,
                             "aspect of the model")
                ck.close(b.normal_vec, rt.normal_vector(dem, RES),
                         "surface normal of the model")
                c = rt.curvature(dem, RES, 120.0)
                sc = (c - c.min()) / (c.max() - c.min()) - 0.5
                ck.close(b.scaled_curvature, sc, "curvature scaled to -0.5 to 0.5")
                ck.traces()
                ck.transitions()
            ck.states()
    finally:
        d.remove()
