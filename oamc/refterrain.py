"""Reference models for terrain parameters (plain NumPy, written from the documentation and the
cited papers; nothing of the package is used).  All functions taking ``dems`` accept stacks of DEMs
(n, rows, cols)."""

import functools
import math

import numpy as np

COMPASS = {"N": 0, "NE": 45, "E": 90, "SE": 135, "S": 180, "SW": 225, "W": 270, "NW": 315}
STEP = {"N": (-1, 0), "NE": (-1, 1), "E": (0, 1), "SE": (1, 1), "S": (1, 0), "SW": (1, -1),
        "W": (0, -1), "NW": (-1, -1)}


def sun_vec(azim, elev):
    a, e = math.radians(azim), math.radians(elev)
    return np.array([math.sin(a) * math.cos(e), -math.cos(a) * math.cos(e), math.sin(e)])


def gradient(dems, res):
    """Horn's finite differences (eastward, southward), outermost pixels repeated at the edges."""
    z = np.pad(dems, ((0, 0), (1, 1), (1, 1)), mode="edge")
    r, c = dems.shape[1:]

    def at(dr, dc):
        return z[:, 1 + dr:1 + dr + r, 1 + dc:1 + dc + c]

    gx = sum(w * (at(dr, 1) - at(dr, -1)) for dr, w in ((-1, 1), (0, 2), (1, 1))) / (8 * res)
    gy = sum(w * (at(1, dc) - at(-1, dc)) for dc, w in ((-1, 1), (0, 2), (1, 1))) / (8 * res)
    return gx, gy


def slope_aspect(dems, res):
    """Slope (deg) and downslope direction (deg clockwise from north; NaN where flat)."""
    gx, gy = gradient(dems, res)
    slope = np.degrees(np.arctan(np.hypot(gx, gy)))
    # downslope vector: east = -gx, north = gy (rows go southward, +gy = rising to the south)
    aspect = np.degrees(np.arctan2(-gx, gy)) % 360
    aspect[(np.abs(gx) < 1e-12) & (np.abs(gy) < 1e-12)] = np.nan
    return slope, aspect


def normal_vector(dem, res):
    """Corripio (2003): mean normal of the cell spanned by a pixel and its right/upper/upper-right
    neighbours; first row and last column are taken from the adjacent row/column."""
    rows, cols = dem.shape
    out = np.zeros((3, rows, cols))
    for r in range(rows):
        for c in range(cols):
            i, j = max(r, 1), min(c, cols - 2)
            a, b, d, e = dem[i, j], dem[i, j + 1], dem[i - 1, j], dem[i - 1, j + 1]
            v = np.array([0.5 * res * (a - b + d - e), 0.5 * res * (a + b - d - e), res * res])
            out[:, r, c] = v / math.sqrt((v * v).sum())
    return out


def lit_compass(dem, res, direction, elev):
    """Pixels not blocked by any pixel toward the sun (exact for the compass directions)."""
    rows, cols = dem.shape
    dr, dc = STEP[direction]
    unit = res * math.hypot(dr, dc)
    t = math.tan(math.radians(elev))
    out = np.ones(dem.shape, dtype=int)
    for r in range(rows):
        for c in range(cols):
            k = 1
            while 0 <= r + k * dr < rows and 0 <= c + k * dc < cols:
                if dem[r + k * dr, c + k * dc] - dem[r, c] > k * unit * t:
                    out[r, c] = 0
                k += 1
    return out


@functools.lru_cache(maxsize=None)
def scan_pairs(shape, azim, sweeps=1):
    """(pixel, pixel toward the sun, distance in pixels) along the scanning lines of Corripio
    (2003): lines start at the ``sweeps`` outermost rows/columns facing the sun and advance by one
    pixel in the dominant direction."""
    rows, cols = shape
    v = sun_vec(azim, 0.0)
    if abs(v[0]) < 1e-12:
        v[0] = 0
    if abs(v[1]) < 1e-12:
        v[1] = 0
    m = max(abs(v[0]), abs(v[1]))
    ix, iy = -v[0] / m, -v[1] / m
    unit = math.hypot(ix, iy)
    if sweeps == -1:
        sweeps = max(shape)
    starts = [(r, c) for r in range(rows) for c in range(cols)
              if (r < sweeps if v[1] < 0 else r >= rows - sweeps)
              or (c < sweeps if v[0] < 0 else c >= cols - sweeps)]
    pairs = {}
    for r0, c0 in starts:
        line = []
        n = 0
        while True:
            r, c = round(r0 + iy * n), round(c0 + ix * n)
            if not (0 <= r < rows and 0 <= c < cols):
                break
            for k, (rq, cq) in enumerate(line):
                key = (r * cols + c, rq * cols + cq)
                d = (n - k) * unit
                pairs[key] = min(d, pairs.get(key, math.inf))
            line.append((r, c))
            n += 1
    if not pairs:
        return np.zeros(0, int), np.zeros(0, int), np.zeros(0)
    p, q = np.array(list(pairs)).T
    return p, q, np.array(list(pairs.values()))


def horizon(dems, res, azim, sweeps=1):
    """Tangent of the horizon elevation angle toward ``azim`` for a stack of DEMs."""
    n, rows, cols = dems.shape
    p, q, d = scan_pairs((rows, cols), azim, sweeps)
    flat = dems.reshape(n, -1)
    out = np.full((rows * cols, n), -np.inf)
    if len(p):
        ang = ((flat[:, q] - flat[:, p]) / (d * res)).T
        ang = np.where(np.isnan(ang), -np.inf, ang)  # pixels without elevation do not block
        np.maximum.at(out, p, ang)
    return out.T.reshape(n, rows, cols)


def lit(dems, res, azim, elev, sweeps=1):
    return (horizon(dems, res, azim, sweeps) <= math.tan(math.radians(elev))).astype(int)


def sky_view_factor(dems, res, sweeps=1, azims=tuple(range(0, 360, 10))):
    """Mean over the azimuths of cos^2 of the lowest visible elevation angle (1 degree steps from 1
    up to the maximum slope of the DEM)."""
    n, rows, cols = dems.shape
    if (rows, cols) == (1, 1):
        return np.ones(dems.shape)
    top = np.ones(n)
    if rows >= 3 and cols >= 3:
        slope, _ = slope_aspect(dems, res)
        top = np.maximum(np.ceil(np.round(np.nanmax(slope, axis=(1, 2)), 10)), 1)
    total = np.zeros(dems.shape)
    for a in azims:
        hor = np.degrees(np.arctan(horizon(dems, res, a, sweeps)))
        elev = np.clip(np.ceil(hor - 1e-9), 1, None)
        elev = np.minimum(elev, top[:, None, None])
        total += np.cos(np.radians(elev)) ** 2
    return total / len(list(azims))


def curvature(dem, res, L):
    """Liston et al. (2007); neighbours at the length scale (in whole pixels), edges repeated."""
    rows, cols = dem.shape
    k = math.ceil(L / res)

    def z(r, c):
        return dem[min(max(r, 0), rows - 1), min(max(c, 0), cols - 1)]

    out = np.zeros(dem.shape)
    for r in range(rows):
        for c in range(cols):
            s = 0.0
            for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1)):
                d = 2 * L * math.hypot(dr, dc)
                s += (dem[r, c] - (z(r + k * dr, c + k * dc) + z(r - k * dr, c - k * dc)) / 2) / d
            out[r, c] = s / 4
    return out


def openness(dem, res, L, negative=False):
    """Yokoyama et al. (2002): minimum zenith angles toward the eight compass directions within L;
    positions outside of the grid count as level.  Returns (8, rows, cols)."""
    if negative:
        dem = -dem
    rows, cols = dem.shape
    out = np.zeros((8, rows, cols))
    for d, (dr, dc) in enumerate(STEP.values()):
        for r in range(rows):
            for c in range(cols):
                best = math.inf
                for k in range(1, math.ceil(L / res) + 1):
                    i, j = r + k * dr, c + k * dc
                    z = dem[i, j] if 0 <= i < rows and 0 <= j < cols else dem[r, c]
                    ang = math.pi / 2 - math.atan2(z - dem[r, c], k * res * math.hypot(dr, dc))
                    if not math.isnan(ang):
                        best = min(best, ang)
                out[d, r, c] = best
    return out
