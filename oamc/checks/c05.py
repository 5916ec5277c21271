"""C05: the region of interest - pixels are independent, nothing is computed outside."""

import copy
import itertools

import numpy as np
import pandas as pd

from .. import configs, domain, words

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat terrain with sky view factor 1 and night (or spatially uniform forcing) where pixels are "
    "not coupled by design through the mean surface albedo",
    "grids 2x3 (all 63 regions of interest), thorough: 3x3 (all 511)",
]

LETTERS = "SRHNFC"

# diagnostic fields derived with whole-grid operations (no computation outside of the ROI implied)
WHOLE_GRID = {"surface.albedo", "snow.area_fraction", "surface.roughness_length",
              "snow.runoff"}


def cases(tier):
    shape = (2, 3) if tier == "quick" else (3, 3)
    n = shape[0] * shape[1]
    q = tier == "quick"
    out = []
    chunk = 8 if tier == "quick" else 32
    for name, fam in itertools.product(configs.ALL, ("night", "uniform")):
        for lo in range(1, 2 ** n, chunk):
            out.append({"kind": "masks", "config": name, "family": fam, "shape": shape,
                        "masks": [lo, min(lo + chunk, 2 ** n)]})
    for name in ("multi", "cryo"):
        for lo in range(1, 2 ** n, chunk):
            out.append({"kind": "stations", "config": name, "shape": shape,
                        "masks": [lo, min(lo + chunk, 2 ** n)]})
    for name in configs.ALL:
        for start in ("2020-12-20 19:00", "2020-04-30 21:00"):
            for pre in ("", "SSRR", "SCsF"):
                out.append({"kind": "company", "config": name, "start": start, "prefix": pre,
                            "length": 3 if q else 4})
        for mask in (2 ** n - 1, 37):
            out.append({"kind": "demnan", "config": name, "shape": shape, "mask": mask})
    return out


def mask_array(mask, shape):
    n = shape[0] * shape[1]
    return np.array([mask >> i & 1 for i in range(n)]).reshape(shape)


def pixel_words(shape, fam):
    n = shape[0] * shape[1]
    if fam == "uniform":
        return ["SRHNS"] * n
    out = []
    for i in range(n):
        out.append("S" + LETTERS[i % 6] + LETTERS[(i // 2 + 1) % 6] + LETTERS[(5 - i) % 6])
    return out


def build(ck, name, fam, shape, roi, dem=None):
    """Model with a prescribed word per pixel of the full grid."""
    import openamundsen as oa

    n = shape[0] * shape[1]
    wl = pixel_words(shape, fam)
    ras = {k: v.reshape(shape) for k, v in configs.rasters(name, n).items()}
    if fam == "uniform":
        ras = {k: np.full(shape, 5 if k != "glaciers" else 1) for k in ras}
    if dem is None:
        dem = np.full(shape, 1500.0)
    g = domain.make_grids(ck.scratch.sub("g"), dem, roi=roi, **ras)
    # night: 19:00 to 04:00 in winter
    start, ts = ("2020-12-20 19:00", "3h") if fam == "night" else ("2020-05-01 06:00", "3h")
    end = str(pd.Timestamp(start) + (len(wl[0]) - 1) * pd.Timedelta(ts))
    cfg = domain.base_config(g, ck.scratch.sub("r"), start, end, ts)
    domain.merge(cfg, copy.deepcopy(configs.ALL[name]))
    pts = [{"x": domain.X0 + domain.RES * (c + 0.5), "y": domain.Y0 + domain.RES * (r + 0.5)}
           for r in range(shape[0]) for c in range(shape[1])]
    cfg["output_data"]["timeseries"]["points"] = pts
    cfg["output_data"]["grids"]["variables"] = [{"var": "snow.swe"},
                                                {"var": "snow.melt", "freq": "6h", "agg": "sum"}]

    def force(m):
        t = m.date_idx
        roi_ = m.grid.roi
        v = np.array([words.LETTERS[w[t]] for w in wl]).T.reshape(6, *shape)
        mm = m.state.meteo
        for a, x in zip((mm.temp, mm.rel_hum, mm.wind_speed, mm.precip, mm.cloud_fraction,
                         mm.cloud_factor), v):
            a[roi_] = x[roi_]

    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo_callback=force)
    return m


def history(ck, m, roi, check_outside=True):
    """Run the model and record all states; nothing may change outside of the ROI."""
    out_ = ~roi
    init = configs.state_arrays(m)
    hist = []
    for t in range(len(m.dates)):
        m.run_single()
        s = configs.state_arrays(m)
        if check_outside and out_.any():
            for v, x in s.items():
                if v in WHOLE_GRID:
                    continue
                a, b = x[..., out_], init[v][..., out_]
                ck.c["assertions"] += 1
                if not configs.same(a, b):
                    ck.fail("state changed outside of the region of interest", var=v, step=t)
        hist.append(s)
    return hist


_full = {}


def masks_case(case, ck):
    shape = tuple(case["shape"])
    key = (case["config"], case["family"], shape)
    if key not in _full:
        m = build(ck, case["config"], case["family"], shape, None)
        ck.check(m.grid.roi.all(), "ROI without a ROI file is not the entire grid")
        _full[key] = history(ck, m, m.grid.roi)
    full = _full[key]
    for mask in range(*case["masks"]):
        roi = mask_array(mask, shape)
        m = build(ck, case["config"], case["family"], shape, roi)
        rb = roi.astype(bool)
        ck.check((m.grid.roi == rb).all(), "region of interest", mask=mask)
        if not (m.grid.roi == rb).all():
            continue
        hist = history(ck, m, rb)
        for t, (a, b) in enumerate(zip(full, hist)):
            for v in a:
                ck.c["assertions"] += 1
                x, y = a[v][..., rb], b[v][..., rb]
                ok = np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=1e-9,
                                 equal_nan=True)
                if not ok:
                    ck.fail("pixel state depends on the region of interest", var=v, mask=mask,
                            step=t)
        ds = m.gridded_output.data
        ck.close(ds["swe"].values[-1][rb], hist[-1]["snow.swe"][rb], "gridded output", rtol=1e-6)
        ck.states(len(hist) * int(rb.sum()))
        ck.transitions(len(hist) * int(rb.sum()))
        ck.traces()
        ck.outcome((case["config"], case["family"], mask, float(np.nansum(hist[-1]["snow.swe"]))))


def company_case(case, ck):
    """All weather words, each computed in the company of all words, of those with the same first
    and of those with the same last letter (at night: no coupling by reflected radiation)."""
    wl = [case["prefix"] + w for w in words.words("CSRHWN", case["length"])]
    name = case["config"]
    npre = len(case["prefix"])
    # nothing may depend on the position in the grid: rasters belong to the word
    ras = configs.rasters(name, len(wl))

    def run(sel):
        r = words.WordRun(ck, [wl[i] for i in sel], case["start"], "1h", configs.ALL[name],
                          rasters={k: v[sel] for k, v in ras.items()})
        hist = []
        for _ in r.steps():
            r.m.run_single()
            s = configs.state_arrays(r.m)
            hist.append({k: v[..., r.roi] for k, v in s.items()
                         if v.ndim >= 2 and v.shape[-2:] == r.roi.shape
                         and not k.startswith("base.")})
        return hist

    full = run(np.arange(len(wl)))
    for pos in (npre, len(wl[0]) - 1):
        for c in "CSRHWN":
            sel = np.array([i for i, w in enumerate(wl) if w[pos] == c])
            part = run(sel)
            for t, (a, b) in enumerate(zip(full, part)):
                for v in a:
                    ck.c["assertions"] += 1
                    x, y = a[v][..., sel].astype(float), b[v].astype(float)
                    ok = np.isclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
                    if not ok.all():
                        i = np.argwhere(~ok)[0]
                        ck.fail("pixel state depends on the other pixels", var=v, step=t,
                                word=wl[sel[i[-1]]], same_letter_at=pos, got=y[tuple(i)],
                                expected=x[tuple(i)])
            ck.traces(len(sel))
    ns, nt = words.prefix_nodes(wl)
    ck.states(3 * ns)
    ck.transitions(3 * nt)


def stations_case(case, ck):
    """Interpolated fields of a pixel do not depend on the other pixels of the ROI."""
    import openamundsen as oa

    from .c07 import station_ds

    shape = tuple(case["shape"])
    n, start, ts = 4, "2020-12-20 19:00", "3h"
    end = str(pd.Timestamp(start) + (n - 1) * pd.Timedelta(ts))
    ds = station_ds([("s0", domain.X0 + 30, domain.Y0 + 20), ("s1", domain.X0 + 2e3, domain.Y0),
                     ("s2", domain.X0 - 1e3, domain.Y0 + 4e3)], start, n, ts)
    ds["temp"].values[:] = 268.0 + np.arange(3 * n).reshape(ds["temp"].shape)
    ds["precip"].values[:] = (np.arange(3 * n) % 5).reshape(ds["precip"].shape)
    ds["rel_hum"].values[:] = 50.0 + 3 * np.arange(3 * n).reshape(ds["rel_hum"].shape)
    ds["wind_speed"].values[:] = (np.arange(3 * n) % 7).reshape(ds["wind_speed"].shape)
    npix = shape[0] * shape[1]
    dem = 1500.0 + 13.0 * np.arange(npix).reshape(shape)

    def run(roi):
        g = domain.make_grids(ck.scratch.sub("g"), dem, roi=roi)
        cfg = domain.base_config(g, ck.scratch.sub("r"), start, end, ts,
                                 input_data={"meteo": {"format": "memory"}},
                                 extend_roi_with_stations=False,
                                 meteo={"interpolation": {"cloudiness": {"method": "humidity"}}})
        domain.merge(cfg, copy.deepcopy(configs.ALL[case["config"]]))
        m = oa.OpenAmundsen(cfg)
        m.initialize(meteo=ds)
        return m, history(ck, m, m.grid.roi)

    key = ("st", case["config"], shape)
    if key not in _full:
        _full[key] = run(None)[1]
    full = _full[key]
    for mask in range(*case["masks"]):
        roi = mask_array(mask, shape)
        rb = roi.astype(bool)
        m, hist = run(roi)
        ck.check((m.grid.roi == rb).all(), "region of interest", mask=mask)
        if not (m.grid.roi == rb).all():
            continue
        for t, (a, b) in enumerate(zip(full, hist)):
            for v in a:
                ck.c["assertions"] += 1
                if not np.allclose(a[v][..., rb].astype(float), b[v][..., rb].astype(float),
                                   rtol=1e-9, atol=1e-9, equal_nan=True):
                    ck.fail("pixel state depends on the region of interest", var=v, mask=mask,
                            step=t)
        ck.states(n * int(rb.sum()))
        ck.transitions(n * int(rb.sum()))
        ck.traces()


def demnan_case(case, ck):
    """Pixels without elevation are not part of the ROI; the others are not affected."""
    shape = tuple(case["shape"])
    n = shape[0] * shape[1]
    roi = mask_array(case["mask"], shape)
    full = history(ck, build(ck, case["config"], "night", shape, roi), roi.astype(bool))
    for k in range(n):
        dem = np.full(shape, 1500.0)
        dem.flat[k] = np.nan
        exp = roi.astype(bool).copy()
        exp.flat[k] = False
        if not exp.any():
            continue
        m = build(ck, case["config"], "night", shape, roi, dem=dem)
        ck.check((m.grid.roi == exp).all(), "ROI with missing DEM pixels", k=k)
        if not (m.grid.roi == exp).all():
            continue
        hist = history(ck, m, exp)
        for t, (a, b) in enumerate(zip(full, hist)):
            for v in a:
                if v.startswith("base."):
                    continue
                ck.c["assertions"] += 1
                if not np.allclose(a[v][..., exp].astype(float), b[v][..., exp].astype(float),
                                   rtol=1e-6, atol=1e-6, equal_nan=True):
                    ck.fail("pixel state depends on a pixel outside of the ROI", var=v, step=t, k=k)
        ck.states(len(hist) * int(exp.sum()))
        ck.transitions(len(hist) * int(exp.sum()))
        ck.traces()


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
