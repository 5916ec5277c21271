"""C20: grid geometry, input rasters, region of interest, extended grids and station locations."""

import itertools

import numpy as np
import pandas as pd

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "ESRI ASCII rasters of up to 4x4 pixels (extended grids up to 6x6)",
    "stations are placed at least 0.1 pixels away from pixel boundaries",
]

RASTERS = {  # raster -> (configuration that requires it, companion rasters)
    "svf": ({}, {}),
    "roi": ({}, {}),
    "srf": ({"meteo": {"precipitation_correction": [{"method": "srf"}]}}, {}),
    "lc": ({"evapotranspiration": {"enabled": True}}, {"soil": 2}),
    "soil": ({"evapotranspiration": {"enabled": True}}, {"lc": 1}),
    "glaciers": ({"glaciers": {"enabled": True}, "snow": {"model": "cryolayers"}}, {}),
}


def cases(tier):
    th = tier != "quick"
    out = []
    for rows, cols in itertools.product(range(1, 5), repeat=2):
        out.append({"kind": "grid", "shape": [rows, cols]})
    for shape in ([2, 2], [1, 4], [3, 2]) if th else ([2, 2], [1, 3]):
        out.append({"kind": "roi", "shape": shape})
    for name in RASTERS:
        out.append({"kind": "mismatch", "raster": name})
    for er in ((3, 4, 5) if not th else (2, 3, 4, 5, 6)):
        out.append({"kind": "ext", "er": er, "th": th})
    out.append({"kind": "extbad"})
    for x0 in (500000.1, 123456.789, 0.1, -3333.3, 1e6 + 0.7):
        out.append({"kind": "extfloat", "x0": x0, "th": th})
    for shape in ([1, 1], [1, 3], [3, 1], [2, 3]):
        out.append({"kind": "stations", "shape": shape})
    for shape, part in itertools.product(([1, 3], [2, 2]), range(6)):
        out.append({"kind": "extend", "shape": shape, "th": th, "part": part})
    out.append({"kind": "extrun"})
    out.append({"kind": "rw"})
    out.append({"kind": "nodata"})
    out.append({"kind": "srffile"})
    return out


def run_case(case, ck):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = domain.Scratch()
        try:
            globals()["run_" + case["kind"]](case, ck, d)
        finally:
            d.remove()


DATES = pd.date_range("2020-01-10 09:00", periods=3, freq="3h")


def station(sid, x, y, **over):
    n = len(DATES)
    return {"id": sid, "x": x, "y": y, "alt": 1500.0, "temp": np.full(n, 271.0) + len(sid),
            "rel_hum": np.full(n, 65.0), "wind_speed": np.full(n, 2.0), "precip": np.full(n, 1.5),
            "sw_in": np.full(n, 90.0), **over}


def init(d, g, st=None, res=50, **over):
    import openamundsen as oa

    cfg = domain.base_config(
        g, d.sub("r"), str(DATES[0]), str(DATES[-1]), "3h",
        **domain.merge({"resolution": res, "input_data": {"meteo": {
            "format": "memory", "bounds": "global"}}}, over))
    m = oa.OpenAmundsen(oa.parse_config(cfg))
    if st is None:
        st = [station("far", domain.X0 - 7000.0, domain.Y0 + 3000.0)]
    m.initialize(meteo=refmet.dataset(st, DATES))
    return m


def dem_of(shape):
    r, c = np.mgrid[: shape[0], : shape[1]]
    return 1500.0 + 16 * r + 3 * c


def run_grid(case, ck, d):
    rows, cols = case["shape"]
    dem = dem_of((rows, cols))
    for (x0, y0), res in itertools.product(
            ((domain.X0, domain.Y0), (412345.5, 5100000.25), (600000.0, 5000000.0)), (1, 30, 250)):
        g = domain.make_grids(d.sub("g"), dem, res=res, x0=x0, y0=y0)
        m = init(d, g, res=res)
        gr = m.grid
        xs = x0 + res * (np.arange(cols) + 0.5)
        ys = y0 + res * (rows - np.arange(rows) - 0.5)
        ck.check((gr.rows, gr.cols, gr.resolution) == (rows, cols, res), "grid dimensions")
        ck.close(gr.xs, xs, "x coordinates of the pixel centers")
        ck.close(gr.ys, ys, "y coordinates of the pixel centers")
        ck.close([gr.x_min, gr.x_max, gr.y_min, gr.y_max],
                 [x0, x0 + res * cols, y0, y0 + res * rows], "grid extent")
        X, Y = np.meshgrid(xs, ys)
        ck.close(gr.X, X, "X")
        ck.close(gr.Y, Y, "Y")
        ck.close(gr.all_points, [(x, y) for y in ys for x in xs], "coordinates of all points")
        lon, lat = refmet.lonlat(x0 + res * cols / 2, y0 + res * rows / 2)
        ck.close([gr.center_lon, gr.center_lat], [lon, lat], "center of the grid", atol=1e-7)
        ck.check(gr.roi.shape == (rows, cols) and gr.roi.all(),
                 "without a ROI raster the ROI is the entire grid")
        ck.close(m.state.base.dem, dem, "elevations")
        ck.states()
        ck.transitions()
        ck.outcome((rows, cols, res, x0))


def _roi_props(ck, m, roi, x0=domain.X0, y0=domain.Y0, **info):
    rows, cols = roi.shape
    gr = m.grid
    ck.check(np.array_equal(gr.roi, roi), "region of interest", got=gr.roi, expected=roi, **info)
    idxs = [(r, c) for r in range(rows) for c in range(cols) if roi[r, c]]
    pts = [(x0 + 50 * (c + 0.5), y0 + 50 * (rows - r - 0.5)) for r, c in idxs]
    ck.check(np.asarray(gr.roi_idxs).tolist() == [list(i) for i in idxs], "ROI indexes", **info)
    ck.check(np.asarray(gr.roi_idxs_flat).tolist() == [r * cols + c for r, c in idxs],
             "flat ROI indexes", **info)
    ck.close(np.asarray(gr.roi_points).reshape(-1, 2), np.array(pts).reshape(-1, 2),
             "coordinates of the ROI points", **info)
    ck.close(gr.roi_xs, [p[0] for p in pts], "x coordinates of the ROI", **info)
    ck.close(gr.roi_ys, [p[1] for p in pts], "y coordinates of the ROI", **info)


def run_roi(case, ck, d):
    """All ROI rasters over {0, 1, 5, nodata} x all DEMs with missing pixels (reduced for larger)."""
    rows, cols = case["shape"]
    n = rows * cols
    vals = [0, 1, np.nan] if n > 3 else [0, 1, 5, np.nan]
    k = 0
    for v in itertools.product(vals, repeat=n):
        roi_raster = np.array(v, dtype=float).reshape(rows, cols)
        k += 1
        dem = dem_of((rows, cols))
        miss = np.array([(k >> i) & 1 for i in range(n)], dtype=bool).reshape(rows, cols)
        if k % 2:
            miss[:] = False
        dem[miss] = np.nan
        exp = np.isin(roi_raster, (1, 5)) & ~miss
        if not exp.any():
            continue
        g = domain.make_grids(d.sub("g"), dem, roi=roi_raster)
        m = init(d, g)
        _roi_props(ck, m, exp, raster=roi_raster, missing=miss)
        ck.states()
        ck.transitions()
        ck.outcome((tuple(map(str, v)), int(exp.sum())))


def run_mismatch(case, ck, d):
    from openamundsen.errors import RasterFileError

    name = case["raster"]
    over, comp = RASTERS[name]
    shape = (3, 4)
    dem = dem_of(shape)
    comp = {k: np.full(shape, float(v)) for k, v in comp.items()}
    good = np.ones(shape)
    if name == "lc":
        good[0, 1] = 5
    variants = {
        "ok": (good, 50, domain.X0, domain.Y0),
        "row more": (np.ones((4, 4)), 50, domain.X0, domain.Y0),
        "row less": (np.ones((2, 4)), 50, domain.X0, domain.Y0),
        "column more": (np.ones((3, 5)), 50, domain.X0, domain.Y0),
        "column less": (np.ones((3, 3)), 50, domain.X0, domain.Y0),
        "transposed": (np.ones((4, 3)), 50, domain.X0, domain.Y0),
        "resolution": (good, 25, domain.X0, domain.Y0),
        "shifted x": (good, 50, domain.X0 + 50, domain.Y0),
        "shifted y": (good, 50, domain.X0, domain.Y0 - 50),
        "half pixel": (good, 50, domain.X0 + 25, domain.Y0),
        "missing": None,
        "resolution +1": (good, 51, domain.X0, domain.Y0),
        "resolution 50.5, same center": (good, 50.5, domain.X0 - 1.0, domain.Y0 - 0.75),
    }
    for sx, sy in itertools.product((-40.0, -20.0, -1.0, 0.0, 5.0, 25.0, 30.0, 100.0), repeat=2):
        if (sx, sy) != (0.0, 0.0) and (0.0 in (sx, sy) or abs(sx) == abs(sy) or case["raster"] == "roi"):
            variants[f"shifted by {sx}, {sy}"] = (good, 50, domain.X0 + sx, domain.Y0 + sy)
    for what, v in variants.items():
        g = domain.make_grids(d.sub("g"), dem, svf=(name != "svf"), **comp)
        if v is not None:
            domain.write_asc(g / f"{name}_{domain.DOMAIN}_50.asc", v[0], v[1], v[2], v[3])
        err = None
        try:
            m = init(d, g, **over)
        except Exception as e:
            err = e
        ck.transitions()
        ck.outcome((name, what, type(err).__name__))
        if what == "ok":
            ck.check(err is None, "a matching raster is accepted", raster=name, error=repr(err))
            if err is None:
                b = m.state
                got = {"svf": lambda: b.base.svf, "roi": lambda: m.grid.roi, "srf": lambda: b.base.srf,
                       "lc": lambda: b.land_cover.land_cover,
                       "soil": lambda: b.evapotranspiration.soil_texture,
                       "glaciers": lambda: b.glaciers.glacier}[name]()
                ck.close(got, good, "raster values", raster=name)
        elif what == "missing":
            if name in ("svf", "roi"):
                ck.check(err is None, "optional rasters may be missing", error=repr(err))
            elif name == "srf":
                ck.check(err is not None, "missing input raster", raster=name)
            else:
                ck.check(isinstance(err, FileNotFoundError),
                         "a missing input raster is reported", raster=name, error=repr(err))
        else:
            ck.check(isinstance(err, RasterFileError),
                     "rasters not matching the DEM are rejected", raster=name, variant=what,
                     error=repr(err))
        ck.states()
    # the resolution of the DEM itself
    for dx, dy in itertools.product((25.0, 49.0, 49.75, 50.0, 50.4, 100.0), repeat=2):
        g = d.sub("g")
        f = g / f"dem_{domain.DOMAIN}_50.asc"
        domain.write_asc(f, dem, dx)
        f.write_text(f.read_text().replace(f"cellsize {dx!r}\n", f"dx {dx!r}\ndy {dy!r}\n"))
        try:
            init(d, g)
            err = None
        except Exception as e:
            err = e
        ck.transitions()
        if dx == dy == 50.0:
            ck.check(err is None, "DEM with the configured resolution", error=repr(err))
        else:
            ck.check(isinstance(err, RasterFileError), "DEM resolution must match the configuration",
                     error=repr(err), dx=dx, dy=dy)


def run_ext(case, ck, d):
    """All positions of all model grids within the extended grid."""
    er, ec = case["er"], 4
    big = dem_of((er, ec)) + np.arange(er * ec).reshape(er, ec) * 2
    svf = 0.5 + np.arange(er * ec).reshape(er, ec) / 64
    k = 0
    for rows, cols in itertools.product(range(1, er + 1), range(1, ec + 1)):
        for ro, co in itertools.product(range(er - rows + 1), range(ec - cols + 1)):
            k += 1
            if not case["th"] and k % 2:
                continue
            g = d.sub("g")
            x0, y0 = domain.X0 + co * 50, domain.Y0 + (er - ro - rows) * 50
            # the DEM and sky view factor of the model grid are those of the extended grid
            domain.write_asc(g / "dem_dom_50.asc", big[ro:ro + rows, co:co + cols], 50, x0, y0)
            domain.write_asc(g / "extended-dem_dom_50.asc", big, 50, domain.X0, domain.Y0)
            domain.write_asc(g / "extended-svf_dom_50.asc", svf, 50, domain.X0, domain.Y0)
            m = init(d, g)
            ck.close(m.state.base.dem, big[ro:ro + rows, co:co + cols], "DEM from extended grid",
                     offset=[ro, co])
            ck.close(m.state.base.svf, svf[ro:ro + rows, co:co + cols], "SVF from extended grid",
                     offset=[ro, co])
            e = m.grid.extended_grid
            ck.check(bool(e.available) and (e.rows, e.cols, e.row_offset, e.col_offset)
                     == (er, ec, ro, co), "location of the grid in the extended grid",
                     got=[e.rows, e.cols, e.row_offset, e.col_offset], expected=[er, ec, ro, co])
            ck.states()
            ck.transitions()
            ck.outcome((rows, cols, ro, co))


def run_extbad(case, ck, d):
    from openamundsen.errors import RasterFileError

    rows, cols = 2, 3
    for er, ec, ro, co in itertools.product((2, 3, 4), (3, 4, 5), (-1, 0, 1, 2, 0.5), (-1, 0, 1, 0.25)):
        dem = dem_of((rows, cols))
        g = domain.make_grids(d.sub("g"), dem)
        xe = domain.X0 - co * 50
        ye = domain.Y0 - (er - ro - rows) * 50
        domain.write_asc(g / "extended-dem_dom_50.asc", np.full((er, ec), 1500.0), 50, xe, ye)
        domain.write_asc(g / "extended-svf_dom_50.asc", np.ones((er, ec)), 50, xe, ye)
        ok = (ro in (0, 1, 2) and co in (0, 1) and ro + rows <= er and co + cols <= ec)
        err = None
        try:
            m = init(d, g)
        except Exception as e:
            err = e
        ck.transitions()
        ck.states()
        ck.outcome((er, ec, ro, co, type(err).__name__))
        info = {"extended": [er, ec], "offset": [ro, co], "error": repr(err)}
        if ok:
            ck.check(err is None, "extended DEM covering the grid is accepted", **info)
            if err is None:
                ck.check((m.grid.extended_grid.row_offset, m.grid.extended_grid.col_offset)
                         == (ro, co), "offset of the grid in the extended grid", **info)
        else:
            ck.check(isinstance(err, RasterFileError),
                     "misaligned or incomplete extended DEMs are rejected", **info)
    for res, shape in ((25, (4, 5)), (50, (4, 4))):
        g = domain.make_grids(d.sub("g"), dem_of((rows, cols)))
        domain.write_asc(g / "extended-dem_dom_50.asc", np.full((4, 5), 1500.0), res)
        domain.write_asc(g / "extended-svf_dom_50.asc", np.ones(shape), 50)
        try:
            init(d, g)
            err = None
        except Exception as e:
            err = e
        ck.check(isinstance(err, RasterFileError), "extended grids with wrong resolution/shape",
                 res=res, shape=shape, error=repr(err))


def run_extfloat(case, ck, d):
    x0 = case["x0"]
    y0 = x0 + 1000.7
    rows, cols, er, ec = 2, 2, 9, 9
    for res, k, r in itertools.product((1, 7, 30, 50, 90), (0, 1, 3, 7), (0, 2, 7)):
        if not case["th"] and (res + k + r) % 2:
            continue
        dem = np.full((rows, cols), 1500.0)
        g = domain.make_grids(d.sub("g"), dem, res=res, x0=x0, y0=y0)
        xe, ye = x0 - k * res, y0 - (er - r - rows) * res
        for name, val in (("dem", 1500.0), ("svf", 1.0)):
            domain.write_asc(g / f"extended-{name}_dom_{res}.asc", np.full((er, ec), val), res, xe, ye)
        m = init(d, g, res=res)
        e = m.grid.extended_grid
        ck.check((e.row_offset, e.col_offset) == (r, k), "offset for fractional coordinates",
                 res=res, got=[e.row_offset, e.col_offset], expected=[r, k])
        ck.states()
        ck.transitions()
        ck.outcome((res, k, r))


def run_stations(case, ck, d):
    """Pixel of stations at all positions in and around the grid."""
    rows, cols = case["shape"]
    roi = np.ones((rows, cols), dtype=int)
    if rows * cols > 2:
        roi[0, -1] = 0
    g = domain.make_grids(d.sub("g"), dem_of((rows, cols)), roi=roi)
    st, exp = [], []
    for r, c in itertools.product(range(-2, rows + 2), range(-2, cols + 2)):
        for fr, fc in ((0.1, 0.1), (0.5, 0.5), (0.9, 0.2), (0.2, 0.9)):
            st.append(station(f"s{len(st):03d}", domain.X0 + 50 * (c + fc),
                              domain.Y0 + 50 * (rows - r - fr)))
            exp.append((r, c))
    m = init(d, g, st)
    ck.check(list(m.meteo.station.values) == [s["id"] for s in st], "all stations are kept")
    ck.close(m.meteo.x.values, [s["x"] for s in st], "x coordinates of the stations", atol=1e-4)
    ck.close(m.meteo.y.values, [s["y"] for s in st], "y coordinates of the stations", atol=1e-4)
    inside = np.array([0 <= r < rows and 0 <= c < cols for r, c in exp])
    ck.check(np.array_equal(m.meteo.within_grid_extent.values, inside), "stations in the grid",
             got=m.meteo.within_grid_extent.values.astype(int), expected=inside.astype(int))
    in_roi = np.array([i and bool(roi[r, c]) for i, (r, c) in zip(inside, exp)])
    ck.check(np.array_equal(m.meteo.within_roi.values, in_roi), "stations in the ROI")
    for i, (r, c) in enumerate(exp):
        if inside[i]:
            ck.check((int(m.meteo.row[i]), int(m.meteo.col[i])) == (r, c), "pixel of a station",
                     expected=[r, c], got=[int(m.meteo.row[i]), int(m.meteo.col[i])])
        ck.transitions()
        ck.states()
        ck.outcome((r, c))


def run_extend(case, ck, d):
    """Extension of the ROI by every subset of station pixels, with missing elevations."""
    rows, cols = case["shape"]
    n = rows * cols
    pix = list(itertools.product(range(rows), range(cols)))
    k = 0
    for roi_bits, st_bits in itertools.product(itertools.product((0, 1), repeat=n), repeat=2):
        k += 1
        if k % 6 != case["part"] or (not case["th"] and (k // 6) % 2 and n > 3):
            continue
        roi = np.array(roi_bits).reshape(rows, cols)
        miss = np.zeros((rows, cols), dtype=bool)
        if (k // 6) % 3 == 0:
            miss.flat[k % n] = True
        dem = dem_of((rows, cols))
        dem[miss] = np.nan
        base = roi.astype(bool) & ~miss
        st = [station(f"s{i}", domain.X0 + 50 * (c + 0.4), domain.Y0 + 50 * (rows - r - 0.3))
              for i, (r, c) in enumerate(pix) if st_bits[i]]
        st.append(station("far", domain.X0 - 900.0, domain.Y0 - 600.0))
        ext = base.copy()
        for i, (r, c) in enumerate(pix):
            if st_bits[i] and not miss[r, c]:
                ext[r, c] = True
        if not ext.any() or not base.any():
            continue
        g = domain.make_grids(d.sub("g"), dem, roi=roi)
        for on, exp in ((True, ext), (False, base)):
            m = init(d, g, st, extend_roi_with_stations=on)
            _roi_props(ck, m, exp, raster=roi, stations=st_bits, missing=miss, extend=on)
            in_roi = [bool(exp[pix[int(s["id"][1:])]]) if s["id"] != "far" else False for s in st]
            ck.check(m.meteo.within_roi.values.tolist() == in_roi, "stations in the ROI",
                     extend=on, got=m.meteo.within_roi.values, expected=in_roi)
            ck.transitions()
        ck.states()
        ck.outcome((roi_bits, st_bits))


def run_extrun(case, ck, d):
    """A run with an extended ROI equals the run with a ROI raster including the pixels."""
    dem = dem_of((2, 3))
    over = [{}, {"snow": {"model": "cryolayers"}},
            {"evapotranspiration": {"enabled": True}}, {"canopy": {"enabled": True}}]
    roi = np.array([[1, 0, 0], [1, 1, 0]])
    full = np.array([[1, 0, 1], [1, 1, 0]])
    st = [station("a", domain.X0 + 120, domain.Y0 + 70), station("bb", domain.X0 + 20, domain.Y0 + 20)]
    for o in over:
        res = []
        for r, on in ((roi, True), (full, False)):
            g = domain.make_grids(d.sub("g"), dem, roi=r, lc=np.full(dem.shape, 5.0),
                                  soil=np.full(dem.shape, 3.0))
            m = init(d, g, st, **dict(o, extend_roi_with_stations=on))
            m.run()
            res.append(m)
        a, b = res
        ck.check(np.array_equal(a.grid.roi, full), "extended ROI")
        for cat in a.state.categories:
            for var in a.state[cat].keys():
                va, vb = np.asarray(a.state[cat][var]), np.asarray(b.state[cat][var])
                if va.dtype.kind in "fib":
                    ck.check(np.array_equal(va, vb, equal_nan=va.dtype.kind == "f"),
                             "extending the ROI equals a ROI raster with these pixels",
                             var=f"{cat}.{var}", config=o)
        ck.transitions(2)
        ck.traces()
        ck.states()


def run_rw(case, ck, d):
    """write_raster_file() / read_raster_file() round trip."""
    import rasterio

    from openamundsen.fileio import read_raster_file, read_raster_metadata, write_raster_file

    p = d.sub("f")
    k = 0
    for (rows, cols), dt, res in itertools.product(
            itertools.product((1, 2, 3), (1, 2, 4)), ("float64", "float32", "int32", "uint8"),
            (1, 50)):
        k += 1
        data = (np.arange(rows * cols).reshape(rows, cols) * 3 + 1).astype(dt)
        if dt.startswith("float"):
            data = data + data.dtype.type(0.25)
        tr = rasterio.transform.from_origin(500000.5, 5200000.0, res, res)
        f = p / f"f{k}.asc"
        write_raster_file(f, data, tr)
        got = read_raster_file(f)
        ck.close(got, data, "raster round trip", dtype=dt)
        meta = read_raster_metadata(f)
        ck.check((meta["rows"], meta["cols"], meta["resolution"]) == (rows, cols, res)
                 and meta["transform"].almost_equals(tr), "raster metadata round trip",
                 got=str(meta))
        lines = f.read_text().split()
        ck.check(float(lines[lines.index("xllcorner") + 1]) == 500000.5
                 and float(lines[lines.index("yllcorner") + 1]) == 5200000.0 - rows * res,
                 "lower left corner in the file")
        ck.transitions()
        ck.states()
        ck.outcome((rows, cols, dt, res))


def run_srffile(case, ck, d):
    """The snow redistribution factor is read from the configured file, wherever it is, in every
    position of the chain of corrections."""
    from openamundsen.errors import RasterFileError

    shape = (2, 3)
    dem = dem_of(shape)
    srf = 0.25 + np.arange(6.0).reshape(shape) / 8
    scf = {"method": "constant_scf", "scf": 2.0}
    for default, where, before, after, fmt, bad in itertools.product(
            (False, True), ("grids", "other", None), (False, True), (False, True), ("asc", "tif"),
            (None, "size", "shift", "gone")):
        if where is None and (not default or bad or fmt == "tif"):
            continue
        g = domain.make_grids(d.sub("g"), dem, **({"srf": np.full(shape, 0.5)} if default else {}))
        rel = {"method": "srf"}
        if where:
            f = (g if where == "grids" else d.sub("o")) / f"factor.{fmt}"
            rel["file"] = str(f)
            val = np.ones((2, 4)) if bad == "size" else srf
            x0 = domain.X0 + (50 if bad == "shift" else 0)
            if bad != "gone":
                domain.write_asc(f.with_suffix(".asc"), val, 50, x0, domain.Y0)
                if fmt == "tif":
                    import rasterio

                    with rasterio.open(f.with_suffix(".asc")) as src:
                        data, prof = src.read(1), src.profile
                    prof.update(driver="GTiff", dtype="float64")
                    with rasterio.open(f, "w", **prof) as dst:
                        dst.write(data.astype(float), 1)
                    f.with_suffix(".asc").unlink()
        corr = [scf] * before + [rel] + [scf] * after
        info = {"default": default, "where": where, "format": fmt, "bad": bad, "corr": str(corr)}
        err = None
        try:
            m = init(d, g, meteo={"precipitation_correction": corr})
            m.run_single()
        except Exception as e:
            err = e
        ck.states()
        ck.transitions()
        ck.outcome((default, where, fmt, bad, type(err).__name__))
        if bad:
            ck.check(isinstance(err, RasterFileError) if bad != "gone" else err is not None,
                     "an unsuitable redistribution factor file is rejected", error=repr(err), **info)
            continue
        ck.check(err is None, "redistribution factor file", error=repr(err), **info)
        if err is None:
            exp = srf if where else np.full(shape, 0.5)
            ck.close(m.state.base.srf, exp, "redistribution factor", **info)
            ck.close(m.state.meteo.snowfall, 1.5 * exp * 2.0 ** (before + after),
                     "corrected snowfall", rtol=1e-6, **info)
    g = domain.make_grids(d.sub("g"), dem)
    (g / "dem_dom_50.asc").unlink()
    try:
        init(d, g)
        err = None
    except Exception as e:
        err = e
    ck.check(err is not None, "a missing DEM is reported")


def run_nodata(case, ck, d):
    """Missing values in the input rasters."""
    shape = (2, 3)
    dem = dem_of(shape)
    for hole in itertools.product(range(2), range(3)):
        lc = np.full(shape, 5.0)
        soil = np.full(shape, 3.0)
        srf = np.full(shape, 0.75)
        svf = np.full(shape, 0.875)
        for a in (lc, soil, srf):
            a[hole] = np.nan
        roi = np.ones(shape)
        roi[hole] = 0
        g = domain.make_grids(d.sub("g"), dem, svf=svf, lc=lc, soil=soil, srf=srf, roi=roi)
        m = init(d, g, evapotranspiration={"enabled": True},
                 meteo={"precipitation_correction": [{"method": "srf"}]})
        ck.check(m.state.land_cover.land_cover[hole] == 0, "nodata land cover is 0")
        ck.check(m.state.evapotranspiration.soil_texture[hole] == 0, "nodata soil texture is 0")
        ck.check(np.isnan(m.state.base.srf[hole]), "nodata redistribution factor is NaN")
        ck.check((m.state.land_cover.land_cover[roi == 1] == 5).all(), "land cover")
        ck.check((m.state.evapotranspiration.soil_texture[roi == 1] == 3).all(), "soil texture")
        ck.close(m.state.base.srf[roi == 1], np.full(5, 0.75), "redistribution factor")
        m.run()
        ck.check(np.isfinite(m.state.snow.swe[roi == 1]).all(), "finite snow in the ROI")
        ck.states()
        ck.transitions()
        ck.outcome(hole)
