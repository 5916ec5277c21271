"""C26: every run starts from the configured initial state; state variables are managed consistently."""

import itertools

import numpy as np

from .. import configs, domain

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "sand and clay fractions with a positive sum not above 1; grids 2x3 (all 63 regions of interest), "
    "thorough 3x3 (all 511)",
    "registry: all operation sequences of length 4 (thorough 5) over 9 operations; data types "
    "float, int and bool",
]

SAND, CLAY = (0.0, 0.1, 0.6, 1.0), (0.0, 0.3, 0.9)
MOIST, TEMP = (0.0, 0.5, 1.0), (263.15, 285.0)
THICK = ([0.1], [0.1, 0.2, 0.4, 0.8], [0.05, 0.3])
LAYERS = ([0.1, 0.2, 0.4], [0.05, 0.05, 0.1, 0.2])


def cases(tier):
    out = []
    n = 6 if tier == "quick" else 9
    chunk = 16 if tier == "quick" else 64
    for model, th in itertools.product(("multilayer", "cryolayers"), THICK):
        for s, c in itertools.product(SAND, CLAY):
            if 0 < s + c <= 1:
                out.append({"kind": "soil", "model": model, "thickness": th, "sand": s, "clay": c})
    for name in configs.ALL:
        for lo in range(1, 2 ** n, chunk):
            out.append({"kind": "roi", "config": name, "masks": [lo, min(lo + chunk, 2 ** n)],
                        "shape": [2, 3] if n == 6 else [3, 3]})
        out.append({"kind": "reset", "config": name})
    for first in range(len(OPS)):
        out.append({"kind": "registry", "first": first, "length": 4 if tier == "quick" else 5})
    return out


def soil_reference(sand, clay, moist):
    """Cox et al. (1999), Best et al. (2011), Cosby et al. (1984)."""
    r = {}
    r["vol_heat_cap_dry"] = (2.128e6 * sand + 2.385e6 * clay) / (sand + clay)
    b = r["clapp_hornberger"] = 3.1 + 15.7 * clay - 0.3 * sand
    psi = r["sat_water_pressure"] = 10.0 ** (0.17 - 0.63 * clay - 1.58 * sand)
    sat = r["vol_moisture_content_sat"] = 0.505 - 0.037 * clay - 0.142 * sand
    r["vol_moisture_content_crit"] = sat * (psi / 3.364) ** (1 / b)
    k = r["therm_cond_minerals"] = 1.16 ** clay * 1.57 ** (1 - clay)
    r["therm_cond_dry"] = 0.025 ** sat * k ** (1 - sat)
    r["vol_moisture_content"] = moist * sat
    return r


def build(ck, dem, over, **rasters):
    import openamundsen as oa

    g = domain.make_grids(ck.scratch.sub("g"), dem, **rasters)
    cfg = domain.base_config(g, ck.scratch.sub("r"), "2020-04-15 00:00", "2020-04-15 21:00", "3h")
    domain.merge(cfg, over)
    m = oa.OpenAmundsen(cfg)

    def force(m):
        for k, v in dict(temp=268.0, rel_hum=90.0, wind_speed=2.0, precip=20.0, cloud_fraction=0.5,
                         cloud_factor=0.5).items():
            m.state.meteo[k][m.grid.roi] = v

    m.initialize(meteo_callback=force)
    return m


def initial(ck, m, roi, soil_cfg, n_snow, **info):
    """Initial values of snow, soil and surface."""
    s = m.state
    nroi = int(roi.sum())

    def val(cat, var, exp, dim3=0):
        a = s[cat][var]
        shape = (dim3, *roi.shape) if dim3 else roi.shape
        ck.check(a.shape == shape, "shape of a state variable", var=f"{cat}.{var}", got=a.shape,
                 expected=shape, **info)
        e = np.broadcast_to(np.asarray(exp, dtype=float), (nroi,) if not dim3 else (dim3, nroi))
        ck.close(a[..., roi], e, f"initial {cat}.{var}", rtol=1e-12, **info)
        out = a[..., ~roi]
        if out.dtype.kind == "f":
            ck.check(bool(np.isnan(out).all()), f"{cat}.{var} initialized outside of the ROI", **info)
        else:
            ck.check(not out.any(), f"{cat}.{var} initialized outside of the ROI", **info)

    for v in ("swe", "depth", "num_layers", "area_fraction"):
        val("snow", v, 0)
    for v in ("thickness", "ice_content", "liquid_water_content"):
        val("snow", v, 0, n_snow)
    if m.config.snow.model == "cryolayers":
        val("snow", "cold_content", 0, n_snow)
    else:
        val("snow", "temp", 273.15, n_snow)
    th = soil_cfg["thickness"]
    val("soil", "temp", soil_cfg["temp"], len(th))
    val("soil", "thickness", np.array(th)[:, None], len(th))
    val("surface", "temp", soil_cfg["temp"])
    for k, v in soil_reference(soil_cfg["sand"], soil_cfg["clay"], soil_cfg["moist"]).items():
        val("soil", k, v, len(th) if k == "vol_moisture_content" else 0)


def soil_case(case, ck):
    for moist, temp, layers in itertools.product(MOIST, TEMP, LAYERS):
        over = {"snow": {"model": case["model"]}, "soil": {
            "thickness": case["thickness"], "sand_fraction": case["sand"],
            "clay_fraction": case["clay"], "init_moisture_content": moist, "init_temp": temp}}
        if case["model"] == "multilayer":
            over["snow"]["min_thickness"] = layers
        elif layers is not LAYERS[0]:
            continue
        m = build(ck, np.full((1, 2), 1500.0), over)
        cfg = {"thickness": case["thickness"], "sand": case["sand"], "clay": case["clay"],
               "moist": moist, "temp": temp}
        initial(ck, m, np.ones((1, 2), dtype=bool), cfg,
                len(layers) if case["model"] == "multilayer" else 4, moist=moist, temp=temp)
        # the parameters of the soil stay what they are
        before = {k: np.array(m.state.soil[k]) for k in soil_reference(0.5, 0.5, 0.5)}
        for _ in range(2):
            m.run_single()
        for k, v in before.items():
            ck.close(m.state.soil[k], v, f"soil.{k} changed during the run", moist=moist, temp=temp)
        ck.traces()
        ck.states(3)
        ck.transitions(2)
        ck.outcome((case["model"], case["sand"], case["clay"], moist, temp))


def roi_case(case, ck):
    shape = tuple(case["shape"])
    n = shape[0] * shape[1]
    name = case["config"]
    for mask in range(*case["masks"]):
        roi = np.array([mask >> i & 1 for i in range(n)], dtype=bool).reshape(shape)
        ras = {k: np.asarray(v, dtype=float).reshape(shape) for k, v in configs.rasters(name, n).items()}
        m = build(ck, 1500.0 + 10 * np.arange(n).reshape(shape), configs.ALL[name], roi=roi * 1, **ras)
        multi = m.config.snow.model == "multilayer"
        n_snow = len(m.config.snow.min_thickness) if multi else 4
        ck.check(np.array_equal(m.grid.roi, roi), "region of interest", mask=mask)
        initial(ck, m, roi, {"thickness": [0.1, 0.2, 0.4, 0.8], "sand": 0.6, "clay": 0.3,
                             "moist": 0.5, "temp": 285.0}, n_snow, mask=mask)
        s = m.state
        ck.close(s.base.dem, 1500.0 + 10 * np.arange(n).reshape(shape), "elevation", mask=mask)
        ck.close(s.base.svf, np.ones(shape), "sky view factor", mask=mask)
        if "lc" in ras:
            ck.close(s.land_cover.land_cover, ras["lc"], "land cover classes", mask=mask)
        if "soil" in ras:
            ck.close(s.evapotranspiration.soil_texture, ras["soil"], "soil texture", mask=mask)
            et = s.evapotranspiration
            ck.close(et.cum_soil_surface_depletion[roi], np.zeros(roi.sum()),
                     "initial surface depletion", mask=mask)
            rooted = roi & np.isfinite(et.total_available_water)
            ck.check_all(rooted[roi & (ras["lc"] > 3)], "available water undefined", mask=mask)
            ck.close(et.cum_root_zone_depletion[rooted], np.zeros(rooted.sum()),
                     "initial root zone depletion", mask=mask)
        if "glaciers" in ras:
            ck.close(s.glaciers.glacier, ras["glaciers"], "glacier IDs", mask=mask)
        if m.config.canopy.enabled:
            forest = roi & np.isin(ras["lc"], (5, 6, 7))
            load = np.where(forest, 0.0, np.nan)
            ck.close(s.snow.canopy_intercepted_load, load, "initial interception", mask=mask)
        ck.traces()
        ck.states()
        ck.transitions()
        ck.outcome((name, mask, round(float(np.nansum(s.soil.therm_cond_dry)), 9)))


def reset_case(case, ck):
    """Resetting clears exactly the variables which are not retained, in place."""
    name = case["config"]
    shape = (3, 3)
    ras = {k: np.asarray(v, dtype=float).reshape(shape) for k, v in configs.rasters(name, 9).items()}
    m = build(ck, np.full(shape, 1500.0), configs.ALL[name], **ras)
    m.run_single()
    m.run_single()
    fields = {}
    for cat in m.state.categories:
        for v, x in m.state[cat].items():
            if isinstance(x, np.ndarray):
                fields[cat, v] = x
    ck.check(len(fields) > 60, "number of state variables", got=len(fields))
    before = {k: x.copy() for k, x in fields.items()}
    cleared = set()
    for (cat, v), x in fields.items():
        meta = m.state.meta(f"{cat}.{v}")
        ck.check(m.state[f"{cat}.{v}"] is x and m.state[cat][v] is x and
                 getattr(getattr(m.state, cat), v) is x, "ways of access differ", var=v)
        exp = (meta.dim3, *shape) if meta.dim3 else shape
        ck.check(x.shape == exp and x.dtype == np.dtype(meta.dtype), "shape or type of a variable",
                 var=f"{cat}.{v}", got=(x.shape, str(x.dtype)))
        ck.check(meta.retain in (True, False), "retain flag", var=v)
    m.state.reset()
    for (cat, v), x in fields.items():
        meta = m.state.meta(f"{cat}.{v}")
        ck.check(m.state[cat][v] is x, "reset replaced a variable", var=v)
        if meta.retain:
            ck.check(configs.same(x, before[cat, v]), "reset changed a retained variable",
                     var=f"{cat}.{v}")
        else:
            cleared.add(f"{cat}.{v}")
            exp = np.full(x.shape, np.nan if x.dtype.kind == "f" else 0)
            ck.close(x, exp, "reset did not clear a variable", var=f"{cat}.{v}")
    # state which the next time step depends on
    need = ["snow.swe", "snow.ice_content", "snow.liquid_water_content", "snow.thickness",
            "snow.albedo", "soil.temp", "surface.temp", "base.dem", "meteo.cloud_factor"]
    need += ["snow.temp"] if m.config.snow.model == "multilayer" else ["snow.cold_content"]
    if m.config.canopy.enabled:
        need += ["snow.canopy_intercepted_load", "land_cover.land_cover"]
    if m.config.evapotranspiration.enabled:
        need += ["evapotranspiration.cum_soil_surface_depletion", "evapotranspiration.soil_texture",
                 "evapotranspiration.cum_root_zone_depletion", "evapotranspiration.sealed_interception"]
    if m.config.glaciers.enabled:
        need.append("glaciers.glacier")
    for v in need:
        ck.check(v not in cleared, "reset clears a storage", var=v)
    for v in ("meteo.temp", "meteo.precip", "meteo.snowfall", "snow.melt", "snow.runoff",
              "surface.heat_flux"):
        ck.check(v in cleared, "reset keeps a flux of the previous time step", var=v)
    ck.traces()
    ck.states(len(fields))
    ck.transitions(len(fields))
    ck.outcome((name, len(cleared), len(fields)))


# -- registry of state variables -----------------------------------------------------------------
OPS = [("cat", "aa"), ("cat", "b b"), ("var", "float", 0, False), ("var", "bool", 2, False),
       ("var", "int", 3, True), ("var", "bool", 0, True), ("init",), ("write",), ("reset",)]
TYPES = {"float": float, "int": int, "bool": bool}


def registry_case(case, ck):
    from openamundsen import errors, statevars

    def same(a, b):
        return configs.same(np.asarray(a), np.asarray(b)) and a.dtype == b.dtype

    for rest in itertools.product(range(len(OPS)), repeat=case["length"] - 1):
        seq = [OPS[case["first"]]] + [OPS[i] for i in rest]
        mgr = statevars.StateVariableManager(2, 3)
        mgr.add_category("zz").add_variable("first", "m", "First", retain=True)
        cats, defs, vals = {"zz"}, {("zz", "first"): ("float", 0, True)}, {}
        serial = 0
        for k, op in enumerate(seq):
            if op[0] == "cat":
                ok = op[1].isidentifier() and op[1] not in cats
                try:
                    mgr.add_category(op[1])
                    ck.check(ok, "invalid category accepted", seq=seq)
                except errors.CategoryError:
                    ck.check(not ok, "valid category rejected", seq=seq)
                if ok:
                    cats.add(op[1])
            elif op[0] == "var":
                cat = "aa" if "aa" in cats else "zz"
                serial += 1
                mgr[cat].add_variable(f"v{serial}", "K", "Name", "std_name", dtype=TYPES[op[1]],
                                      dim3=op[2], retain=op[3])
                defs[cat, f"v{serial}"] = tuple(op[1:])
            elif op[0] == "init":
                mgr.initialize()
                for key, (t, d, _) in defs.items():
                    vals[key] = np.full((d, 2, 3) if d else (2, 3),
                                        {"float": np.nan, "int": 0, "bool": False}[t], dtype=TYPES[t])
            elif not vals or set(vals) != set(defs):
                continue  # writing and resetting require initialized fields
            elif op[0] == "write":
                for i, (key, x) in enumerate(vals.items()):
                    new = (np.arange(x.size).reshape(x.shape) % 3 + i + k).astype(x.dtype)
                    mgr[".".join(key)][:] = new
                    vals[key] = new
            elif op[0] == "reset":
                mgr.reset()
                for key, (t, _, retain) in defs.items():
                    if not retain:
                        vals[key] = np.full_like(vals[key], {"float": np.nan, "int": 0, "bool": False}[t])
            ck.check(tuple(mgr.categories) == tuple(sorted(cats)), "categories", got=mgr.categories)
            for key, x in vals.items():
                ck.check(same(mgr[key[0]][key[1]], x), "content of a state variable", var=key, seq=seq,
                         got=mgr[key[0]][key[1]], expected=x)
            for key, (t, d, r) in defs.items():
                meta = mgr.meta(".".join(key))
                ck.check((meta.dtype, meta.dim3, meta.retain) == (TYPES[t], d, r),
                         "metadata of a state variable", var=key, seq=seq)
                u = ("m", "First", None) if key[1] == "first" else ("K", "Name", "std_name")
                ck.check((meta.units, meta.long_name, meta.standard_name) == u, "metadata", var=key)
            ck.states()
            ck.transitions()
        ck.traces()
        ck.outcome(len(vals))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
