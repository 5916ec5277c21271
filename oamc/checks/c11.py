"""C11: parsing of the model configuration."""

import copy
import datetime
import itertools
import json
import math
from pathlib import Path

import pandas as pd

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the options, their defaults and limits are those of spec/config_leaves.json; values from a "
    "small alphabet per option",
]
SPEC = json.loads((Path(__file__).parents[2] / "spec" / "config_leaves.json").read_text())
LEAVES = dict(SPEC["leaves"])
LC = {int(k): v for k, v in SPEC["land_cover"].items()}
T0 = 273.15
BASE = {"domain": "d", "start_date": "2019-11-01", "end_date": "2019-11-05", "crs": "epsg:32632",
        "resolution": 50, "timezone": 1}
NCHUNK = 16


def cases(tier):
    out = [{"kind": "defaults"}, {"kind": "structure"}, {"kind": "landcover"}, {"kind": "aliases"},
           {"kind": "crs"}]
    for c in range(NCHUNK):
        out.append({"kind": "leaves", "chunk": c})
    for ts in TIMESTEPS:
        out.append({"kind": "dates", "timestep": ts})
    for m in MODELS:
        out.append({"kind": "rules", "model": m})
    for m in ("snow_age", "usaco", "fsm"):
        out.append({"kind": "albedo", "method": m})
    for ts in ("1h", "1D", "2D", "5D", "10D"):
        out.append({"kind": "writefreq", "timestep": ts})
    for c in range(NCHUNK):
        out.append({"kind": "pairs", "chunk": c, "full": tier != "quick"})
    return out


# -- reference --------------------------------------------------------------------------------


def setp(d, path, value):
    keys = path.split(".")
    for k in keys[:-1]:
        d = d.setdefault(k, {})
    d[keys[-1]] = value
    return d


def getp(d, path):
    for k in path.split("."):
        d = d[k]
    return d


def deep(user):
    """Nested configuration from a dict of paths."""
    d = copy.deepcopy(BASE)
    for k, v in user.items():
        setp(d, k, copy.deepcopy(v))
    return d


def expected(user):
    d = {}
    for path, s in LEAVES.items():
        if "default" in s:
            setp(d, path, copy.deepcopy(s["default"]))
        elif "." in path:
            p = path.rsplit(".", 1)[0]
            setp(d, p + ".x", None)
            del getp(d, p)["x"]
    for k, v in {**BASE, **user}.items():
        setp(d, k, copy.deepcopy(v))
    d["start_date"] = pd.Timestamp(d["start_date"])
    d["end_date"] = end_date(d["end_date"], d["timestep"])
    if d["timestep"].endswith("H"):
        d["timestep"] = d["timestep"][:-1] + "h"
    t = d["meteo"]["precipitation_phase"]
    if abs(t["threshold_temp"]) < 20:
        t["threshold_temp"] += T0
    if d["snow"]["model"] == "layers":
        d["snow"]["model"] = "multilayer"
    a = d["snow"]["albedo"]
    if a["method"] == "usaco":
        a.update(method="snow_age", cold_snow_decay_timescale=24 / a["k_neg"],
                 melting_snow_decay_timescale=24 / a["k_pos"],
                 decay_timescale_determination_temperature="air",
                 refresh_snowfall=a["significant_snowfall"], refresh_method="binary")
    elif a["method"] == "fsm":
        a.update(method="snow_age", decay_timescale_determination_temperature="surface",
                 refresh_method="continuous")
    lc = copy.deepcopy(LC)
    for k, v in d["land_cover"]["classes"].items():
        lc.setdefault(k, {}).update(copy.deepcopy(v))
    d["land_cover"]["classes"] = lc
    return d


def timedelta(ts):
    num = "".join(c for c in ts if c.isdigit())
    unit = ts[len(num):]
    return int(num or 1) * {"min": pd.Timedelta(minutes=1), "h": pd.Timedelta(hours=1),
                            "H": pd.Timedelta(hours=1), "D": pd.Timedelta(days=1)}[unit]


def end_date(e, ts):
    only = type(e) is datetime.date or (isinstance(e, str) and len(e.strip()) == 10)
    e = pd.Timestamp(e.strip() if isinstance(e, str) else e)
    td = timedelta(ts)
    if only and td < pd.Timedelta(days=1):
        e += pd.Timedelta(days=1) - td
    return e


def diff(a, b, path=""):
    """First difference of two nested configurations (None if equal)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} {'missing' if k not in a else 'unexpected'}"
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {a!r} != {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, Path) or isinstance(b, Path):
        a, b = str(a), str(b)
    if isinstance(a, (pd.Timestamp, datetime.date)) and isinstance(b, (pd.Timestamp, datetime.date,
                                                                        str)):
        return None if pd.Timestamp(a) == pd.Timestamp(b) else f"{path}: {a!r} != {b!r}"
    if isinstance(a, bool) != isinstance(b, bool):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        ok = a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * abs(b)
        return None if ok else f"{path}: {a!r} != {b!r}"
    return None if a == b and (a is None) == (b is None) else f"{path}: {a!r} != {b!r}"


# -- driver -----------------------------------------------------------------------------------


def parse(ck, cfg, yaml=False):
    """Parsed configuration or None (rejected)."""
    import openamundsen as oa
    from openamundsen.errors import ConfigurationError

    ck.traces()
    ck.states()
    ck.transitions()
    before = copy.deepcopy(cfg)
    try:
        p = oa.parse_config(cfg)
    except ConfigurationError:
        p = None
    ck.check(diff(cfg, before) is None, "passed configuration altered", diff=diff(cfg, before),
             config=before)
    return p


def accept(ck, cfg, exp, full=False, **info):
    import openamundsen as oa

    p = parse(ck, cfg)
    if p is None:
        ck.fail("valid configuration rejected", config=cfg, **info)
        return None
    d = diff(p, exp)
    ck.check(d is None, "parsed configuration", diff=d, config=cfg, **info)
    if full:
        q = copy.deepcopy(p)
        r = oa.parse_config(p)
        d = diff(r, q)
        ck.check(d is None, "parsing is not idempotent", diff=d, config=cfg, **info)
        d = diff(p, q)
        ck.check(d is None, "passed configuration altered", diff=d, config=cfg, **info)
        r = oa.parse_config(oa.Configuration.from_yaml(repr(q)))
        d = diff(r, q)
        ck.check(d is None, "YAML round trip", diff=d, config=cfg, **info)
    return p


def reject(ck, cfg, **info):
    ck.check(parse(ck, cfg) is None, "invalid configuration accepted", config=cfg, **info)


GRIDVAR = {"var": "snow.swe", "name": "a", "freq": "D", "agg": "sum",
           "dates": ["2019-11-02 00:00", "2019-11-03"]}
LISTS = {
    "input_data.meteo.bounds": ([[1, 2, 3.5, 4], "global"], [[1, 2, 3], [1, 2, 3, "a"], "foo", 5]),
    "input_data.meteo.exclude": ([["a"], ["a", "b"]], ["a", [1]]),
    "input_data.meteo.include": ([["a"], ["a", "b"]], ["a", [1]]),
    "input_data.meteo.filters": (
        [[], [{"var": "temp", "filter": "range", "min": 1}],
         [{"var": "cloud_fraction", "filter": "range", "min": 1, "max": 2},
          {"var": "sw_in", "filter": "range", "max": 2}]],
        [[{"var": "foo", "filter": "range"}], [{"var": "temp", "filter": "foo"}],
         [{"var": "temp"}], [{"filter": "range"}],
         [{"var": "temp", "filter": "range", "min": "a"}],
         [{"var": "temp", "filter": "range", "foo": 1}], "temp"]),
    "output_data.grids.variables": (
        [[GRIDVAR], [{"var": "a"}, {"var": "b", "agg": "mean", "freq": "ME"}]],
        [[{"name": "a"}], [{"var": "a", "agg": "median"}], [{"var": "a", "foo": 1}], ["a"],
         [{"var": "a", "dates": ["foo"]}], [{"var": 1}]]),
    "output_data.timeseries.points": (
        [[{"x": 1, "y": 2.5}], [{"x": 1, "y": 2, "name": "p"}, {"x": 3, "y": 4}]],
        [[{"x": 1}], [{"y": 1}], [{"x": "a", "y": 1}], [{"x": 1, "y": 2, "foo": 1}],
         [{"x": 1, "y": 2, "name": 1}]]),
    "output_data.timeseries.variables": (
        [[{"var": "a"}], [{"var": "a", "name": "b"}, {"var": "c"}]],
        [[{"name": "a"}], [{"var": "a", "foo": 1}], ["a"]]),
    "meteo.precipitation_correction": (
        [[{"method": "constant_scf", "scf": 1.2}], [{"method": "wmo", "gauge": "hellmann"}],
         [{"method": "kochendorfer", "gauge": "us_un"}, {"method": "srf", "file": "x"}]],
        [[{"method": "constant_scf"}], [{"method": "wmo"}], [{"method": "kochendorfer", "scf": 1}],
         [{"method": "foo"}], [{"scf": 1}], [{"method": "constant_scf", "scf": "a"}]]),
    "snow.min_thickness": ([[0.1], [0.1, 0.2, 0.3, 0.4]], ["a", ["a"], 0.1]),
    "soil.thickness": ([[0.1], [0.1, 0.2, 0.3, 0.4, 1]], ["a", ["a"], 0.1]),
    "liveview.variables": ([[{"var": "a", "min": 0, "max": 1.5}]],
                           [[{"var": "a", "min": 0}], [{"min": 0, "max": 1}], ["a"]]),
    "numba_threads": ([None, 1, 4], [0, -1, "foo", 1.5]),
    "results_dir": (["x/y"], []),
}
SKIP = {"start_date", "end_date", "timestep", "crs", "land_cover.classes",
        "output_data.timeseries.write_freq"}
CONTEXT = {
    ("snow.melt.method", "temperature_index"): {"snow.model": "cryolayers",
                                                "snow.melt.degree_day_factor": 5},
    ("snow.melt.method", "enhanced_temperature_index"): {
        "snow.model": "cryolayers", "snow.melt.degree_day_factor": 5,
        "snow.melt.albedo_factor": 0.01},
    ("glaciers.enabled", True): {"snow.model": "cryolayers"},
}


def values(path):
    """Valid and invalid values of an option."""
    s = LEAVES[path]
    if path in LISTS:
        return LISTS[path]
    ty = s["type"]
    if path.endswith("lapse_rate"):
        return ([[0.001 * i for i in range(12)], [1] * 12],
                [[0.1] * 11, [0.1] * 13, ["a"] * 12, 0.1])
    if ty == "boolean":
        return [True, False], ["yes", 2, "true"]
    if ty == "string":
        if "allowed" in s:
            return list(s["allowed"]), ["nonexistent", 5, s["allowed"][0].upper(), ""]
        return ["abc", "X y"], [5, ["a"]]
    good = {"integer": [2, 3, 7], "number": [0.37, 1, 123.25], "float": [0.37, 1, 123.25]}[ty]
    bad = ["abc", [1]] + ([1.5] if ty == "integer" else [])
    lo, hi = s.get("min"), s.get("max")
    good = [v for v in good + [lo, hi] if v is not None and (lo is None or v >= lo)
            and (hi is None or v <= hi)]
    bad += [lo - 1] if lo is not None else []
    bad += [hi + 1] if hi is not None else []
    if s.get("nullable"):
        good.append(None)
    if path == "snow.albedo.method":
        good = good
    return good, bad


def defaults_case(case, ck):
    import openamundsen as oa

    exp = expected({})
    p = accept(ck, deep({}), exp, full=True)
    ck.check(not isinstance(p.results_dir, str), "results_dir is not a path")
    m = oa.OpenAmundsen(deep({}))
    ck.check(diff(m.config, exp) is None, "configuration of the model", diff=diff(m.config, exp))

    # changes to a parsed configuration have no influence on others
    def poison(x):
        if isinstance(x, dict):
            for v in list(x.values()):
                poison(v)
            x["poison"] = 1
        elif isinstance(x, list):
            for v in x:
                poison(v)
            x.append("poison")

    poison(p)
    poison(m.config)
    accept(ck, deep({}), exp)
    # the same values via attributes and keys
    p = oa.parse_config(deep({}))
    for path in LEAVES:
        a = p
        for k in path.split("."):
            a = getattr(a, k, None)
        if "default" in LEAVES[path] and path != "land_cover.classes":
            ck.check(diff(a, getp(p, path)) is None, "attribute access", path=path)
    ck.outcome("defaults")


def leaves_case(case, ck):
    for n, path in enumerate(LEAVES):
        if n % NCHUNK != case["chunk"] or path in SKIP:
            continue
        good, bad = values(path)
        for i, v in enumerate(good):
            user = {**CONTEXT.get((path, v if not isinstance(v, list) else None), {}), path: v}
            accept(ck, deep(user), expected(user), full=i == 0, path=path)
            ck.outcome((path, str(v)))
        for v in bad:
            reject(ck, deep({path: v}), path=path)
            ck.outcome((path, "rejected", str(v)))


def pairs_case(case, ck):
    """Options of different sections are independent of each other."""
    paths = [p for p in LEAVES if p not in SKIP]
    one = {}
    for p in paths:
        good = values(p)[0]
        v = next((v for v in good if diff(v, LEAVES[p].get("default")) is not None), None)
        if v is not None and (p, v if not isinstance(v, list) else None) not in CONTEXT:
            one[p] = v
    paths = list(one)
    n = len(paths)
    if case["full"]:
        # all pairs
        for k, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            if k % NCHUNK == case["chunk"]:
                user = {paths[i]: one[paths[i]], paths[j]: one[paths[j]]}
                accept(ck, deep(user), expected(user), pair=[paths[i], paths[j]])
        ck.outcome(("pairs", n))
        return
    # covering all pairs of set/default options: options whose index has a given bit set/unset
    for b in range(n.bit_length()):
        for v in (0, 1):
            if (2 * b + v) % NCHUNK != case["chunk"]:
                continue
            user = {paths[i]: one[paths[i]] for i in range(n) if (i >> b & 1) == v}
            accept(ck, deep(user), expected(user), full=True, bit=b, value=v)
            ck.outcome(("bits", b, v))


def structure_case(case, ck):
    """Unknown options on every level and missing required options."""
    levels = {""}
    for p in LEAVES:
        parts = p.split(".")
        levels |= {".".join(parts[:i]) for i in range(1, len(parts))}
    for lev in sorted(levels):
        reject(ck, deep({(lev + "." if lev else "") + "unknown_option": 1}), level=lev)
        if lev:
            c = deep({})
            setp(c, lev, {})
            accept(ck, c, expected({}), level=lev)
            reject(ck, deep({lev: "foo"}), level=lev)
            reject(ck, deep({lev: [1]}), level=lev)
        ck.outcome(lev)
    for k in BASE:
        c = deep({})
        del c[k]
        reject(ck, c, missing=k)
        ck.outcome(("missing", k))


TIMESTEPS = ["30min", "1h", "h", "H", "3h", "3H", "6h", "12h", "D", "1D", "24h", "2D", "5D", "7h"]


def dates_case(case, ck):
    import openamundsen as oa
    from openamundsen.errors import ConfigurationError

    ts = case["timestep"]
    td = timedelta(ts)
    D, T = datetime.date, datetime.datetime
    starts = ["2020-02-27", D(2020, 2, 27), "2020-02-27 06:00", T(2020, 2, 27, 1), "2020-02-27 00:30",
              pd.Timestamp("2020-02-27 12:00")]
    ends = ["2020-02-29", " 2020-02-29 ", D(2020, 2, 29), D(2020, 2, 27), "2020-02-27", "2020-02-26",
            "2020-02-29 00:00", "2020-02-29 06:00", T(2020, 2, 29), T(2020, 2, 29, 12),
            pd.Timestamp("2020-02-29"), pd.Timestamp("2020-02-29 23:00"), "2020-03-03",
            "2020-03-08 00:00"]
    for s, e in itertools.product(starts, ends):
        user = {"start_date": s, "end_date": e, "timestep": ts}
        if td > pd.Timedelta(days=1):
            user["output_data.timeseries.write_freq"] = f"{td.days * 3}D"
        S, E = pd.Timestamp(s), end_date(e, ts)
        ok = S <= E and (E - S) % td == pd.Timedelta(0)
        info = {"start": str(s), "end": repr(e)}
        if not ok:
            reject(ck, deep(user), **info)
            ck.outcome((ts, "rejected"))
            continue
        p = accept(ck, deep(user), expected(user), full=s == starts[0], **info)
        if p is None:
            continue
        # the dates may also be given in a YAML document
        y = "".join(f"{k}: {v}\n" for k, v in {**BASE, **user}.items() if "." not in k)
        if td <= pd.Timedelta(days=1):
            try:
                q = oa.parse_config(oa.Configuration.from_yaml(y))
                ck.check(q.start_date == S and q.end_date == E, "dates of a YAML document",
                         got=[str(q.start_date), str(q.end_date)], **info)
            except ConfigurationError:
                ck.fail("dates of a YAML document rejected", **info)
        ck.outcome((ts, str(S), str(E)))


MODELS = [None, "multilayer", "layers", "cryolayers"]


def rules_case(case, ck):
    m = case["model"]
    for meth, ddf, af, gl, al in itertools.product(
            (None, "energy_balance", "temperature_index", "enhanced_temperature_index"),
            (None, 5.0, 0), (None, 0.01), (False, True), ("snow_age", "usaco", "fsm")):
        if al != "snow_age" and (gl or ddf == 0):
            continue
        user = {"snow.melt.degree_day_factor": ddf, "snow.melt.albedo_factor": af,
                "glaciers.enabled": gl, "snow.albedo.method": al}
        if m:
            user["snow.model"] = m
        if meth:
            user["snow.melt.method"] = meth
        cryo = m == "cryolayers"
        eb = meth in (None, "energy_balance")
        ok = (cryo or eb) and (cryo or not gl)
        if not eb and ddf is None:
            ok = False
        if meth == "enhanced_temperature_index" and af is None:
            ok = False
        if ok:
            accept(ck, deep(user), expected(user))
        else:
            reject(ck, deep(user))
        ck.outcome((m, meth, ddf is None, af is None, gl, ok))


def albedo_case(case, ck):
    """Albedo methods (also the deprecated ones) with all related options set or left out."""
    A = "snow.albedo."
    opts = [("decay_timescale_determination_temperature", (None, "surface", "air")),
            ("refresh_method", (None, "binary", "continuous")),
            ("cold_snow_decay_timescale", (None, 111.0)), ("melting_snow_decay_timescale", (None, 33.0)),
            ("refresh_snowfall", (None, 2.5)), ("k_pos", (None, 0.3)), ("k_neg", (None, 0.07)),
            ("significant_snowfall", (None, 1.7))]
    for vals in itertools.product(*[v for _, v in opts]):
        user = {A + k: v for (k, _), v in zip(opts, vals) if v is not None}
        user[A + "method"] = case["method"]
        accept(ck, deep(user), expected(user))
        ck.outcome((case["method"], vals))


def writefreq_case(case, ck):
    ts = case["timestep"]
    td = timedelta(ts)
    for wf in ("ME", "MS", "YE", "h", "1h", "1D", "2D", "5D", "10D", "15D", "20D", "30D", "7D"):
        user = {"timestep": ts, "end_date": "2019-11-11 00:00",
                "output_data.timeseries.write_freq": wf}
        ok = td <= pd.Timedelta(days=1) or (wf[-1] == "D" and timedelta(wf) % td == pd.Timedelta(0))
        if ok:
            accept(ck, deep(user), expected(user), write_freq=wf)
        else:
            reject(ck, deep(user), write_freq=wf)
        ck.outcome((ts, wf, ok))


def crs_case(case, ck):
    for crs, ok in (("epsg:32632", True), ("EPSG:31287", True), ("epsg:4326", False),
                    ("epsg:3857", True), ("+proj=utm +zone=33 +datum=WGS84", True),
                    ("+proj=longlat +datum=WGS84", False)):
        (accept(ck, deep({"crs": crs}), expected({"crs": crs})) if ok else reject(
            ck, deep({"crs": crs}), crs=crs))
        ck.outcome((crs, ok))
    for v in (-19.9, -1, 0, 0.5, 1.0, 19.9, 273.15, 274, 20, 250):
        u = {"meteo.precipitation_phase.threshold_temp": v}
        accept(ck, deep(u), expected(u))
        ck.outcome(v)


def landcover_case(case, ck):
    over = {"crop_coefficient_type": "single", "crop_coefficients": [0.1, 0.2, 0.3],
            "plant_date": 77, "growth_stage_lengths": [1, 2, 3, 4], "max_height": 7.5,
            "scale_height": False, "rooting_depth": 0.33, "depletion_fraction": 0.44,
            "is_water_body": True, "is_sealed": True, "is_sparse": True, "is_forest": True,
            "sparse_vegetation_fraction": 0.2, "max_sealed_interception": 0.5,
            "leaf_area_index": {"min": 1, "max": 2, "effective_add": 0.1}}
    for c in list(LC) + [99]:
        for k, v in over.items():
            user = {"land_cover.classes": {c: {k: v}}}
            accept(ck, deep(user), expected(user), lcc=c, param=k)
        ck.outcome(c)
    user = {"land_cover.classes": {c: dict(over) for c in (1, 5, 99, 100)}}
    accept(ck, deep(user), expected(user), full=True)
    user = {"land_cover.classes": {4: {"growth_stage_lengths": [[1, 2, 3, 4], [5, 6, 7, 8]]}}}
    accept(ck, deep(user), expected(user), full=True)
    for bad in ({"foo": 1}, {"plant_date": 0}, {"plant_date": 367}, {"plant_date": 1.5},
                {"crop_coefficient_type": "triple"}, {"crop_coefficients": [1, 2]},
                {"growth_stage_lengths": [1, 2, 3]}, {"growth_stage_lengths": [[1, 2, 3]]},
                {"leaf_area_index": {"foo": 1}}, {"leaf_area_index": {"min": "a"}},
                {"max_height": "a"}, {"is_forest": "yes"}):
        for c in (1, 5, 99):
            reject(ck, deep({"land_cover.classes": {c: bad}}), lcc=c)
        ck.outcome(str(bad))


def aliases_case(case, ck):
    """Deprecated options."""
    w = "meteo.interpolation.wind"
    c = "meteo.interpolation.cloudiness"
    for wind, day, night, model, ts in itertools.product(
            (False, True), (None, "humidity", "prescribed"), (None, "constant"),
            ("layers", "multilayer", "cryolayers"), ("3H", "H", "h")):
        old, new = {"snow.model": model, "timestep": ts}, {"snow.model": model, "timestep": ts}
        if wind:
            old[w + "_speed"] = {"method": "liston", "slope_weight": 0.3}
            new[w + ".method"], new[w + ".slope_weight"] = "liston", 0.3
        if day:
            old[c + ".day_method"] = day
            new[c + ".method"] = day
        if night:
            old[c + ".night_method"] = night
            new[c + ".clear_sky_fraction_night_method"] = night
        accept(ck, deep(old), expected(new), full=True)
        ck.outcome((wind, day, night, model, ts))
    reject(ck, deep({c + ".day_method": "humidity", c + ".method": "humidity"}))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
