"""C19: gaps in the forcing never outlive the gap (no NaN enters the retained state)."""

import copy
import itertools

import numpy as np

from .. import words

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "gaps are prescribed per pixel and variable on a flat domain (gaps at stations: C09, C10)",
    "all 63 subsets of the six forcing variables, gaps of one and two time steps, before/after "
    "contexts from a small set of weather words",
]

NAN = float("nan")
BASES = "SHRC"
SNOW = {
    "ml": {"model": "multilayer"},
    "ml_alt": {"model": "multilayer", "compaction": {"method": "empirical"},
               "albedo": {"refresh_method": "continuous",
                          "decay_timescale_determination_temperature": "air"},
               "liquid_water_content": {"method": "mass_fraction", "max": 0.1}},
    "cryo": {"model": "cryolayers"},
    "cryo_legacy": {"model": "cryolayers",
                    "cryolayers": {"surface_temperature_iteration_method": "legacy",
                                   "use_single_snow_albedo": False,
                                   "transition": {"old_snow": 130.0}}},
    "ti": {"model": "cryolayers",
           "melt": {"method": "temperature_index", "degree_day_factor": 6.0}},
    "eti": {"model": "cryolayers",
            "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 4.0,
                     "albedo_factor": 0.1}},
}
LAND = {"open": None, "land": [4, 5, 6, 2, 1, 0, 8]}
CONTEXT = [("", "CSH"), ("SS", "HSC"), ("SR", "CHR"), ("SSSSH", "RCH")]
VARS = ["temp", "rel_hum", "wind_speed", "precip", "cloud_fraction", "cloud_factor"]

# defined only while there is no snow
BARE_ONLY = {f"evapotranspiration.{v}": "bare" for v in ("crop_coeff", "evaporation_coeff",
                                                        "water_stress_coeff")}


def cases(tier):
    out = []
    for snow, land, ts in itertools.product(SNOW, LAND, ("3h", "1D") if tier == "quick"
                                            else ("1h", "3h", "1D")):
        for phase in ("wet_bulb_temp", "temp"):
            if tier == "quick" and phase == "temp" and (ts == "1D" or land == "land"):
                continue
            for i in range(len(CONTEXT)):
                out.append({"snow": snow, "land": land, "timestep": ts, "phase": phase,
                            "context": i, "pairs": "diag" if tier == "quick" else "all"})
    # all pairs of consecutive gaps
    for snow in SNOW:
        out.append({"snow": snow, "land": "open", "timestep": "3h", "phase": "wet_bulb_temp",
                    "context": 2, "pairs": "all"})
    return out


def gap_letter(base, mask):
    return chr(0x4000 + 64 * BASES.index(base) + mask)


def letters():
    out = dict(words.LETTERS)
    for b in BASES:
        for mask in range(1, 64):
            v = list(words.LETTERS[b])
            for i in range(6):
                if mask >> i & 1:
                    v[i] = NAN
            out[gap_letter(b, mask)] = tuple(v)
    return out


def float_state(m):
    """All floating point state variables: {name: array}."""
    out = {}
    for cat in m.state.categories:
        for name, a in m.state[cat].items():
            if name == "last_24h_temps":  # buffer, used through its mean only
                continue
            if isinstance(a, np.ndarray) and a.dtype.kind == "f":
                out[f"{cat}.{name}"] = a
    return out


# defined only while there is snow (in that layer)
SNOW_ONLY = {"snow.albedo": "swe", "snow.density": "layer", "snow.layer_albedo": "layer"}
# ... with the cryolayer model
CRYO_ONLY = {f"surface.{v}": "swe" for v in ("heat_flux", "lat_heat_flux", "moisture_flux",
                                            "moisture_availability")}


def run_case(case, ck):
    pre, post = CONTEXT[case["context"]]
    L = letters()
    wl, twin = [], []
    index = {}

    def add(w, ref):
        if ref not in index:
            index[ref] = len(wl)
            wl.append(ref)
            twin.append(index[ref])
        wl.append(w)
        twin.append(index[ref])

    for b in BASES:
        for mask in range(1, 64):
            g = gap_letter(b, mask)
            add(pre + g + b + post, pre + b + b + post)
            add(pre + g + g + post, pre + b + b + post)
    if case["pairs"] == "all":
        b = "S"
        for m1, m2 in itertools.product(range(1, 64), repeat=2):
            add(pre + gap_letter(b, m1) + gap_letter(b, m2) + post, pre + b + b + post)
    lcs = LAND[case["land"]]
    rasters = {}
    n = len(wl)
    if lcs:
        full = [(w, t + k * n) for k in range(len(lcs)) for w, t in zip(wl, twin)]
        rasters = {"lc": np.repeat(lcs, n).astype(float), "soil": np.full(n * len(lcs), 4.0)}
        wl = [f[0] for f in full]
        twin = [f[1] for f in full]
    cfg = {"snow": copy.deepcopy(SNOW[case["snow"]]),
           "meteo": {"precipitation_phase": {"method": case["phase"]}}}
    if lcs:
        cfg["canopy"] = {"enabled": True}
        cfg["evapotranspiration"] = {"enabled": True}
    run = words.WordRun(ck, wl, "2020-06-02 06:00", case["timestep"], cfg, letters=L,
                        rasters=rasters)
    m = run.m
    roi = run.roi
    twin = np.array(twin)
    ns, nt = words.prefix_nodes(wl)
    ck.states(ns)
    ck.transitions(nt)
    ck.traces(len(wl))
    ck.sample({"config": cfg, "words": len(wl), "pre": pre, "post": post})
    gap = np.array([[ord(c) >= 0x4000 for c in w] for w in wl])
    z = np.nan_to_num
    swe0 = np.zeros(len(wl))

    def describe(i):
        return "".join(c if ord(c) < 0x4000 else "<%s without %s>" % (
            BASES[(ord(c) - 0x4000) // 64],
            ",".join(VARS[k] for k in range(6) if (ord(c) - 0x4000) % 64 >> k & 1))
            for c in wl[i])

    snow_only = {**SNOW_ONLY, **BARE_ONLY}
    if SNOW[case["snow"]]["model"] == "cryolayers":
        snow_only.update(CRYO_ONLY)
    for t in run.steps():
        m.run_single()
        st = {k: a[..., roi] for k, a in float_state(m).items()}
        swe = st["snow.ice_content"].sum(axis=0) + st["snow.liquid_water_content"].sum(axis=0)
        # the mass balance holds also within gaps
        sf, rf = z(st["meteo.snowfall"]), z(st["meteo.rainfall"])
        res = swe - swe0 - (sf + rf - z(st["snow.runoff"]) - z(st["snow.sublimation"]))
        bad = ~(np.abs(res) <= 2e-3)
        ck.c["assertions"] += len(res)
        if bad.any():
            i = int(np.argmax(bad))
            ck.fail("snow water balance does not close in a gap", word=describe(i), step=t,
                    residual=res[i], n_failing=int(bad.sum()))
        swe0 = swe
        no_gap = ~gap[:, t]
        # a variable is missing only if it is also missing without the gap
        for k, a in st.items():
            fin = np.isfinite(a)
            ref = fin[..., twin]
            ok = fin | ~ref
            if k in snow_only:
                ok = ok | {"swe": swe == 0, "bare": swe > 0,
                           "layer": st["snow.thickness"] == 0}[snow_only[k]]
            ok = ok | ~no_gap
            ck.c["assertions"] += ok.size
            if not ok.all():
                idx = np.argwhere(~ok)
                i = int(idx[0][-1])
                ck.fail("variable is missing although the forcing is complete again", var=k,
                        word=describe(i), step=t, n_failing=len(idx),
                        lc=None if not lcs else float(rasters["lc"][i]))
        ck.outcome((case["snow"], case["land"], t, bool((swe > 0).any()), bool((swe == 0).any())))
