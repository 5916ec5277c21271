"""C29: schedules of the parallel loops.

The loops executed in parallel by the compiled model are rewritten (oamc/sched.py) so that their
iterations are tasks of a controlled scheduler; conflicting accesses of the iterations are determined
for every execution of a loop in the model runs below and, where there are any, the interleavings are
explored.
"""

import itertools

import numpy as np

from .. import configs, domain, sched, snowcase as sc, words

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the loops over numba's prange of the package; each iteration is an atomic task except for its "
    "accesses to arrays shared with other iterations",
    "pairs of conflicting iterations with at most two preemptions at the conflicting accesses (up to "
    "60 pairs per loop execution); iterations without conflicting accesses commute",
    "weather words of 2 (thorough: 3) letters after prefixes building up the snow cover",
]

RUNS = {**{"m_" + k: v for k, v in sc.MULTILAYER_CONFIGS.items()},
        **{"c_" + k: v for k, v in sc.CRYO_CONFIGS.items()},
        **{"a_" + k: v for k, v in configs.ALL.items()}}
PREFIX = ["SSS", "SSH", "SRC"]
DEMS = {
    "ridge": [[0, 0, 0, 0, 0], [0, 9, 9, 0, 0], [0, 9, 60, 9, 0], [0, 0, 9, 9, 0], [0, 0, 0, 0, 0]],
    "steps": [[0, 20, 40, 60], [60, 40, 20, 0], [0, 50, 0, 50], [30, 0, 30, 0]],
    "hole": [[5, 5, 5], [5, np.nan, 30], [80, 5, 5]],
    "flat": [[1.0] * 4] * 3,
}
_kernels = []


def cases(tier):
    ts = ["3h", "1D"] if tier == "quick" else ["1h", "3h", "12h", "1D"]
    out = [{"kind": "words", "run": k, "timestep": t} for k in RUNS for t in ts]
    out += [{"kind": "shadows", "dem": d} for d in DEMS]
    out += [{"kind": "terrain", "dem": d} for d in DEMS if d != "hole"]
    out += [{"kind": "idw"}, {"kind": "control"}]
    return out


def run_case(case, ck):
    if not _kernels:
        _kernels.extend(sched.instrument())
        ck.count("rewritten_kernels", len(_kernels))
    st = sched.begin(ck)
    try:
        globals()[case["kind"] + "_case"](case, ck)
    finally:
        sched.end()
    ck.states(st["iterations"])
    ck.transitions(st["accesses"])
    ck.traces(st["loops"] + st["schedules"])
    for k in ("loops", "pairs", "conflicts", "schedules", "schedules_truncated", "unrecorded"):
        ck.count("parallel_" + k if k == "loops" else k, st[k])
    for k in st["kernels"]:
        ck.outcome(k)


def words_case(case, ck):
    name = case["run"]
    length = 2 if ck.tier == "quick" else 3
    ws = words.words("CRHN" if ck.tier == "quick" else "CSRHNWT", length, PREFIX)
    rasters = configs.rasters(name[2:], len(ws)) if name[:2] == "a_" else {}
    run = words.WordRun(ck, ws, "2020-09-29 06:00", case["timestep"], RUNS[name], rasters=rasters)
    for _ in run.steps():
        run.m.run_single()
    ck.outcome((name, case["timestep"], round(float(np.nansum(run.get("snow", "swe"))), 6)))


def shadows_case(case, ck):
    from openamundsen.modules.radiation import shadows

    dem = np.array(DEMS[case["dem"]], dtype=float)
    step = 15 if ck.tier == "quick" else 5
    for az, el, sweeps in itertools.product(range(0, 360, step), (5, 25, 60), (1, 2, -1)):
        a, e = np.deg2rad(az), np.deg2rad(el)
        # axes of the solar vector: east, south, up
        vec = np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
        illum = shadows(dem, 25.0, vec, num_sweeps=sweeps)
        ck.outcome((case["dem"], int(np.sum(illum))))


def terrain_case(case, ck):
    from openamundsen import terrain

    dem = np.array(DEMS[case["dem"]], dtype=float)
    svf = terrain.sky_view_factor(dem, 25.0, elev_step=10, azim_step=30)
    ck.outcome(round(float(np.sum(svf)), 6))
    if hasattr(terrain, "openness"):
        ck.outcome(repr(np.sum(terrain.openness(dem, 25.0, 100.0))))


def idw_case(case, ck):
    from openamundsen.interpolation import idw

    for n, power, smooth in itertools.product((1, 2, 4), (1, 2, 3), (0.0, 5.0)):
        x = np.arange(n) * 10.0
        t = np.arange(12.0) * 5
        z = idw(x, x * 0.5, x + 3, t, t * 0.5, power=power, smoothing=smooth)
        ck.outcome(round(float(np.nansum(z)), 6))


def control_case(case, ck):
    """The explorer finds a known race and accepts a known benign conflict."""
    found = []
    scratch, out, flags = np.zeros(3), np.zeros(6), np.zeros(1)

    def racy(i):
        scratch[:] = i + 1
        out[i] = scratch.sum()

    def benign(i):
        flags[0] = 1
        out[i] = i

    st, fail = sched.S.stats, sched.S.fail
    try:
        sched.S.fail = lambda *a, **k: found.append(k)
        sched.parallel(benign, False, "control", None, 6)
        ck.check(not found, "benign conflict reported")
        sched.parallel(racy, False, "control", None, 6)
        ck.check(bool(found), "race not found")
    finally:
        sched.S.fail = fail
    ck.check(np.array_equal(out, 3.0 * np.arange(1, 7)), "result of the sequential execution")
    ck.outcome("control")
