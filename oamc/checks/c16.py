"""C16: glacier geometry update (delta-h) conserves mass."""

import itertools

import numpy as np
import pandas as pd

from .. import domain

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "glaciers of 1-4 pixels over 3 elevations x 4 thicknesses x 3 annual losses (all multisets), "
    "larger ones with structured patterns; no pixel loses more than its ice within a year",
    "thicknesses are well away from the 10 m limit of the update",
]

ICE, FIRN, OLD, NEW = 3, 2, 1, 0
RHO = 900.0  # density of the ice layer
DDF = 1.0
ELEV = [2500.0, 2560.0, 2800.0]
THICK = [0.0, 5.0, 15.0, 80.0]
LOSS = [0.0, 400.0, 2500.0]  # kg m-2 per year


def cases(tier):
    out = []
    k = 28 if tier == "quick" else 12
    for n in (1, 2, 3):
        parts = {1: 1, 2: 2, 3: k}[n]
        for part in range(parts):
            if n == 3 and tier == "quick" and part % 2:
                continue
            out.append({"kind": "melt", "n": n, "part": part, "parts": parts, "years": 2,
                        "res": [50, 1500, 2000][part % 3], "start": "2019-10-01 00:00", "ts": "1D",
                        "month": 10})
    for part in range(4 if tier == "quick" else 16):
        out.append({"kind": "melt", "n": 4, "part": part, "parts": 4 if tier == "quick" else 16,
                    "years": 1, "res": [50, 2500][part % 2], "start": "2019-10-01 00:00",
                    "ts": "1D", "month": 10, "small": tier == "quick"})
    for n, res in itertools.product((11, 12, 21), (50, 500, 1500)):
        out.append({"kind": "melt", "n": n, "part": 0, "parts": 1, "years": 1, "res": res,
                    "start": "2019-10-01 00:00", "ts": "1D", "month": 10})
    # begin of the mass balance year and of the run
    for month in range(1, 13):
        for start in (f"2019-{month:02d}-01 00:00", f"2019-{month:02d}-02 00:00"):
            if tier == "quick" and start[8:10] == "02" and month % 3:
                continue
            out.append({"kind": "melt", "n": 2, "part": month % 4, "parts": 8, "years": 2,
                        "res": 50, "start": start, "ts": "1D", "month": month})
    for ts, start in (("6h", "2019-10-01 00:00"), ("12h", "2019-09-30 12:00")):
        out.append({"kind": "melt", "n": 2, "part": 0, "parts": 8, "years": 1, "res": 50,
                    "start": start, "ts": ts, "month": 10})
    # runs ending within, at the end of and after the last month of the mass balance year
    for ts, day, upd in (("1D", "01 00:00", 0), ("1D", "17 00:00", 0), ("1D", "29 00:00", 0),
                         ("1D", "30 00:00", 1), ("6h", "30 12:00", 0), ("6h", "30 18:00", 1)):
        out.append({"kind": "melt", "n": 2, "part": 1, "parts": 8, "years": 1, "res": 50,
                    "start": "2019-10-01 00:00", "ts": ts, "month": 10,
                    "end": f"2020-09-{day}", "updates": upd})
    for firn, month, seq in itertools.product((10, 4), (10, 1), (0, 1, 2)):
        out.append({"kind": "twin", "firn": firn, "month": month, "seq": seq})
    return out


def glaciers_of(case):
    n = case["n"]
    if n > 4:
        out = []
        for pat in itertools.product((0, 1), repeat=6):
            out.append([(2500.0 + step * i, 40.0 if i % 5 else (5.0 if pat[5] else 25.0),
                         [600.0, 2500.0][pat[i % 6]] if not dec else 2600.0 - 100 * i)
                        for i in range(n) for step, dec in [((10.0, 45.0, 26.5, 24.5)[pat[0] + 2 * pat[3]], pat[1] and pat[2])]])
            if pat[4]:  # pixels in descending order
                out[-1].reverse()
        return out
    th = THICK if n < 4 else [5.0, 15.0, 80.0]
    lo = LOSS if n < 4 else LOSS[1:]
    el = ELEV if n < 4 else ELEV[::2] if case.get("small") else ELEV
    letters = list(itertools.product(el, th, lo))
    gl = list(itertools.combinations_with_replacement(letters, n))[case["part"]::case["parts"]]
    # different orders of the pixels on the grid
    return [(g[i % n:] + g[:i % n])[::(-1) ** (i // n)] for i, g in enumerate(gl)]


def huss(h, area):
    if area >= 20e6:
        d = (h - 0.02) ** 6 + 0.12 * (h - 0.02)
    elif area >= 5e6:
        d = (h - 0.05) ** 4 + 0.19 * (h - 0.05) + 0.01
    else:
        d = (h - 0.3) ** 2 + 0.6 * (h - 0.3) + 0.09
    return min(max(d, 0.0), 1.0)


def redistribute(elev, old_ice, mb, firn_mb, res, dem_all=None):
    """New ice mass of the updated pixels of one glacier; dict index -> kg m-2."""
    on = [i for i in range(len(elev)) if old_ice[i] > 0]
    upd = [i for i in on if old_ice[i] / 917.0 >= 10.0]
    if len(upd) < 2:
        return {}
    total = sum(mb[i] for i in upd)
    if total < 0:
        order = sorted(elev[i] for i in on)
        k = int(np.ceil(len(on) * 0.1))
        lim = max(order[k - 1], order[0] + 50.0)
        cap = min(min(mb[i] for i in on if elev[i] <= lim), 0.0)
        hi, lo = max(elev[i] for i in upd), min(elev[i] for i in upd)
        if hi == lo:
            dm = {i: total / len(upd) for i in upd}
        else:
            w = {i: huss((hi - elev[i]) / (hi - lo), len(on) * res ** 2) for i in upd}
            sw = sum(w.values())
            dm = {i: total * w[i] / sw for i in upd}
            over = [i for i in upd if dm[i] < cap]
            rest = [i for i in upd if i not in over]
            if cap < 0 and over and len(rest) > 1:
                surplus = sum(dm[i] - cap for i in over)
                for i in over:
                    dm[i] = cap
                h1, l1 = max(elev[i] for i in rest), min(elev[i] for i in rest)
                z = {i: (elev[i] - l1) / (h1 - l1) if h1 > l1 else 1.0 for i in rest}
                for i in rest:
                    dm[i] += surplus * z[i] / sum(z.values())
    else:
        dm = {i: total / len(upd) for i in upd}
    return {i: max(old_ice[i] + dm[i] - firn_mb[i], 0.0) for i in upd}


def build(ck, elev, gid, cfg, force, res, start, end, ts):
    import openamundsen as oa

    rows = int(np.ceil(len(elev) / 64))
    shape = (rows, 64 if len(elev) > 64 else len(elev))
    tot = shape[0] * shape[1]

    def grid(v, fill):
        a = np.full(tot, fill, dtype=float)
        a[:len(v)] = v
        return a.reshape(shape)

    g = domain.make_grids(ck.scratch.sub("g"), grid(elev, 2000.0), res=res,
                          roi=grid(np.ones(len(elev)), 0), glaciers=grid(gid, 0))
    c = domain.base_config(g, ck.scratch.sub("r"), start, end, ts)
    c["resolution"] = res
    domain.merge(c, cfg)
    m = oa.OpenAmundsen(c)
    m.initialize(meteo_callback=force)
    return m


def melt_case(case, ck):
    """Bare ice with constant melt per pixel: the reference predicts all states."""
    gl = glaciers_of(case)
    elev = np.array([p[0] for g in gl for p in g])
    th = np.array([p[1] for g in gl for p in g])
    loss = np.array([p[2] for g in gl for p in g])
    gid = np.array([k + 1 for k, g in enumerate(gl) for _ in g])
    idx = [np.flatnonzero(gid == k + 1) for k in range(len(gl))]
    # one pixel with ice not belonging to any glacier, one without ice
    elev = np.append(elev, [2500.0, 2600.0])
    th = np.append(th, [30.0, 0.0])
    loss = np.append(loss, [400.0, 400.0])
    gid = np.append(gid, [0, 1])
    n = len(elev)
    start = pd.Timestamp(case["start"])
    end = pd.Timestamp(case.get("end", f"{2019 + case['years']}-{case['month']:02d}-03 00:00"))
    dt_d = pd.Timedelta(case["ts"]) / pd.Timedelta("1D")
    rate = loss / 366.0 * dt_d  # per time step
    temp = 273.15 + loss / 366.0 / DDF
    temp[loss == 0] = 265.0

    def force(m):
        mm, roi = m.state.meteo, m.grid.roi
        mm.temp[roi], mm.rel_hum[roi], mm.wind_speed[roi] = temp, 80.0, 2.0
        mm.precip[roi], mm.cloud_fraction[roi], mm.cloud_factor[roi] = 0.0, 1.0, 0.3

    cfg = {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index",
                                                    "degree_day_factor": DDF,
                                                    "threshold_temp": 273.15},
                    },
           "glaciers": {"enabled": True,
                        "delta_h": {"mass_balance_year_start_month": case["month"]}}}
    m = build(ck, elev, gid, cfg, force, case["res"], str(start), str(end), case["ts"])
    roi = m.grid.roi
    s = m.state.snow

    def put(var, v):
        a = s[var][ICE]
        a[roi] = v

    put("ice_content", th * RHO)
    put("thickness", th)
    put("density", np.where(th > 0, RHO, np.nan))
    ref = th * RHO
    begin = None
    updates = 0
    mend = (case["month"] - 2) % 12 + 1
    for i, date in enumerate(m.dates):
        m.run_single()
        ref = ref - np.minimum(rate, ref)
        nxt = date + pd.Timedelta(case["ts"])
        # the mass balance year begins after the very first step of its first month
        if date.month == case["month"] and date.day == 1 and date - pd.Timedelta(case["ts"]) < \
                pd.Timestamp(date.year, date.month, 1) and (i > 0 or date == pd.Timestamp(
                    date.year, date.month, 1)):
            begin = ref.copy()
        elif date.month == mend and nxt.month != mend and begin is not None:
            mb = ref - begin
            for k, ii in enumerate(idx):
                new = redistribute(elev[ii], begin[ii], mb[ii], np.zeros(len(ii)), case["res"])
                old_total = ref[ii].sum()
                for j, v in new.items():
                    ref[ii[j]] = v
                if all(v > 0 for v in new.values()):
                    assert abs(ref[ii].sum() - old_total) < 1e-6 * (1 + old_total), gl[k]
            updates += 1
        if i % 61 == 0 or i == len(m.dates) - 1 or nxt.month != date.month or date.day == 1:
            got = s.ice_content[ICE][roi] + s.liquid_water_content[ICE][roi]
            tot = (s.ice_content + s.liquid_water_content)[:, roi].sum(axis=0)
            ck.close(got, ref, "ice mass", rtol=1e-7, atol=1e-5, date=str(date), updates=updates)
            ck.close(tot, ref, "total mass", rtol=1e-7, atol=1e-5, date=str(date))
            ck.close(s.swe[roi], ref, "snow water equivalent after the update", rtol=1e-7,
                     atol=1e-5, date=str(date))
            ck.close(s.depth[roi], ref / RHO, "depth", rtol=1e-6, atol=1e-6, date=str(date))
            for k, ii in enumerate(idx):
                ck.check(abs(got[ii].sum() - ref[ii].sum()) < 1e-5 * (1 + ref[ii].sum()),
                         "glacier mass not conserved", glacier=gl[k], date=str(date))
        ck.transitions(len(gl))
    exp = case["years"] if start.day == 1 or start.month != case["month"] else case["years"] - 1
    exp = case.get("updates", exp)
    assert updates == exp, (updates, exp)
    ck.states(len(gl) * (updates + 1))
    ck.traces(len(gl))
    ck.outcome((str(case), round(float(ref.sum()), 3)))


TWIN = [
    [(2500.0, 60.0, 0.0), (2600.0, 40.0, 12.0), (2900.0, 30.0, 20.0)],
    [(2500.0, 20.0, 5.0), (2510.0, 20.0, 30.0)],
    [(2500.0, 20.0, 0.0), (2500.0, 50.0, 11.0), (2700.0, 5.0, 8.0), (3000.0, 70.0, 0.5)],
    [(2500.0, 0.0, 9.0), (2700.0, 0.0, 3.0)],
    [(2500.0, 50.0, 0.0)],
]


def twin_case(case, ck):
    """Snow, firn and ice with seasons: compared with the same run without glacier update."""
    gl = TWIN
    elev = np.array([p[0] for g in gl for p in g])
    th = np.array([p[1] for g in gl for p in g])
    firn = np.array([p[2] for g in gl for p in g])
    gid = np.array([k + 1 for k, g in enumerate(gl) for _ in g])
    n = len(elev)
    month = case["month"]
    start = f"2019-{month:02d}-01 00:00"
    end = f"2020-{(month - 2) % 12 + 1:02d}-" if month > 1 else "2019-12-"
    end = str((pd.Timestamp(end + "01") + pd.offsets.MonthEnd(0)) + pd.Timedelta("2D"))

    def force(m):
        mm, roi = m.state.meteo, m.grid.roi
        doy = m.date.dayofyear
        base = {0: 268.0 + 12 * np.sin((doy - 110) / 365 * 2 * np.pi),
                1: 262.0 + 8 * np.sin((doy - 110) / 365 * 2 * np.pi),
                2: 274.0 + 10 * np.sin((doy - 110) / 365 * 2 * np.pi)}[case["seq"]]
        t = base - 0.0065 * (elev - 2600.0)
        mm.temp[roi], mm.rel_hum[roi], mm.wind_speed[roi] = t, 90.0, 2.0
        mm.precip[roi] = np.where(doy % 3 == 0, 14.0, 0.0) + 0.2 * np.arange(n)
        mm.cloud_fraction[roi], mm.cloud_factor[roi] = 0.7, 0.6

    runs = []
    for glaciers in (True, False):
        cfg = {"snow": {"model": "cryolayers", "melt": {"method": "temperature_index",
                                                        "degree_day_factor": 6.0},
                        "cryolayers": {"transition": {"firn": case["firn"]}}},
               "glaciers": {"enabled": glaciers,
                            "delta_h": {"mass_balance_year_start_month": month}}}
        m = build(ck, elev, gid, cfg, force, 50, start, end, "1D")
        roi = m.grid.roi
        s = m.state.snow
        # firn close to the ice density on some pixels
        dens = np.where(np.arange(n) % 2, 880.0, 600.0)
        for layer, v, d in ((ICE, th, np.full(n, RHO)), (FIRN, firn, dens)):
            s.ice_content[layer][roi] = v * d
            s.thickness[layer][roi] = v
            s.density[layer][roi] = np.where(v > 0, d, np.nan)
        runs.append(m)
    a, b = runs
    begin = None
    for i, date in enumerate(a.dates):
        a.run_single()
        b.run_single()
        roi = a.grid.roi
        we = [(m.state.snow.ice_content + m.state.snow.liquid_water_content)[:, roi] for m in runs]
        last = i == len(a.dates) - 3
        if i == 0:
            begin = we[1].copy()
        if not last:
            if i < len(a.dates) - 3:
                ck.close(we[0], we[1], "state changed without a geometry update", date=str(date))
            ck.transitions(len(gl))
            continue
        assert (date + pd.Timedelta("1D")).month == month
        exp = we[1].copy()
        for k in range(len(gl)):
            ii = np.flatnonzero(gid == k + 1)
            d = exp - begin
            new = redistribute(elev[ii], begin[ICE][ii], (d[ICE] + d[FIRN])[ii], d[FIRN][ii], 50)
            for j, v in new.items():
                exp[ICE, ii[j]] = v
            ck.check(abs(we[0][:, ii].sum() - we[1][:, ii].sum()) < 1e-6 * (1 + we[1][:, ii].sum()),
                     "glacier mass not conserved by the update", glacier=gl[k],
                     got=we[0][:, ii].sum(), expected=we[1][:, ii].sum())
        ck.close(we[0], exp, "mass after the geometry update", rtol=1e-7, atol=1e-5)
        s = a.state.snow
        ck.close(s.swe[roi], exp.sum(axis=0), "snow water equivalent after the update", rtol=1e-7,
                 atol=1e-5)
        ck.close(s.depth[roi], s.thickness[:, roi].sum(axis=0), "depth after the update")
        ck.check(np.isfinite(s.depth[roi]).all(), "depth missing after the update")
        ck.transitions(len(gl))
    ck.states(len(gl) * 2)
    ck.traces(len(gl))
    ck.outcome((str(case), round(float(exp.sum()), 3)))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
