"""C09: reading of the meteorological station data."""

import itertools
import math

import numpy as np
import pandas as pd

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "stations with 1-4 variables gap patterns, native frequencies 30 min to 1 day, series of up to "
    "3 days; values pairwise distinct",
]
NAN = float("nan")
TIER = "thorough"
TD = pd.Timedelta
FREQS = {"30min": TD("30min"), "h": TD("1h"), "1h": TD("1h"), "2h": TD("2h"), "3h": TD("3h"),
         "6h": TD("6h"), "12h": TD("12h"), "D": TD("24h"), "1D": TD("24h"), "24h": TD("24h"),
         "90min": TD("90min")}
NC = {"temp": "tas", "precip": "pr", "rel_hum": "hurs", "sw_in": "rsds", "wind_speed": "wss"}
UNITS = {"temp": "K", "precip": "kg m-2", "rel_hum": "%", "sw_in": "W m-2", "wind_speed": "m s-1",
         "wind_dir": "degree", "wind_speed_gust": "m s-1", "cloud_fraction": "%"}
VARS = ["temp", "precip", "rel_hum", "sw_in", "wind_speed"]
RANGES = {"temp": (200, 330), "rel_hum": (1, 100), "precip": (0, None), "wind_speed": (0, 50),
          "sw_in": (0, 1500)}


QUICK = {"30min": "30min h 6h 1D", "h": "h 1h 90min 3h 12h D 24h", "3h": "h 3h 6h 1D",
         "D": "h D 1D 24h"}


def cases(tier):
    out = []
    global TIER
    TIER = tier
    native = ["30min", "h", "3h", "D"]
    target = ["30min", "h", "1h", "90min", "2h", "3h", "6h", "12h", "D", "1D", "24h"]
    for nat, tgt, agg, fmt in itertools.product(native, target, (False, True), ("csv", "netcdf")):
        if tier == "quick" and tgt not in QUICK[nat].split():
            continue
        out.append({"kind": "resample", "native": nat, "target": tgt, "agg": agg, "fmt": fmt})
    for agg, checks, tgt in itertools.product((False, True), (True, False), ("h", "3h", "1D")):
        out.append({"kind": "coverage", "agg": agg, "checks": checks, "target": tgt})
    for fmt in ("csv", "netcdf"):
        out.append({"kind": "rules", "fmt": fmt})
        out.append({"kind": "bounds", "fmt": fmt})
        out.append({"kind": "uniform", "fmt": fmt})
    out.append({"kind": "crs"})
    ids = IDS[:8] if tier == "quick" else IDS
    for fmt, a in itertools.product(("csv", "netcdf"), ids):
        out.append({"kind": "ids", "fmt": fmt, "first": a, "second": [b for b in ids if b != a]})
    for part in range(4):
        out.append({"kind": "metadata", "part": part})
    out.append({"kind": "filters"})
    for n, freq in itertools.product((3, 9, 12, 30), ("h", "3h", "D")):
        if tier != "quick" or (n, freq) in ((3, "D"), (9, "h"), (12, "3h"), (30, "h")):
            out.append({"kind": "units", "n": n, "freq": freq})
    out.append({"kind": "formats"})
    return out


def value(var, k, i):
    """Distinct raw values of station k, record i."""
    return {"temp": 260.0 + 0.11 * i + 3 * k, "precip": 0.1 * ((i * 7 + k) % 11),
            "rel_hum": 20.0 + (i * 3.7 + 11 * k) % 79, "sw_in": (i * 13.3 + k) % 900,
            "wind_speed": 0.5 + (i * 1.3 + k) % 9, "wind_dir": (i * 37.0 + 100 * k) % 360,
            "wind_speed_gust": 3.0 + (i * 2.9 + k) % 17,
            "cloud_fraction": (i * 9.1 + k * 5) % 100}[var]


def series(k, t0, t1, freq, variables, gaps=None):
    dates = pd.date_range(t0, t1, freq=FREQS[freq])
    df = pd.DataFrame({v: [value(v, k, i) for i in range(len(dates))] for v in variables},
                      index=dates)
    if gaps:
        for v in variables:
            pat = gaps.get(v)
            if pat:
                df.loc[[bool(pat >> (i % 8) & 1) for i in range(len(dates))], v] = NAN
    return df


POS = [(75.0, 30.0, 1400.0), (20.0, 80.0, 1900.0), (900.0, 50.0, 1000.0), (-3000.0, 2000.0, 2500.0)]


def write(d, fmt, stations, rate=True, attrs=True):
    """stations: dict id -> (name, (dx, dy, alt), DataFrame)"""
    import xarray as xr

    rows = []
    for sid, (name, (dx, dy, alt), df) in stations.items():
        x, y = domain.X0 + dx, domain.Y0 + dy
        if fmt == "csv":
            rows.append({"id": sid, "name": name, "x": x, "y": y, "alt": alt})
            df.to_csv(d / f"{sid}.csv", index_label="date", float_format="%.12g")
        else:
            lon, lat = refmet.lonlat(x, y)
            ds = xr.Dataset(coords={"time": df.index})
            for v in df.columns:
                a = df[v].to_numpy().copy()
                u = UNITS[v]
                if v == "precip" and rate and attrs and len(df) > 2:
                    a = a / (df.index[1] - df.index[0]).total_seconds()
                    u = "kg m-2 s-1"
                ds[NC.get(v, v)] = ("time", a, {"units": u} if attrs else {})
            ds["lon"], ds["lat"], ds["alt"] = float(lon), float(lat), float(alt)
            ds.attrs["station_name"] = name
            ds.to_netcdf(d / f"{sid}.nc")
    if fmt == "csv":
        pd.DataFrame(rows).to_csv(d / "stations.csv", index=False)


def model(ck, d, fmt, start, end, ts, **meteo):
    import openamundsen as oa

    g = ck.grids = getattr(ck, "grids", None) or domain.make_grids(
        ck.scratch.sub("g"), np.full((2, 2), 1500.0))
    cfg = domain.base_config(g, ck.scratch.sub("r"), str(start), str(end), ts)
    cfg["input_data"]["meteo"] = {"format": fmt, "dir": str(d), "bounds": "global", **meteo}
    m = oa.OpenAmundsen(cfg)
    return m


def filtered(df, ranges=RANGES):
    df = df.copy()
    for v, (lo, hi) in ranges.items():
        if v in df:
            a = df[v].to_numpy().copy()
            with np.errstate(invalid="ignore"):
                if lo is not None:
                    a[a < lo] = NAN
                if hi is not None:
                    a[a > hi] = NAN
            df[v] = a
    return df


def reference(df, dates, nat, tgt, agg, ranges=RANGES):
    """Expected values of one station at the model dates, or None (not supported)."""
    nd, td = FREQS[nat], FREQS[tgt]
    df = filtered(df, ranges)
    recs = {t: r for t, r in zip(df.index, df.to_dict("records"))}
    res = {v: [] for v in df.columns}
    if td < nd or td % nd != TD(0):
        return None
    for t in dates:
        if td == nd:
            win = [t] if t in recs else []
            inst = t
        else:
            lo = t if td == TD("24h") else t - td
            win = [lo + k * nd for k in range(1, int(td / nd) + 1) if lo + k * nd in recs]
            inst = t
        mean = td != nd and (agg or td == TD("24h"))
        # incomplete periods at the end are used, incomplete ones at the beginning are not
        known = t in recs
        for v in df.columns:
            vals = [recs[w][v] for w in win]
            ok = [a for a in vals if a == a]
            if not known:
                x = NAN
            elif v == "precip":
                x = sum(vals) if vals else NAN
            elif v == "wind_speed_gust":
                x = max(ok) if ok else NAN
            elif not mean:
                x = recs[inst][v]
            elif v == "wind_dir":
                uv = [(-recs[w]["wind_speed"] * math.sin(math.radians(recs[w]["wind_dir"])),
                       -recs[w]["wind_speed"] * math.cos(math.radians(recs[w]["wind_dir"])))
                      for w in win]
                uv = [a for a in uv if a[0] == a[0]]
                x = NAN if not uv else math.degrees(math.atan2(-sum(a[0] for a in uv),
                                                               -sum(a[1] for a in uv))) % 360
            else:
                x = sum(ok) / len(ok) if ok else NAN
            res[v].append(x)
    return res


def compare(ck, m, sid, exp, fmt, pos=None, name=None, **info):
    ds = m.meteo.sel(station=sid)
    for v, e in exp.items():
        got = ds[v].values
        e = np.array(e)
        if v == "wind_dir":
            diff = (got - e + 180) % 360 - 180
            ok = (np.isnan(got) & np.isnan(e)) | (np.abs(diff) < 1e-4)
            ck.check_all(ok, "wind direction", got=got, expected=e)
        else:
            ck.close(got, e, f"station data {v}", rtol=1e-7, atol=1e-9, station=sid, **info)
    if pos is not None:
        ck.close([float(ds.x), float(ds.y)], [domain.X0 + pos[0], domain.Y0 + pos[1]],
                 "station coordinates", rtol=0, atol=0.05, station=sid)
        ck.close(float(ds.alt), pos[2], "station altitude", station=sid)
        ck.check(str(ds.station_name.values) == name, "station name", got=str(ds.station_name.values))


GAPS = [None, {"precip": 0b10010, "temp": 0b100}, {"wind_speed": 1, "wind_dir": 0b1100, "sw_in": 255,
                                                 "wind_speed_gust": 0b1111}]


def resample_case(case, ck):
    """Two stations with complete coverage; all start hours and gap patterns."""
    from openamundsen.errors import MeteoDataError

    nat, tgt = case["native"], case["target"]
    nd, td = FREQS[nat], FREQS[tgt]
    starts = ["2020-02-28 00:00", "2020-02-28 06:00", "2020-02-28 12:00"]
    if nat == "D":
        starts = starts[:1]
    lead = ["0h", "24h", "72h"] + (["5h", "1h"] if nd <= TD("1h") else ["6h"] if nat == "3h" else [])
    for (start, before, gi) in itertools.product(starts, lead, range(len(GAPS))):
        if TIER == "quick" and case["fmt"] == "netcdf" and (before not in lead[:2] or
                                                            start == starts[-1] != starts[0]):
            continue
        if TIER == "quick" and gi and before not in lead[1:2] and start != starts[-1]:
            continue
        start = pd.Timestamp(start)
        nsteps = max(2, int(TD("36h") / td))
        end = start + nsteps * td
        t0 = start - TD(before)
        t1 = end + TD("24h")
        variables = VARS + (["wind_dir", "wind_speed_gust", "cloud_fraction"] if gi != 1 else [])
        st = {"a": ("Alpha", POS[0], series(0, t0, t1, nat, variables, GAPS[gi])),
              "b": ("Beta 2", POS[2], series(1, t0, t1, nat, variables[:5] + variables[5:6]))}
        d = ck.scratch.sub("m")
        write(d, case["fmt"], st, attrs=gi != 2)
        m = model(ck, d, case["fmt"], start, end, tgt, aggregate_when_downsampling=case["agg"])
        dates = pd.date_range(start, end, freq=td)
        ref = {k: reference(v[2], dates, nat, tgt, case["agg"]) for k, v in st.items()}
        info = {"start": str(start), "before": before, "gaps": gi}
        ck.traces()
        ck.states(len(dates) * 2)
        ck.transitions(len(dates) * 2)
        if ref["a"] is None:
            try:
                m.initialize()
                ck.fail("unsupported resampling accepted", **info)
            except MeteoDataError:
                pass
            ck.outcome(("rejected", str(case)))
            continue
        try:
            m.initialize()
        except MeteoDataError as e:
            ck.fail("complete station data rejected", error=str(e), **info)
            continue
        ck.check(m.meteo.indexes["time"].equals(dates), "dates of the station data", **info)
        if not m.meteo.indexes["time"].equals(dates):
            continue
        for k, v in st.items():
            compare(ck, m, k, ref[k], case["fmt"], v[1], v[0], **info)
        ck.outcome((str(case), str(start), before, gi))


def coverage_case(case, ck):
    """All combinations of covered periods of two hourly stations."""
    from openamundsen.errors import MeteoDataError

    tgt, agg = case["target"], case["agg"]
    td = FREQS[tgt]
    start = pd.Timestamp("2020-02-28 00:00")
    end = start + {"h": 6, "3h": 6, "1D": 3}[tgt] * td
    H = TD("1h")
    # offsets of the first and last record
    windows = [None, (start - 30 * H, end + 48 * H), (start, end), (start + 2 * H, end + 48 * H),
               (start - 5 * H, end - 1 * H), (start - 30 * H, start + 3 * H),
               (end - 2 * H, end + 30 * H), (start - 40 * H, start - 3 * H),
               (end + 48 * H, end + 60 * H), (start + 2 * td, end - 2 * td), (start, start),
               (start, start + H)]
    dates = pd.date_range(start, end, freq=td)
    for wa, wb in itertools.product(range(1, len(windows)), range(len(windows))):
        if wb and wb < wa:
            continue
        st = {}
        for k, w in (("a", windows[wa]), ("b", windows[wb])):
            if w is not None:
                st[k] = (k, POS[0 if k == "a" else 1],
                         series(0 if k == "a" else 1, w[0], w[1], "h", VARS))
        d = ck.scratch.sub("m")
        write(d, "csv", st)
        m = model(ck, d, "csv", start, end, tgt, aggregate_when_downsampling=agg,
                  enable_missing_data_checks=case["checks"])
        short = any(len(v[2]) < 3 for v in st.values())
        if short and tgt != "h":
            continue  # the frequency of one or two records is unknown
        ref = {k: reference(v[2], dates, "h", tgt, agg) for k, v in st.items()}
        have = np.array([[np.isfinite(ref[k]["temp"][i]) for i in range(len(dates))] for k in ref])
        use = {k for k, h in zip(ref, have) if h.any()}
        any_ = have.any(axis=0)
        info = {"windows": [wa, wb]}
        ck.traces()
        ck.states(len(dates) * len(st))
        ck.transitions(len(dates) * len(st))
        # required: data at the first and at the last date
        enough = bool(any_.any() and any_[0] and any_[-1])
        if case["checks"] and not enough:
            try:
                m.initialize()
                ck.fail("missing data not detected", **info)
            except MeteoDataError:
                pass
            continue
        try:
            m.initialize()
        except MeteoDataError as e:
            ck.fail("station data rejected", error=str(e), **info)
            continue
        ck.check(set(m.meteo.station.values) == use, "stations with data", got=list(
            m.meteo.station.values), expected=use, **info)
        if set(m.meteo.station.values) == use:
            ck.check(m.meteo.indexes["time"].equals(dates), "dates of the station data", **info)
            if m.meteo.indexes["time"].equals(dates):
                for k in use:
                    compare(ck, m, k, ref[k], "csv", **info)
        # the model must be able to run
        for _ in range(len(m.dates)):
            m.run_single()
        ck.outcome((wa, wb, str(case)))


def rules_case(case, ck):
    """All exclude/include subsets of four stations."""
    from openamundsen.errors import MeteoDataError

    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 04:00")
    ids = ["s0", "s1", "s2", "s3"]
    st = {s: (s, POS[k], series(k, start, end, "h", VARS)) for k, s in enumerate(ids)}
    d = ck.scratch.sub("m")
    write(d, case["fmt"], st)
    subsets = [list(c) for n in range(5) for c in itertools.combinations(ids, n)]
    for bounds, exc, inc in itertools.product(("grid", "global", "list"), subsets, subsets):
        if (bounds == "list" or TIER == "quick") and len(exc) + len(inc) > (
                3 if bounds == "grid" else 2):
            continue
        b = {"grid": "grid", "global": "global",
             "list": [domain.X0 - 5000.0, domain.Y0, domain.X0 + 60.0, domain.Y0 + 3000.0]}[bounds]
        inside = {"grid": {"s0", "s1"}, "global": set(ids), "list": {"s1", "s3"}}[bounds]
        exp = (inside - set(exc)) | set(inc)
        m = model(ck, d, case["fmt"], start, end, "h", bounds=b, exclude=exc, include=inc)
        ck.traces()
        ck.states()
        ck.transitions()
        try:
            m.initialize()
        except MeteoDataError:
            ck.check(not exp, "stations rejected", bounds=bounds, exclude=exc, include=inc)
            continue
        got = [str(s) for s in m.meteo.station.values]
        ck.check(sorted(got) == sorted(exp), "selected stations", bounds=bounds, exclude=exc,
                 include=inc, got=got, expected=sorted(exp))
        for s in exp & set(got):
            k = ids.index(s)
            compare(ck, m, s, {v: list(st[s][2][v]) for v in VARS}, case["fmt"], POS[k], s)
        ck.outcome((bounds, tuple(sorted(exp))))
    # unknown IDs: excluded ones are ignored, included ones are an error
    m = model(ck, d, case["fmt"], start, end, "h", exclude=["nope", "s1"])
    m.initialize()
    ck.check(sorted(m.meteo.station.values) == ["s0", "s2", "s3"], "unknown excluded station")
    m = model(ck, d, case["fmt"], start, end, "h", include=["nope"])
    try:
        m.initialize()
        ck.fail("unknown station accepted")
    except MeteoDataError:
        pass


IDS = ["s", "1", "10", "007", "0123", "1.50", "1e5", "True", "2", "-3", "2020-01-01", "a b", "A",
       "a.b", "00", "x_1", "été"]


def ids_case(case, ck):
    """All ordered pairs of station IDs: both are read under exactly these IDs, and each of them can
    be excluded and included."""
    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 02:00")
    for a, b in [(case["first"], b) for b in case["second"]]:
        st = {s: (f"name of {s}", POS[k], series(k, start, end, "h", VARS))
              for k, s in enumerate((a, b))}
        d = ck.scratch.sub("m")
        write(d, case["fmt"], st)
        for exc, inc in (([], []), ([a], []), ([a, b], [b])):
            exp = ({a, b} - set(exc)) | set(inc)
            info = {"ids": [a, b], "exclude": exc, "include": inc}
            ck.states()
            ck.transitions()
            m = model(ck, d, case["fmt"], start, end, "h", exclude=exc, include=inc)
            try:
                m.initialize()
            except Exception as e:
                ck.fail("stations not readable", error=repr(e), **info)
                continue
            got = list(m.meteo.station.values)
            ck.check(sorted(map(str, got)) == sorted(exp) and all(isinstance(s, str) for s in got),
                     "IDs of the stations", got=[repr(s) for s in got], **info)
            if set(got) == exp:
                for s in exp:
                    compare(ck, m, s, {v: list(st[s][2][v]) for v in VARS}, case["fmt"], st[s][1],
                            st[s][0], **info)
        ck.traces()
        ck.outcome((a, b, case["fmt"]))


def metadata_case(case, ck):
    """All orders of the columns and rows of the station list, missing and additional columns."""
    from openamundsen.errors import MeteoDataError

    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 02:00")
    st = {f"s{k}": (f"n{k}", POS[k], series(k, start, end, "h", VARS)) for k in range(3)}
    d = ck.scratch.sub("m")
    write(d, "csv", st)
    f = d / "stations.csv"
    df = pd.read_csv(f, dtype={"id": str})
    df["extra"] = ["p", "q", "r"]
    req = {"name", "x", "y", "alt"}
    cols = [list(p) for n in range(6) for p in itertools.permutations(["name", "x", "y", "alt", "extra"], n)]
    for k, c in enumerate(cols):
        if not req <= set(c) and c != sorted(c) or k % 4 != case["part"]:
            continue
        for rows in list(itertools.permutations(range(3))) if k % 24 == 0 else [(0, 1, 2), (2, 0, 1)]:
            df.loc[list(rows), ["id", *c]].to_csv(f, index=False)
            m = model(ck, d, "csv", start, end, "h")
            info = {"columns": c, "rows": rows}
            ck.states()
            ck.transitions()
            try:
                m.initialize()
                err = None
            except Exception as e:
                err = e
            ck.outcome((tuple(c), type(err).__name__))
            if not req <= set(c):
                ck.check(isinstance(err, MeteoDataError), "incomplete station list is rejected",
                         error=repr(err), **info)
                continue
            ck.check(err is None, "station list", error=repr(err), **info)
            if err is None:
                for s in st:
                    compare(ck, m, s, {v: list(st[s][2][v]) for v in VARS}, "csv", st[s][1],
                            st[s][0], **info)
    f.unlink()
    d2 = ck.scratch.sub("m")
    for fmt, dd in (("csv", d), ("csv", d2), ("netcdf", d2)):
        try:
            model(ck, dd, fmt, start, end, "h").initialize()
            err = None
        except Exception as e:
            err = e
        ck.check(isinstance(err, MeteoDataError), "missing station list or files", fmt=fmt,
                 error=repr(err))
    df.iloc[:0][["id", "name", "x", "y", "alt"]].to_csv(f, index=False)
    try:
        model(ck, d, "csv", start, end, "h").initialize()
        err = None
    except Exception as e:
        err = e
    ck.check(isinstance(err, MeteoDataError), "empty station list", error=repr(err))


def bounds_case(case, ck):
    """Stations on and around the limits of the grid (lower/left inclusive)."""
    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 02:00")
    eps = 0.5
    offs = [-eps, eps, 60.0, 100.0 - eps, 100.0 + eps]
    st = {}
    for (i, dx), (j, dy) in itertools.product(enumerate(offs), enumerate(offs)):
        st[f"s{i}{j}"] = (f"n{i}{j}", (dx, dy, 1000.0 + i), series(0, start, end, "h", VARS))
    d = ck.scratch.sub("m")
    write(d, case["fmt"], st)
    m = model(ck, d, case["fmt"], start, end, "h", bounds="grid")
    m.initialize()
    exp = {f"s{i}{j}" for i in (1, 2, 3) for j in (1, 2, 3)}
    ck.check(set(m.meteo.station.values) == exp, "stations within the grid",
             got=sorted(m.meteo.station.values))
    for s in exp & set(m.meteo.station.values):
        i, j = int(s[1]), int(s[2])
        ds = m.meteo.sel(station=s)
        ck.check((int(ds.row), int(ds.col)) == (1 - int(offs[j] // 50), int(offs[i] // 50)),
                 "pixel of the station", station=s, got=(int(ds.row), int(ds.col)))
        ck.check(bool(ds.within_grid_extent) and bool(ds.within_roi), "station within the grid")
    ck.traces(len(st))
    ck.states(len(st))
    ck.transitions(len(st))
    ck.outcome(tuple(sorted(m.meteo.station.values)))


def crs_case(case, ck):
    """Station coordinates in another coordinate reference system than that of the grid."""
    import pyproj

    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 02:00")
    pos = {"in": (60.0, 30.0), "left": (-60.0, 30.0), "above": (60.0, 130.0), "far": (9000.0, -700.0)}
    for crs, bounds in itertools.product((None, domain.CRS, "epsg:4326", "epsg:32633", "epsg:31254"),
                                         ("grid", "global")):
        d = ck.scratch.sub("m")
        rows = []
        for i, (sid, (dx, dy)) in enumerate(pos.items()):
            x, y = domain.X0 + dx, domain.Y0 + dy
            if crs is not None:
                x, y = pyproj.Transformer.from_crs(domain.CRS, crs, always_xy=True).transform(x, y)
            rows.append({"id": sid, "name": sid, "x": float(x), "y": float(y), "alt": 1000.0 + i})
            series(i, start, end, "h", VARS).to_csv(d / f"{sid}.csv", index_label="date")
        pd.DataFrame(rows).to_csv(d / "stations.csv", index=False)
        m = model(ck, d, "csv", start, end, "h", bounds=bounds, **({"crs": crs} if crs else {}))
        m.initialize()
        exp = {"in"} if bounds == "grid" else set(pos)
        got = set(str(x) for x in m.meteo.station.values)
        ck.check(got == exp, "selected stations", crs=crs, bounds=bounds, got=sorted(got))
        for sid in exp & got:
            ds = m.meteo.sel(station=sid)
            ck.close([float(ds.x), float(ds.y)], [domain.X0 + pos[sid][0], domain.Y0 + pos[sid][1]],
                     "station coordinates", rtol=0, atol=0.01, crs=crs, station=sid)
            lon, lat = refmet.lonlat(domain.X0 + pos[sid][0], domain.Y0 + pos[sid][1])
            ck.close([float(ds.lon), float(ds.lat)], [lon, lat], "station longitude/latitude",
                     rtol=0, atol=1e-6, crs=crs, station=sid)
        ck.traces()
        ck.states(len(exp))
        ck.transitions(len(exp))
        ck.outcome((crs, bounds))


def uniform_case(case, ck):
    """A single missing record anywhere is detected."""
    from openamundsen.errors import MeteoDataError

    start, end = pd.Timestamp("2020-02-28 00:00"), pd.Timestamp("2020-02-28 07:00")
    for drop in range(-1, 8):
        df = series(0, start, end, "h", VARS)
        if drop >= 0:
            df = df.drop(index=df.index[drop])
        d = ck.scratch.sub("m")
        write(d, case["fmt"], {"a": ("a", POS[0], df)}, rate=False)
        ck.traces()
        ck.states()
        ck.transitions()
        m = model(ck, d, case["fmt"], start, end, "h")
        try:
            m.initialize()
            ck.check(drop == -1, "incomplete file accepted", drop=drop)
        except MeteoDataError:
            ck.check(drop >= 0, "complete file rejected")
        ck.outcome(drop)
    # also if the data are to be resampled, and for precipitation rates
    for drop, agg, tgt, rate in itertools.product((-1, 1, 4, 8), (False, True), ("h", "3h", "1D"),
                                                  (False, True)):
        end2 = pd.Timestamp("2020-03-01 00:00")
        df = series(0, start - TD("3h"), end2, "h", VARS)
        if drop >= 0:
            df = df.drop(index=df.index[drop])
        d = ck.scratch.sub("m")
        write(d, case["fmt"], {"a": ("a", POS[0], df)}, rate=rate)
        m = model(ck, d, case["fmt"], start, end2 - FREQS[tgt], tgt, aggregate_when_downsampling=agg)
        info = {"drop": drop, "aggregate": agg, "target": tgt, "rate": rate}
        ck.traces()
        ck.states()
        ck.transitions()
        try:
            m.initialize()
            ck.check(drop == -1, "incomplete file accepted", **info)
        except MeteoDataError:
            ck.check(drop >= 0, "complete file rejected", **info)
    # nothing to read
    d = ck.scratch.sub("m")
    if case["fmt"] == "csv":
        (d / "stations.csv").write_text("id,name,x,y,alt\n")
    try:
        model(ck, d, case["fmt"], start, end, "h").initialize()
        ck.fail("no stations accepted")
    except MeteoDataError:
        pass


def filters_case(case, ck):
    start = pd.Timestamp("2020-02-28 00:00")
    limits = {v: [x for b in r if b is not None for x in (b - 0.01, b, b + 0.01)] + [NAN, 250.0, 20.0]
              for v, r in RANGES.items()}
    n = max(len(v) for v in limits.values())
    df = pd.DataFrame({v: [limits[v][i % len(limits[v])] for i in range(n)] for v in VARS},
                      index=pd.date_range(start, periods=n, freq="h"))
    df["cloud_fraction"] = np.linspace(0, 99, n)
    end = df.index[-1]
    custom = [None, [], [{"var": "temp", "filter": "range", "min": 240.0}],
              [{"var": "temp", "filter": "range", "max": 240.0},
               {"var": "cloud_fraction", "filter": "range", "min": 30, "max": 60}],
              [{"var": "sw_in", "filter": "range", "min": 20, "max": 20},
               {"var": "wind_speed", "filter": "range", "min": 20.005}]]
    for flt, fmt, tgt in itertools.product(custom, ("csv", "netcdf"), ("h", "2h")):
        d = ck.scratch.sub("m")
        write(d, fmt, {"a": ("a", POS[0], df)}, rate=False)
        kw = {} if flt is None else {"filters": flt}
        e2 = end if tgt == "h" else start + (end - start) // TD("2h") * TD("2h")
        m = model(ck, d, fmt, start, e2, tgt, aggregate_when_downsampling=True, **kw)
        m.initialize()
        rg = RANGES if flt is None else {f["var"]: (f.get("min"), f.get("max")) for f in flt}
        ref = reference(df, m.dates, "h", tgt, True, rg)
        compare(ck, m, "a", ref, fmt, filters=flt)
        ck.traces()
        ck.states(n)
        ck.transitions(n)
        ck.outcome((str(flt), fmt, tgt))


def units_case(case, ck):
    """Units of NetCDF files and of data frames."""
    import xarray as xr
    from openamundsen.errors import MeteoDataError

    start = pd.Timestamp("2020-02-28 00:00")
    for n, freq in [(case["n"], case["freq"])]:
        dates = pd.date_range(start, periods=n, freq=FREQS[freq])
        base = series(0, dates[0], dates[-1], freq, VARS)
        dt = FREQS[freq].total_seconds()
        for (pu, pf), (cu, cv, cexp), bad in itertools.product(
                (("kg m-2", 1.0), ("kg m-2 s-1", 1 / dt), (None, 1.0)),
                (("1", 0.4, 40.0), ("%", 0.4, 0.4), ("%", 40.0, 40.0), (None, 40.0, 40.0),
                 (None, 0.4, 40.0 if n > 10 else None), (None, 1.2, 1.2), ("1", 1.0, 100.0)),
                (None, ("temp", "degC"), ("wind_speed", "mm s-1"), ("precip", "kg m-2 h-1"),
                 ("rel_hum", "1"), ("temp", "k"), ("sw_in", ""))):
            if bad and (pu is None or cu is None):
                continue
            ds = xr.Dataset(coords={"time": dates})
            for v in VARS:
                ds[NC[v]] = ("time", base[v].to_numpy() * (pf if v == "precip" else 1), {
                    "units": UNITS[v]})
            ds["pr"].attrs = {"units": pu} if pu else {}
            ds["cloud_fraction"] = ("time", np.full(n, cv), {"units": cu} if cu else {})
            ds["cloud_fraction"][0] = cv / 2
            lon, lat = refmet.lonlat(domain.X0 + 10, domain.Y0 + 10)
            ds["lon"], ds["lat"], ds["alt"] = float(lon), float(lat), 1000.0
            if bad:
                ds[NC[bad[0]]].attrs["units"] = bad[1]
            d = ck.scratch.sub("m")
            ds.to_netcdf(d / "x.nc")
            m = model(ck, d, "netcdf", dates[0], dates[-1], freq)
            info = {"n": n, "freq": freq, "precip": pu, "clouds": (cu, cv), "bad": bad}
            ck.traces()
            ck.states()
            ck.transitions()
            try:
                m.initialize()
            except MeteoDataError:
                ck.check(bad is not None, "valid units rejected", **info)
                continue
            if bad:
                ck.fail("wrong units accepted", **info)
                continue
            got = m.meteo.sel(station="x")
            ck.close(got.precip.values, base.precip.to_numpy(), "precipitation sums", rtol=1e-6, **info)
            if cexp is not None:
                ck.close(got.cloud_fraction.values[1:], np.full(n - 1, cexp), "cloud fraction",
                         rtol=1e-6, **info)
            ck.check(str(got.station_name.values) == "x", "default station name")
            ck.outcome((n, freq, pu, cu, cv))


def formats_case(case, ck):
    """CSV, NetCDF (rates and sums) and memory input lead to identical model states."""
    import openamundsen as oa

    start = pd.Timestamp("2020-02-28 00:00")
    for nat, tgt in (("h", "h"), ("h", "3h"), ("3h", "3h"), ("h", "1D"), ("D", "1D"), ("D", "D")):
        td = FREQS[tgt]
        end = start + 4 * td
        st = {s: (s, POS[k], series(k, start - TD("24h"), end + TD("24h"), nat, VARS,
                                    GAPS[1] if k == 1 else None))
              for k, s in enumerate(("a", "b", "c"))}
        states = {}
        for fmt, rate in (("csv", False), ("netcdf", True), ("netcdf", False), ("memory", False)):
            d = ck.scratch.sub("m")
            kw = {}
            if fmt == "memory":
                ref = states[("csv", False)][0]
                kw["meteo"] = oa.forcing.strip_point_dataset(ref.meteo)
            else:
                write(d, fmt, st, rate=rate)
            m = model(ck, d, fmt, start, end, tgt)
            m.initialize(**kw)
            tr = []
            for _ in range(len(m.dates)):
                m.run_single()
                tr.append({v: np.array(m.state.meteo[v]) for v in
                           ("temp", "precip", "rel_hum", "wind_speed", "sw_in")})
            states[(fmt, rate)] = (m, tr)
            for a, b in zip(tr, states[("csv", False)][1]):
                for v in a:
                    ck.close(a[v], b[v], f"{v} differs between input formats", rtol=1e-5, atol=1e-6,
                             fmt=fmt, native=nat, target=tgt)
            ck.traces()
            ck.states(len(tr))
            ck.transitions(len(tr))
            ck.outcome((fmt, rate, nat, tgt))


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
