"""Tiny models for the output checks: the state is scripted by the meteo callback.

To make long runs affordable, the (physics) model interface of the instance is replaced by a
no-op where possible; the oracle always records what the public state contains after each
``run_single()``, so it does not depend on that.
"""

import numpy as np
import pandas as pd

from . import domain


def value(t, k, shape):
    """Deterministic, pairwise distinct values (exactly representable as float32)."""
    n = int(np.prod(shape))
    idx = np.arange(n).reshape(shape)
    return 200.0 + ((t * 7919 + idx * 104729 + k * 1299709) % 65536) / 64.0


def tiny_model(ck, cfg_over, start, end, timestep, roi=None, shape=(2, 3), gaps=False, stub=True,
               model="multilayer", results=None, script=None):
    import openamundsen as oa

    g = domain.make_grids(ck.scratch.sub("g"), 1500.0 + np.arange(np.prod(shape)).reshape(shape),
                          roi=roi)
    cfg = domain.base_config(g, results or ck.scratch.sub("r"), start, end, timestep,
                             snow={"model": model})
    domain.merge(cfg, cfg_over)

    scripted = (("meteo", "temp"), ("meteo", "precip"), ("snow", "swe"), ("snow", "temp"),
                ("soil", "temp"), ("snow", "num_layers"), ("meteo", "wind_speed"))

    def callback(m):
        t = m.date_idx
        roi_ = m.grid.roi
        for k, (cat, var) in enumerate(scripted):
            if cat not in m.state.categories or var not in m.state[cat]:
                continue
            a = m.state[cat][var]
            v = value(t, k, a.shape)
            if np.issubdtype(a.dtype, np.integer):
                v = v.astype(int) % 5
            elif gaps:
                v = v.copy()
                v.flat[(t * 5 + k) % v.size] = np.nan
                if v.ndim == 3:
                    v.flat[(t * 7 + k + v.size // 2) % v.size] = np.nan
            a[..., roi_] = v[..., roi_]
        m.state.meteo.rel_hum[roi_] = 60.0
        if script is not None:
            script(m)

    def interface():
        # stands for the physics: outputs have to be taken afterwards
        for cat, var in scripted:
            if cat in m.state.categories and var in m.state[cat]:
                a = m.state[cat][var]
                if np.issubdtype(a.dtype, np.floating):
                    a[..., m.grid.roi] += 0.25

    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo_callback=callback)
    if stub:
        m._process_meteo_data = lambda: None
        m._model_interface = interface
    return m


def month_key(d, freq):
    return (d.year, d.month) if freq.startswith("M") else (d.year,)


def ref_write_dates(dates, freq, agg, dt):
    """Reference output dates; None if the specification leaves the exact time of day open."""
    dates = list(dates)
    if freq in ("ME", "YE", "MS", "YS"):
        if freq in ("ME", "YE") or agg:
            return [d for d in dates if month_key(d, freq) != month_key(d + dt, freq)]
        out = [d for d in dates if month_key(d - dt, freq) != month_key(d, freq)]
        if (dates[0] - dates[0].normalize()) >= dt:
            return None
        return out
    td = pd.Timedelta(freq if freq[0].isdigit() else "1" + freq)
    if agg:
        first = dates[0] + td - dt
    else:
        first = dates[0]
    s = set(dates)
    out = []
    d = first
    while d <= dates[-1]:
        if d in s:
            out.append(d)
        d += td
    return out


def ref_values(hist, dates, wd, agg):
    """hist: list of arrays per time step."""
    out = []
    pos = {d: i for i, d in enumerate(dates)}
    prev = -1
    for d in wd:
        i = pos[d]
        if agg is None:
            out.append(hist[i])
        else:
            chunk = np.array(hist[prev + 1 : i + 1], dtype=float)
            out.append(chunk.sum(axis=0) if agg == "sum" else chunk.mean(axis=0))
            prev = i
    return out
