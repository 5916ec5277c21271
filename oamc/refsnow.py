"""Independent reference of snow ageing: albedo, fresh snow density, compaction, depth; and of the
cryospheric layer model driven by temperature index melt.

All arrays have the word (pixel) on the last axis and, for layered quantities, the layer first.
Nothing is imported from the code under test; ``cfg`` is the *user* configuration completed with
the documented defaults by :class:`Params`.
"""

import numpy as np

T0 = 273.15
NEW, OLD, FIRN, ICE = range(4)


class Params:
    """Documented defaults, overridden by the user configuration (snow section)."""

    def __init__(self, snow):
        al = snow.get("albedo", {})
        self.amin = al.get("min", 0.55)
        self.amax = al.get("max", 0.85)
        self.tau_cold = al.get("cold_snow_decay_timescale", 480.0) * 3600.0
        self.tau_melt = al.get("melting_snow_decay_timescale", 200.0) * 3600.0
        self.by = al.get("decay_timescale_determination_temperature", "surface")
        self.refresh = al.get("refresh_method", "binary")
        self.refresh_rate = al.get("refresh_snowfall", 0.5) / 3600.0
        if al.get("method") == "usaco":
            self.tau_cold = 86400.0 / al["k_neg"]
            self.tau_melt = 86400.0 / al["k_pos"]
            self.by, self.refresh = "air", "binary"
            self.refresh_rate = al["significant_snowfall"] / 3600.0
        elif al.get("method") == "fsm":
            self.by, self.refresh = "surface", "continuous"
        self.firn = al.get("firn", 0.4)
        self.ice = al.get("ice", 0.2)
        co = snow.get("compaction", {})
        self.comp = co.get("method", "anderson")
        self.comp_tau = co.get("timescale", 200.0) * 3600.0
        self.comp_cold = co.get("max_cold_density", 300.0)
        self.comp_melt = co.get("max_melting_density", 500.0)
        lw = snow.get("liquid_water_content", {})
        self.lw_method = lw.get("method", "pore_volume_fraction")
        self.lw_max = lw.get("max", 0.03)
        self.fsc = snow.get("snow_cover_fraction_depth_scale", 0.0)
        cl = snow.get("cryolayers", {})
        self.single = cl.get("use_single_snow_albedo", True)
        tr = cl.get("transition", {})
        self.t_old = tr.get("old_snow", 200.0)
        self.t_firn = tr.get("firn", 10)
        self.t_ice = tr.get("ice", 900.0)
        me = snow.get("melt", {})
        self.melt = me.get("method", "energy_balance")
        self.ddf = me.get("degree_day_factor")
        self.af = me.get("albedo_factor")
        self.thr = me.get("threshold_temp", T0)


def fresh_density(tw):
    tw = np.asarray(tw, dtype=float)
    d = np.maximum(tw - (T0 - 15.0), 0.0)
    return np.where(np.isnan(tw), 100.0, 50.0 + 1.7 * np.sqrt(d) ** 3)


def age_albedo(p, alb, temp, snowfall, dt):
    with np.errstate(invalid="ignore"):
        melting = temp >= T0
    tau = np.where(melting, p.tau_melt, p.tau_cold)
    new = p.amin + (alb - p.amin) * np.exp(-dt / tau)
    rate = np.where(np.isnan(snowfall), 0.0, snowfall) / dt
    if p.refresh == "binary":
        return np.where(rate >= p.refresh_rate, p.amax, new)
    w = np.minimum(rate / p.refresh_rate, 1.0)
    return new * (1 - w) + p.amax * w


def compact(p, ice, lwc, th, temp, tair, dt, layers):
    """New layer thicknesses (top to bottom)."""
    th = th.copy()
    h = dt / 3600.0
    above = np.zeros(th.shape[1])
    for k in range(layers):
        has = th[k] > 0
        mass = ice[k] + lwc[k]
        with np.errstate(all="ignore"):
            rho = mass / th[k]
            if p.comp == "anderson":
                load = above + 0.5 * mass
                c6 = np.where(rho > 150.0, np.exp(-0.046 * (rho - 150.0)), 1.0)
                c4 = np.where(lwc[k] > 0, 0.02, 0.01)
                cold = T0 - tair
                rate = (0.001 * load * np.exp(-0.08 * cold - 0.021 * rho)
                        + c4 * c6 * np.exp(-0.04 * cold))
                rate = np.where(np.isnan(rate), 0.0, rate)
                new = rho * (1 + rate * h)
            else:
                rmax = np.where(temp[k] < T0, p.comp_cold, p.comp_melt)
                new = np.where(rho < rmax, rmax - (rmax - rho) * np.exp(-dt / p.comp_tau), rho)
            th[k] = np.where(has, mass / new, th[k])
        above = above + np.where(has, mass, 0.0)
    return th


def remove_top(ice, th, amount):
    """Remove ice from the top; the thickness of a layer shrinks with its ice."""
    ice, th = ice.copy(), th.copy()
    left = amount.copy()
    taken = np.zeros(ice.shape)
    for k in range(ice.shape[0]):
        has = (left > 0) & (ice[k] > 0)
        take = np.where(has, np.minimum(left, ice[k]), 0.0)
        with np.errstate(all="ignore"):
            th[k] = np.where(has, th[k] * (1 - take / ice[k]), th[k])
        ice[k] = ice[k] - take
        left = left - take
        taken[k] = take
    return ice, th, taken


def capacity(p, ice, th):
    if p.lw_method == "mass_fraction":
        return p.lw_max * ice
    with np.errstate(all="ignore"):
        por = np.where(th > 0, 1 - ice / (917.0 * th), 0.0)
    return 1000.0 * th * por * p.lw_max


class CryoTI:
    """The four cryospheric layers under (enhanced) temperature index melt."""

    def __init__(self, snow_cfg, soil_albedo, dt, n):
        self.p = Params(snow_cfg)
        self.soil_albedo = soil_albedo
        self.dt = dt
        z = np.zeros((4, n))
        self.ice, self.lwc, self.th = z.copy(), z.copy(), z.copy()
        self.cc = z.copy()
        self.alb = np.full((4, n), np.nan)
        self.rho = np.full((4, n), np.nan)

    def load(self, before):
        """Take over the state of the implementation before the step."""
        self.ice = before.ice_content.copy()
        self.lwc = before.liquid_water_content.copy()
        self.th = before.thickness.copy()
        self.alb = before.layer_albedo.copy()
        self.rho = before.density.copy()
        self.cc = before.cold_content.copy()

    def top(self, a):
        out = np.full(a.shape[1], np.nan)
        for k in (3, 2, 1, 0):
            out = np.where(self.th[k] > 0, a[k], out)
        return out

    def clear(self, k, pos):
        for a in (self.ice, self.lwc, self.th, self.cc):
            a[k][pos] = 0.0
        self.alb[k][pos] = np.nan
        self.rho[k][pos] = np.nan

    def move(self, src, dst, pos):
        pos = pos & (self.th[src] > 0)
        ms = (self.ice + self.lwc)[src]
        md = (self.ice + self.lwc)[dst]
        both = pos & (self.th[dst] > 0)
        fresh = pos & ~both
        with np.errstate(all="ignore"):
            w = ms / (ms + md)
            for a in (self.rho, self.alb):
                a[dst] = np.where(both, w * a[src] + (1 - w) * a[dst],
                                  np.where(fresh, a[src], a[dst]))
            for a in (self.ice, self.lwc, self.cc):
                a[dst] = np.where(pos, a[dst] + a[src], a[dst])
            self.th[dst] = np.where(pos, (self.ice + self.lwc)[dst] / self.rho[dst], self.th[dst])
        self.clear(src, pos)

    def begin(self, met, surf_temp):
        """Settling, fresh snow and ageing; returns depth, snow cover fraction, surface albedo."""
        p, dt = self.p, self.dt
        nn = lambda a: np.where(np.isnan(a), 0.0, a)  # noqa: E731
        sf, rf, T = nn(met["snowfall"]), nn(met["rainfall"]), met["temp"]
        # settling
        self.th = compact(p, self.ice, self.lwc, self.th, None, T, dt, 2)
        firn = self.th[FIRN] > 0
        rho_f = self.rho[FIRN] + (p.t_ice - 500.0) / (10 * 365.25 * 24) * dt / 3600.0
        mass = self.ice + self.lwc
        self.th[FIRN] = np.where(firn, mass[FIRN] / rho_f, 0.0)
        ice = self.th[ICE] > 0
        self.th[ICE] = np.where(ice, mass[ICE] / p.t_ice, 0.0)
        # fresh snow
        init = (self.ice[NEW] == 0) & (sf > 0)
        a0 = np.where(p.single & (self.th[OLD] > 0), self.alb[OLD], p.amax)
        self.alb[NEW] = np.where(init, a0, self.alb[NEW])
        self.ice[NEW] = self.ice[NEW] + sf
        self.th[NEW] = self.th[NEW] + sf / fresh_density(met["wet_bulb_temp"])
        # ageing of the exposed snow
        hn, ho = self.th[NEW] > 0, self.th[OLD] > 0
        exposed = np.where(hn, self.alb[NEW], self.alb[OLD])
        aged = age_albedo(p, exposed, T if p.by == "air" else surf_temp, sf, dt)
        self.alb[NEW] = np.where(hn, aged, self.alb[NEW])
        self.alb[OLD] = np.where(ho & (p.single | ~hn), aged, self.alb[OLD])
        bare_firn = (self.th[FIRN] > 0) & ~hn & ~ho
        self.alb[FIRN] = np.where(bare_firn, p.firn, self.alb[FIRN])
        bare_ice = (self.th[ICE] > 0) & ~hn & ~ho & ~(self.th[FIRN] > 0)
        self.alb[ICE] = np.where(bare_ice, p.ice, self.alb[ICE])
        # surface albedo
        depth = self.th.sum(axis=0)
        f = np.tanh(depth / p.fsc) if p.fsc > 0 else (depth > 0) * 1.0
        sa = self.top(self.alb)
        surf_alb = np.where(f > 0, f * sa + (1 - f) * self.soil_albedo, self.soil_albedo)
        return depth, f, surf_alb

    def step(self, met, surf_temp, month, prev_month):
        """met: dict with temp, wet_bulb_temp, snowfall, rainfall, sw_in. Returns fluxes."""
        p, dt = self.p, self.dt
        nn = lambda a: np.where(np.isnan(a), 0.0, a)  # noqa: E731
        rf, T = nn(met["rainfall"]), met["temp"]
        depth, _, surf_alb = self.begin(met, surf_temp)
        # melt
        days = dt / 86400.0
        pot = p.ddf * (T - p.thr) * days
        if p.melt == "enhanced_temperature_index":
            pot = np.where(T > p.thr, pot + p.af * (1 - surf_alb) * met["sw_in"] * days, 0.0)
        pot = np.maximum(nn(pot), 0.0)
        melt = np.where(depth > 0, np.minimum(pot, self.ice.sum(axis=0)), 0.0)
        self.ice, self.th, taken = remove_top(self.ice, self.th, melt)
        self.lwc = self.lwc + taken
        out = self.finish(rf, month, prev_month)
        return {"melt": melt, "runoff": out, "surf_albedo": surf_alb}

    def finish(self, rf, month, prev_month):
        """Drainage and layer transitions; returns the runoff."""
        p = self.p
        # drainage
        cap = capacity(p, self.ice, self.th)
        cap[2:] = 0.0
        out = rf.copy()
        for k in range(4):
            wet = (self.ice[k] + self.lwc[k]) > 0
            tot = self.lwc[k] + out
            keep = np.minimum(tot, np.maximum(cap[k], 0.0))
            self.lwc[k] = np.where(wet, keep, self.lwc[k])
            out = np.where(wet, tot - keep, out)
        # bookkeeping
        mass = self.ice + self.lwc
        with np.errstate(all="ignore"):
            self.rho = np.where(self.th > 0, mass / self.th, np.nan)
        for k in range(4):
            self.clear(k, mass[k] <= 0)
        self.move(NEW, OLD, np.nan_to_num(self.rho[NEW], nan=0.0) >= p.t_old)
        if prev_month is not None and month == p.t_firn and prev_month != p.t_firn:
            self.move(OLD, FIRN, np.ones(out.shape, bool))
        self.move(FIRN, ICE, np.nan_to_num(self.rho[FIRN], nan=0.0) >= p.t_ice)
        return out
