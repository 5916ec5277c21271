"""Independent reference of one time step of the surface energy balance, of the multilayer snowpack
(after Essery 2015) with its soil column (Cox et al. 1999), and of the energy balance of the
cryospheric layers (Strasser 2008, Braun 1984).

Arrays have the pixel on the last axis and, for layered quantities, the layer first. Nothing is
imported from the code under test.
"""

import numpy as np

from . import refsnow as rs
from .refmet import esat

T0 = 273.15
SIGMA = 5.670374419e-8
CP = 1004.68506
LV = 2.501e6
LF = 0.334e6
CI, CW = 2100.0, 4180.0
RV = 461.52
G = 9.80665
K2 = 0.4**2
RHO_W, RHO_I = 1000.0, 917.0
L_AIR, L_CLAY, L_ICE, L_SAND, L_WATER = 0.025, 1.16, 2.24, 1.57, 0.56


class SurfParams(rs.Params):
    def __init__(self, config):
        snow = config.get("snow", {})
        super().__init__(snow)
        met = config.get("meteo", {})
        soil = config.get("soil", {})
        mh = met.get("measurement_height", {})
        self.z_t = mh.get("temperature", 2.0)
        self.z_u = mh.get("wind", 10.0)
        self.stab = met.get("stability_correction", False)
        self.stab_b = met.get("stability_adjustment_parameter", 5.0)
        self.eps = met.get("radiation", {}).get("snow_emissivity", 0.99)
        self.z0_snow = snow.get("roughness_length", 0.01)
        self.z0_soil = soil.get("roughness_length", 0.1)
        self.adj = snow.get("measurement_height_adjustment", False)
        self.lam_snow = snow.get("thermal_conductivity", 0.24)
        self.min_th = snow.get("min_thickness", [0.1, 0.2, 0.4])
        self.soil_albedo = soil.get("albedo", 0.15)
        self.soil_th = soil.get("thickness", [0.1, 0.2, 0.4, 0.8])
        self.sand = soil.get("sand_fraction", 0.6)
        self.clay = soil.get("clay_fraction", 0.3)
        self.moist = soil.get("init_moisture_content", 0.5)
        self.gsat = soil.get("saturated_soil_surface_conductance", 0.01)
        cl = snow.get("cryolayers", {})
        self.surf_flux = cl.get("surface_heat_flux", -2.0)
        self.cold_cap = cl.get("cold_holding_capacity", 0.05)
        self.refr = cl.get("refreezing_factor", 1.0)
        self.iter = cl.get("surface_temperature_iteration_method", "secant")


def spec_hum(p, e):
    return 0.622 * e / (p - 0.378 * e)


def lat_vap(t):
    return LV - 2361.0 * (t - T0)


def exchange_coeff(p, f, depth, t, ts, u):
    """Turbulent exchange coefficient including stability."""
    z0 = np.exp(f * np.log(p.z0_snow) + (1 - f) * np.log(p.z0_soil))
    zt = np.maximum(p.z_t - depth, 1.0) if p.adj else p.z_t + 0 * depth
    c = K2 / (np.log(p.z_u / z0) * np.log(zt / (0.1 * z0)))
    if p.stab:
        b = p.stab_b
        u = np.where(u == 0, 0.5, u)
        with np.errstate(all="ignore"):
            ri = G * p.z_u**2 * (t - ts) / (zt * t * u**2)
            cc = 3 * b**2 * K2 * np.sqrt(p.z_u / z0) / np.log(p.z_u / z0) ** 2
            fh = np.where(ri >= 0, 1 / (1 + 3 * b * ri * np.sqrt(1 + b * np.maximum(ri, 0))),
                          1 - 3 * b * ri / (1 + cc * np.sqrt(np.maximum(-ri, 0))))
        c = c * np.where(np.isnan(fh), 1.0, fh)
    return z0, c


class Soil:
    """Static and temperature dependent soil properties."""

    def __init__(self, p):
        self.p = p
        self.c_dry = (2.128e6 * p.sand + 2.385e6 * p.clay) / (p.sand + p.clay)
        self.b = 3.1 + 15.7 * p.clay - 0.3 * p.sand
        self.psi = 10 ** (0.17 - 0.63 * p.clay - 1.58 * p.sand)
        self.sat = 0.505 - 0.037 * p.clay - 0.142 * p.sand
        self.crit = self.sat * (self.psi / 3.364) ** (1 / self.b)
        lam_min = L_CLAY**p.clay * L_SAND ** (1 - p.clay)
        self.lam_dry = L_AIR**self.sat * lam_min ** (1 - self.sat)
        self.theta = p.moist * self.sat
        self.kappa = (RHO_I / RHO_W) * LF / (T0 * G)

    def state(self, temp):
        """(areal heat capacity, thermal conductivity, unfrozen fraction) of all layers."""
        th = np.array(self.p.soil_th)[:, None]
        one = np.ones(temp.shape)
        if self.theta <= 0:
            return self.c_dry * th * one, self.lam_dry * one, 0.0 * one
        tmax = T0 - self.psi / self.kappa * (self.sat / self.theta) ** self.b
        froz = temp < tmax
        x = np.where(froz, self.kappa * (T0 - temp) / self.psi, 1.0)
        unf = np.where(froz, np.minimum(self.sat * x ** (-1 / self.b), self.theta), self.theta)
        slope = np.where(froz, self.kappa * self.sat / (self.b * self.psi) * x ** (-1 / self.b - 1), 0.0)
        ice = (self.theta - unf) * RHO_W / RHO_I
        cv = (self.c_dry + RHO_W * CW * unf + RHO_I * CI * ice
              + RHO_W * ((CW - CI) * temp + LF) * slope)
        su, sf = unf / self.sat, (RHO_I / RHO_W) * ice / self.sat
        liq = self.sat * su / (su + sf)
        lam_sat = self.lam_dry * L_WATER**liq * L_ICE ** (self.sat - liq) / L_AIR**self.sat
        lam = self.lam_dry + (lam_sat - self.lam_dry) * self.theta / self.sat
        return cv * th, lam, su


def conduct(temp, th, lam, cap, flux, t_b, th_b, lam_b, dt):
    """Implicit heat conduction in a stack of layers (temp: layers x pixels)."""
    n, m = temp.shape
    g = np.empty((n, m))
    for k in range(n - 1):
        g[k] = 2 / (th[k] / lam[k] + th[k + 1] / lam[k + 1])
    g[n - 1] = 2 / (th[n - 1] / lam[n - 1] + th_b / lam_b)
    A = np.zeros((m, n, n))
    r = np.zeros((m, n))
    for k in range(n):
        A[:, k, k] = cap[k] / dt + g[k]
        r[:, k] = cap[k] / dt * temp[k]
        if k > 0:
            A[:, k, k] += g[k - 1]
            A[:, k, k - 1] = -g[k - 1]
        if k < n - 1:
            A[:, k, k + 1] = -g[k]
    r[:, 0] += flux
    r[:, n - 1] += g[n - 1] * t_b
    return np.linalg.solve(A, r[..., None])[..., 0].T


class Fsm:
    """One step of the multilayer snow model from a given state."""

    def __init__(self, config, dt):
        self.p = SurfParams(config)
        self.soil = Soil(self.p)
        self.dt = dt

    def step(self, b, met):
        """b: state before; met: forcing of the step (complete). Returns dict of arrays."""
        p, dt = self.p, self.dt
        t, u, q = met["temp"], met["wind_speed"], met["spec_hum"]
        sf, rf = met["snowfall"], met["rainfall"]
        nl = b.thickness.shape[0]
        lay = np.arange(nl)[:, None] < b.num_layers
        th = np.where(lay, b.thickness, 0.0)
        ice = np.where(lay, b.ice_content, 0.0)
        lwc = np.where(lay, b.liquid_water_content, 0.0)
        temp = np.where(lay, b.temp, T0)
        n = b.num_layers.copy()
        out = {}
        # settling, fresh snow, ageing
        th = rs.compact(p, ice, lwc, th, temp, t, dt, nl)
        rho_new = rs.fresh_density(met["wet_bulb_temp"])
        first = (n == 0) & (sf > 0)
        temp[0] = np.where(first, np.minimum(t, T0), temp[0])
        alb = np.where(first, p.amax, b.albedo)
        n = np.where(first, 1, n)
        ice[0] += sf
        th[0] += sf / rho_new
        alb = rs.age_albedo(p, alb, t if p.by == "air" else b.surf_temp, sf, dt)
        depth = th.sum(axis=0)
        swe = (ice + lwc).sum(axis=0)
        f = np.tanh(depth / p.fsc) if p.fsc > 0 else (depth > 0) * 1.0
        cap = ice * CI + lwc * CW
        # soil
        ts_soil = b.soil_temp.copy()
        s_cap, s_lam, unf = self.soil.state(ts_soil)
        s_th = np.array(p.soil_th)[:, None] * np.ones(ts_soil.shape)
        out.update(soil_heat_cap=s_cap, soil_therm_cond=s_lam)
        # surface properties
        s_alb = np.where(f > 0, f * alb + (1 - f) * p.soil_albedo, p.soil_albedo)
        ts = b.surf_temp.copy()
        z0, ch = exchange_coeff(p, f, depth, t, ts, u)
        cond = p.gsat * np.maximum((unf[0] * self.soil.sat / self.soil.crit) ** 2, 1.0)
        dz = np.maximum(th[0], s_th[0])
        with np.errstate(all="ignore"):
            t1 = np.where(th[0] > s_th[0], temp[0],
                          ts_soil[0] + (temp[0] - ts_soil[0]) * th[0] / s_th[0])
            lam = np.where(th[0] <= s_th[0] / 2,
                           s_th[0] / (2 * th[0] / p.lam_snow + (s_th[0] - 2 * th[0]) / s_lam[0]),
                           p.lam_snow)
        out.update(surf_albedo=s_alb, surf_roughness_length=z0, surf_turbulent_exchange_coeff=ch,
                   surf_conductance=cond, surf_thickness=dz, surf_layer_temp=t1,
                   surf_therm_cond=lam)
        # energy balance
        rho, pr = met["dry_air_density"], met["atmos_press"]
        w = rho * ch * u

        def latent(x):
            return lat_vap(t) + np.where((ice[0] > 0) | (x < T0), LF, 0.0)

        def fluxes(x, qs):
            rn = (1 - s_alb) * met["sw_in"] + met["lw_in"] - p.eps * SIGMA * x**4
            h = CP * w * (t - x)
            e = avail * w * (q - qs)
            adv = (CW * (t - x) * rf + CI * (met["wet_bulb_temp"] - x) * sf) / dt
            gr = 2 * lam * (x - t1) / dz
            return rn, h, e, adv, gr

        qs = spec_hum(pr, esat(ts))
        avail = cond / (cond + ch * u)
        avail = np.where((qs < q) | (swe > 0), 1.0, avail)
        lat = latent(ts)
        rn, h, e, adv, gr = fluxes(ts, qs)
        dq = lat * qs / (RV * ts**2)
        den = (CP + lat * avail * dq) * w + 2 * lam / dz + 4 * SIGMA * ts**3
        surplus = rn + h + lat * e + adv - gr
        dts = surplus / den
        warm = (ts + dts > T0) & (ice[0] > 0)
        tot_ice = ice.sum(axis=0)
        dts_all = (surplus - LF * tot_ice / dt) / den
        part = warm & (ts + dts_all < T0)
        melt = np.where(warm, tot_ice, 0.0)
        new = np.where(part, T0, ts + np.where(warm, dts_all, dts))
        qs = np.where(part, spec_hum(pr, esat(T0)), qs)
        # the advected heat is that at the start of the step unless melting occurs
        lat0 = latent(T0)
        rn0, h0, e0, adv0, gr0 = fluxes(T0 + 0 * ts, spec_hum(pr, esat(T0 + 0 * ts)))
        sur0 = rn0 + h0 + lat0 * e0 + adv0 - gr0
        melt = np.where(part, np.maximum(sur0, 0.0) * dt / LF, melt)
        lat = latent(new)
        rn, h, e, _, gr = fluxes(new, qs)
        out.update(surf_temp=new, surf_sens_heat_flux=h, surf_moisture_flux=e, surf_lat_heat=lat,
                   surf_lat_heat_flux=lat * e, surf_heat_flux=gr, met_net_radiation=rn,
                   surf_moisture_availability=avail,
                   surf_advective_heat_flux=np.where(part, adv0, adv),
                   partial=part, total=warm & ~part)
        # conduction
        for k in range(1, nl + 1):
            sel = n == k
            if sel.any():
                temp[:k, sel] = conduct(temp[:k, sel], th[:k, sel], np.full((k, sel.sum()), p.lam_snow),
                                        cap[:k, sel], gr[sel], ts_soil[0, sel], s_th[0, sel],
                                        s_lam[0, sel], dt)
        # melt
        left = melt.copy()
        melted = np.zeros(melt.shape)
        for k in range(nl):
            on = k < n
            excess = np.where(on, np.maximum(temp[k] - T0, 0.0) * cap[k], 0.0)
            left = left + excess / LF
            temp[k] = np.where(on & (temp[k] > T0), T0, temp[k])
            take = np.where(on & (left > 0), np.minimum(left, ice[k]), 0.0)
            gone = on & (left > ice[k])
            with np.errstate(all="ignore"):
                th[k] = np.where(gone, 0.0, np.where(take > 0, th[k] * (1 - take / ice[k]), th[k]))
            ice[k] = np.where(gone, 0.0, ice[k] - take)
            lwc[k] = lwc[k] + take
            left = left - take
            melted = melted + take
        out["melt"] = melted
        # sublimation and deposition
        ex = (ice[0] > 0) | (new < T0)
        sub = np.where(ex, np.minimum(-e * dt, ice.sum(axis=0)), 0.0)
        frost = np.maximum(-sub, 0.0)
        first = (n == 0) & (frost > 0)
        temp[0] = np.where(first, np.minimum(t, T0), temp[0])
        out["albedo"] = np.where(first, p.amax, alb)
        n = np.where(first, 1, n)
        ice[0] += frost
        th[0] += frost / rho_new
        ice, th, _ = rs.remove_top(ice, th, np.maximum(sub, 0.0))
        out["sublimation"] = sub
        # percolation and refreezing
        hold = rs.capacity(p, ice, th)
        flow = rf.copy()
        refr = np.zeros(flow.shape)
        for k in range(nl):
            on = k < n
            tot = np.where(on, lwc[k] + flow, lwc[k])
            keep = np.where(on, np.minimum(tot, np.maximum(hold[k], 0.0)), tot)
            flow = np.where(on, tot - keep, flow)
            cold = np.where(on, np.maximum(T0 - temp[k], 0.0) * cap[k], 0.0)
            fr = np.minimum(keep, cold / LF)
            with np.errstate(all="ignore"):
                temp[k] = np.where(fr > 0, temp[k] + LF * fr / cap[k], temp[k])
            lwc[k] = keep - fr
            ice[k] = ice[k] + fr
            refr = refr + fr
        out["refreezing"] = refr
        out["runoff"] = flow
        # layering: slice the stack at the prescribed depths
        energy = (ice * CI + lwc * CW) * (temp - T0)
        depth = th.sum(axis=0)
        mt = list(p.min_th)
        newth = np.zeros(th.shape)
        rest = depth.copy()
        open_ = depth > 0
        for k in range(nl):
            last = open_ & ((rest - mt[k] <= mt[k]) | (k == nl - 1))
            newth[k] = np.where(last, rest, np.where(open_, mt[k], 0.0))
            rest = np.where(open_ & ~last, rest - mt[k], rest)
            open_ = open_ & ~last
        newth = np.where(newth < 1e-6, 0.0, newth)
        top_o = np.vstack([np.zeros(depth.shape), np.cumsum(th, axis=0)])
        top_n = np.vstack([np.zeros(depth.shape), np.cumsum(newth, axis=0)])
        i2, l2, e2 = (np.zeros(th.shape) for _ in range(3))
        for k in range(nl):
            for j in range(nl):
                ov = np.maximum(np.minimum(top_o[j + 1], top_n[k + 1]) - np.maximum(top_o[j], top_n[k]), 0.0)
                with np.errstate(all="ignore"):
                    wgt = np.where(th[j] > 0, ov / th[j], 0.0)
                i2[k] += wgt * ice[j]
                l2[k] += wgt * lwc[j]
                e2[k] += wgt * energy[j]
        has = newth > 0
        with np.errstate(all="ignore"):
            tn = np.where(has, T0 + e2 / (i2 * CI + l2 * CW), T0)
            dens = np.where(has, (i2 + l2) / newth, np.nan)
        n = has.sum(axis=0)
        out.update(ice_content=i2, liquid_water_content=l2, thickness=newth, temp=tn, density=dens,
                   num_layers=n, depth=newth.sum(axis=0), swe=(i2 + l2).sum(axis=0))
        # soil
        idx = np.maximum(n - 1, 0)
        pix = np.arange(len(n))
        with np.errstate(all="ignore"):
            gs = 2 / (newth[idx, pix] / p.lam_snow + s_th[0] / s_lam[0]) * (tn[idx, pix] - ts_soil[0])
        gs = np.where(n == 0, gr, gs)
        out["soil_heat_flux"] = gs
        out["soil_temp"] = conduct(ts_soil, s_th, s_lam, s_cap, gs, ts_soil[-1], s_th[-1], s_lam[-1], dt)
        return out


class CryoEB(rs.CryoTI):
    """The four cryospheric layers driven by the surface energy balance."""

    def __init__(self, config, dt, n):
        p = SurfParams(config)
        super().__init__(config.get("snow", {}), p.soil_albedo, dt, n)
        self.p = p

    def step(self, met, surf_temp, got_temp, month, prev_month):
        """surf_temp: before the step; got_temp: iterated surface temperature of frozen pixels."""
        p, dt = self.p, self.dt
        t, u, q = met["temp"], met["wind_speed"], met["spec_hum"]
        sf, rf = met["snowfall"], met["rainfall"]
        depth, f, s_alb = self.begin(met, surf_temp)
        _, ch = exchange_coeff(p, f, depth, t, surf_temp, u)
        snow = (self.ice + self.lwc).sum(axis=0) > 0
        rho, pr = met["dry_air_density"], met["atmos_press"]
        w = rho * ch * u
        lat = lat_vap(t) + np.where(self.ice.sum(axis=0) > 0, LF, 0.0)

        def fluxes(x):
            rn = (1 - s_alb) * met["sw_in"] + met["lw_in"] - p.eps * SIGMA * x**4
            h = CP * w * (t - x)
            e = w * (q - spec_hum(pr, esat(x)))
            adv = (CW * (t - x) * rf + CI * (met["wet_bulb_temp"] - x) * sf) / dt
            return rn, h, e, adv, rn + h + lat * e + adv - p.surf_flux

        warm, cold = snow & (t >= T0), snow & (t < T0)
        tz = T0 + 0 * t
        sur = fluxes(tz)[4]
        # melt: the surplus melts one layer after the other
        left = np.where(warm, np.maximum(sur, 0.0) * dt / LF, 0.0)
        melt = np.zeros(t.shape)
        for k in range(4):
            has = self.th[k] > 0
            need = self.ice[k] + self.cc[k]
            use = np.where(has, np.minimum(left, need), 0.0)
            heat = np.minimum(use, self.cc[k])
            self.cc[k] = self.cc[k] - heat
            melt = melt + use - heat
            left = left - use
        # refreezing and build-up of cold content
        left = np.where(cold, np.maximum(-sur, 0.0) * dt / LF * p.refr, 0.0)
        refr = np.zeros(t.shape)
        amb = np.zeros(t.shape, bool)  # deficit exhausted up to rounding
        for k in (rs.NEW, rs.OLD):
            amb |= (self.th[k] > 0) & cold & (np.abs(left) <= 1e-9) \
                & (self.cc[k] > p.cold_cap * (self.ice[k] + self.lwc[k]))
            on = (self.th[k] > 0) & (left > 1e-9)
            fr = np.where(on, np.minimum(self.lwc[k], left), 0.0)
            self.lwc[k] = self.lwc[k] - fr
            self.ice[k] = self.ice[k] + fr
            refr = refr + fr
            left = left - fr
            lim = p.cold_cap * (self.ice[k] + self.lwc[k])
            new = np.where(on, np.minimum(self.cc[k] + left, lim), self.cc[k])
            left = left - (new - self.cc[k])
            self.cc[k] = new
        # surface temperature (bisection)
        lo, hi = np.minimum(t, T0) - 120.0, tz.copy()
        for _ in range(60):
            mid = (lo + hi) / 2
            up = fluxes(mid)[4] > 0
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        root = np.where(sur >= 0, T0, (lo + hi) / 2)
        ts = np.where(warm, T0, np.where(cold, got_temp, t))
        rn, h, e, adv, res = fluxes(ts)
        out = {"melt": melt, "refreezing": refr, "root": root, "cold": cold, "warm": warm, "amb": amb,
               "snow": snow, "surf_temp": ts, "met_net_radiation": rn, "surf_sens_heat_flux": h,
               "surf_moisture_flux": e, "surf_lat_heat": lat, "surf_lat_heat_flux": lat * e,
               "surf_advective_heat_flux": adv, "residual": res, "surf_albedo": s_alb,
               "surf_turbulent_exchange_coeff": ch, "fluxes": fluxes}
        # mass
        self.ice, self.th, taken = rs.remove_top(self.ice, self.th, melt)
        self.lwc = self.lwc + taken
        out["left"] = np.where(melt > 0, self.ice.sum(axis=0), np.inf)
        sub = np.where(snow, np.minimum(-e * dt, self.ice.sum(axis=0)), 0.0)
        sub = np.where(self.ice.sum(axis=0) > 0, sub, 0.0)
        self.ice, self.th, _ = rs.remove_top(self.ice, self.th, np.maximum(sub, 0.0))
        frost = np.maximum(-sub, 0.0)
        init = (self.ice[rs.NEW] == 0) & (frost > 0)
        a0 = np.where(p.single & (self.th[rs.OLD] > 0), self.alb[rs.OLD], p.amax)
        self.alb[rs.NEW] = np.where(init, a0, self.alb[rs.NEW])
        self.ice[rs.NEW] = self.ice[rs.NEW] + frost
        self.th[rs.NEW] = self.th[rs.NEW] + frost / rs.fresh_density(met["wet_bulb_temp"])
        out["sublimation"] = sub
        out["runoff"] = self.finish(rf, month, prev_month)
        out.update(ice_content=self.ice, liquid_water_content=self.lwc, thickness=self.th,
                   density=self.rho, layer_albedo=self.alb, cold_content=self.cc)
        return out
