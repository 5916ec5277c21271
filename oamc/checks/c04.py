"""C04: energy and radiation budget of the surface, the snowpack and the soil."""

import numpy as np

from .. import refsurf
from .. import snowcase as sc
from .. import words
from . import c22, c25

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word",
    "exact heat balance of the snowpack is decided on dry, calm, frozen histories without "
    "compaction (no other process exchanges heat there); bounds elsewhere",
]

SIGMA = 5.670374419e-8
CP = 1004.68506
LF = 0.334e6
CI, CW = 2100.0, 4180.0

# calm, dry and frozen (only radiation and conduction act)
CALM = dict(words.LETTERS)
CALM.update({
    "a": (250.0, 50.0, 0.0, 0.0, 0.0, 1.0),
    "b": (262.0, 70.0, 0.0, 0.0, 1.0, 0.2),
    "c": (270.0, 90.0, 0.0, 0.0, 0.5, 0.4),
    "d": (240.0, 30.0, 0.0, 0.0, 0.0, 0.0),
})
CALM_CONFIGS = {
    "calm3": {"snow": {"model": "multilayer"}, "soil": {"init_temp": 270}},
    "calm1": {"snow": {"model": "multilayer", "min_thickness": [0.1]}, "soil": {"init_temp": 265}},
    "calm5": {"snow": {"model": "multilayer", "min_thickness": [0.05, 0.1, 0.2, 0.2, 0.4]},
              "soil": {"init_temp": 260, "thickness": [0.1, 0.2, 0.4]}},
    "calm2": {"snow": {"model": "multilayer", "min_thickness": [0.1, 0.3],
                       "thermal_conductivity": 0.4},
              "soil": {"init_temp": 272, "thickness": [0.2]}},
}


def cases(tier):
    q = tier == "quick"
    out = []
    for name, cfg in CALM_CONFIGS.items():
        cfg = {**cfg, "snow": {**cfg["snow"], "compaction": {
            "method": "empirical", "max_cold_density": 1, "max_melting_density": 1}}}
        for ts in ("1h", "3h"):
            for pre in ("S", "SS", "SSS", "SSSSS"):
                out.append({"kind": "calm", "name": name, "config": cfg, "timestep": ts,
                            "alphabet": "abcd", "length": 4 if q else 6, "prefixes": [pre],
                            "start": "2020-01-15 00:00"})
    configs = {**sc.MULTILAYER_CONFIGS, **sc.CRYO_CONFIGS}
    for name, cfg in configs.items():
        for ts in ("1h", "3h", "1D"):
            out.append({"kind": "any", "name": name, "config": cfg, "timestep": ts,
                        "alphabet": sc.ALL, "length": 3 if q else 4})
            for pre in ("SSRRHH", "SSCCCC", "SSSSHR"):
                out.append({"kind": "any", "name": name, "config": cfg, "timestep": ts,
                            "alphabet": sc.CORE, "length": 3 if q else 4, "prefixes": [pre]})
    # complete surface energy balance against the reference model
    for mod, kind in ((c22, "ref_ml"), (c25, "ref_cl")):
        for name, cfg in mod.CONFIGS.items():
            for ts in ("1h", "3h", "1D"):
                out.append({"kind": kind, "name": name, "config": cfg, "timestep": ts,
                            "alphabet": sc.CORE, "length": 3 if q else 4})
                out.append({"kind": kind, "name": name, "config": cfg, "timestep": ts,
                            "alphabet": sc.CORE, "length": 2 if q else 4,
                            "prefixes": ["SSSSHR", "SSSsCH", "sSMFWs"]})
                if kind == "ref_cl":
                    out.append({"kind": kind, "name": name, "config": cfg, "timestep": ts,
                                "alphabet": sc.CORE, "length": 1 if q else 2, "init": "cryo"})
            out.append({"kind": kind, "name": name, "config": cfg, "timestep": "1D",
                        "alphabet": "SRH", "length": 5, "start": "2020-04-28 00:00"})
    return out


def close(a, b, tol):
    return np.abs(a - b) <= tol


def identities(case, ck, mon, run, b, a):
    m = run.m
    cfg = m.config
    ml = cfg.snow.model == "multilayer"
    eb = cfg.snow.melt.method == "energy_balance"
    dt = m.timestep
    f = np.isfinite(a.met_temp) & np.isfinite(a.met_rel_hum) & np.isfinite(a.met_wind_speed) \
        & np.isfinite(a.met_precip) & np.isfinite(a.met_sw_in) & np.isfinite(a.met_lw_in)
    ck.count("gap_pixels", (~f).sum())
    mon(np.where(f, (a.met_sw_in >= 0) & (a.met_lw_in > 0), True), "negative incoming radiation")
    if not eb:
        return
    # radiation balance
    n = a.met_sw_in - a.met_sw_out + a.met_lw_in - a.met_lw_out
    mon(np.where(f, close(a.met_net_radiation, n, 1e-9 * (1 + np.abs(n))), True),
        "net radiation is not the balance of its components", net=a.met_net_radiation, expected=n)
    mon(np.where(f, close(a.met_sw_out, a.surf_albedo * a.met_sw_in, 1e-9 * (1 + a.met_sw_in)), True),
        "outgoing shortwave is not albedo times incoming shortwave")
    lw = 0.99 * SIGMA * a.surf_temp**4
    mon(np.where(f, close(a.met_lw_out, lw, 1e-6 * lw), True),
        "outgoing longwave radiation does not match the surface temperature", lw_out=a.met_lw_out,
        expected=lw)
    if not ml:
        # turbulent fluxes are only defined over snow in the cryolayer model
        f = f & (b.swe + np.nan_to_num(a.met_snowfall) > 0)
    # turbulent fluxes
    coeff = run.get("surface", "turbulent_exchange_coeff")
    rho = run.get("meteo", "dry_air_density")
    press = run.get("meteo", "atmos_press")
    mon(np.where(f, close(rho, press / (287.058 * a.met_temp), 1e-6), True), "air density")
    mon(np.where(f, coeff > 0, True), "exchange coefficient is not positive")
    h = CP * rho * coeff * a.met_wind_speed * (a.met_temp - a.surf_temp)
    mon(np.where(f, close(a.surf_sens_heat_flux, h, 1e-6 * (1 + np.abs(h))), True),
        "sensible heat flux does not match air and surface temperature",
        got=a.surf_sens_heat_flux, expected=h, air=a.met_temp, surface=a.surf_temp)
    le = a.surf_lat_heat * a.surf_moisture_flux
    mon(np.where(f, close(a.surf_lat_heat_flux, le, 1e-6 * (1 + np.abs(le))), True),
        "latent heat flux is not latent heat times moisture flux")
    adv = (CW * (a.met_temp - a.surf_temp) * a.met_rainfall
           + CI * (a.met_wet_bulb_temp - a.surf_temp) * a.met_snowfall) / dt
    if not ml:
        mon(np.where(f, close(a.surf_advective_heat_flux, adv, 1e-6 * (1 + np.abs(adv))), True),
            "heat advected by precipitation", got=a.surf_advective_heat_flux, expected=adv)
    # sublimation carries exactly the latent heat flux, unless limited by the available ice
    ice0 = b.ice_content.sum(axis=0) + np.nan_to_num(a.met_snowfall) \
        + np.nan_to_num(a.refreezing) - a.melt
    pot = -a.surf_moisture_flux * dt
    snow = (b.swe + np.nan_to_num(a.met_snowfall) > 1e-6) & (ice0 > 1e-6)
    lim = a.ice_content.sum(axis=0) > 1e-6
    ok = close(a.sublimation, pot, 1e-6 * (1 + np.abs(pot)))
    if ml:
        # no exchange with a top layer which has melted away in this time step
        top = b.ice_content[0] + np.nan_to_num(a.met_snowfall)
        ok |= (a.melt >= top - 1e-6) & (a.sublimation == 0)
    mon(np.where(f & snow & lim, ok, True),
        "sublimation does not match the latent heat flux", sublimation=a.sublimation, expected=pot)
    mon(np.where(f, a.sublimation <= np.maximum(pot, 0) + 1e-9, True), "excess sublimation")
    # melt energy
    res = (a.met_net_radiation + a.surf_sens_heat_flux + a.surf_lat_heat_flux
           + a.surf_advective_heat_flux - a.surf_heat_flux)
    left = a.swe > 1.0
    if ml:
        # ripe snowpack, partially melting
        ripe = (np.where(b.thickness > 0, b.temp, sc.T0) >= sc.T0 - 1e-9).all(axis=0) & (b.swe > 0)
        part = f & ripe & left & (a.melt > 0) & (np.abs(a.surf_temp - sc.T0) < 1e-9) \
            & (a.met_snowfall == 0)
        kb = 2.0 / (b.thickness.sum(axis=0) * 0 + 0.1 / 0.5)  # upper bound of base conductance
        base = (kb * np.maximum(b.soil_temp[0] - sc.T0, 0)
                + np.maximum(a.surf_heat_flux, 0)) * dt / LF
        pot_melt = np.maximum(res, 0) * dt / LF
        mon(np.where(part, a.melt >= pot_melt - 1e-6 * (1 + pot_melt), True),
            "less melt than the surplus energy requires", melt=a.melt, expected=pot_melt)
        mon(np.where(part, a.melt <= pot_melt + base + 1e-6 * (1 + pot_melt), True),
            "more melt than the surplus energy allows", melt=a.melt, expected=pot_melt, base=base)
        ck.count("partial_melt_checked", part.sum())
    else:
        hasb, hasa = b.thickness > 0, a.thickness > 0
        same = (hasb <= hasa).all(axis=0)
        part = f & same & left & (b.swe > 0) & (a.met_temp >= sc.T0)
        used = a.melt + (b.cold_content - a.cold_content).sum(axis=0)
        # liquid water in a layer does not need to be melted
        pot_melt = np.maximum(res, 0) * dt / LF
        exhausted = a.ice_content.sum(axis=0) <= 1.0
        mon(np.where(part & ~exhausted, close(used, pot_melt, 1e-6 * (1 + pot_melt)), True),
            "melt and cold content reduction do not match the energy balance",
            melt=a.melt, used=used, expected=pot_melt)
        ck.count("partial_melt_checked", (part & ~exhausted).sum())
        if cfg.snow.cryolayers.surface_temperature_iteration_method == "secant":
            cold = f & (b.swe + a.met_snowfall > 0) & (a.met_temp < sc.T0) & (a.surf_temp < sc.T0 - 1e-9)
            mon(np.where(cold, np.abs(res) <= 0.02 * (5 + CP * rho * coeff * a.met_wind_speed * 3), True),
                "energy balance is not closed at the iterated snow surface temperature", residual=res)
            ck.count("closed_balance_checked", cold.sum())
        # refreezing and cold content only use the energy deficit
        froz = f & (b.swe > 0) & (a.met_temp < sc.T0)
        mon(np.where(froz, a.melt == 0, True), "melt at an air temperature below freezing")


def layer_residual(temp0, temp1, thickness, cond, hc, top_flux, t_bottom, dx_bottom, cond_bottom, dt):
    """Residual of the (implicit) heat equation in every layer of one column stack."""
    n = temp0.shape[0]
    g = [2 / (thickness[k] / cond[k] + thickness[k + 1] / cond[k + 1]) for k in range(n - 1)]
    g.append(2 / (thickness[n - 1] / cond[n - 1] + dx_bottom / cond_bottom))
    out, scale = [], []
    for k in range(n):
        fin = top_flux if k == 0 else g[k - 1] * (temp1[k - 1] - temp1[k])
        fout = g[k] * (temp1[k] - (temp1[k + 1] if k < n - 1 else t_bottom))
        out.append(hc[k] * (temp1[k] - temp0[k]) - dt * (fin - fout))
        scale.append(dt * (np.abs(fin) + np.abs(fout)) + hc[k] * 1e-3)
    return np.array(out), np.array(scale)


def soil_balance(ck, mon, run, b, a):
    m = run.m
    dt = m.timestep
    tc = run.get("soil", "therm_cond")
    th = run.get("soil", "thickness")
    hc = run.get("soil", "heat_cap")
    mon(np.isfinite(a.soil_temp), "soil temperature is not finite")
    d = a.soil_temp - b.soil_temp
    stored = (hc * d).sum(axis=0) + dt * tc[-1] / th[-1] * d[-1]
    fl = a.soil_heat_flux * dt
    ok = np.isfinite(fl)
    mon(np.where(ok, np.abs(stored - fl) <= 1e-6 * (np.abs(fl) + (hc * np.abs(d)).sum(axis=0)) + 1e-3, True),
        "soil heat storage does not match the soil heat flux", stored=stored, flux=fl)
    res, scale = layer_residual(b.soil_temp, a.soil_temp, th, tc, hc, a.soil_heat_flux,
                                b.soil_temp[-1], th[-1], tc[-1], dt)
    mon(np.where(ok, np.abs(res) <= 1e-6 * scale + 1e-3, True),
        "soil temperatures do not follow heat conduction", residual=res)
    bare = ok & (a.num_layers == 0)
    mon(np.where(bare, close(a.soil_heat_flux, a.surf_heat_flux, 1e-9 * (1 + np.abs(a.surf_heat_flux))), True),
        "the heat flux into snow-free soil is not the surface heat flux")
    mon(np.where(ok, (hc > 0).all(axis=0) & (tc > 0).all(axis=0), True), "soil properties")


def calm_balance(case, ck, mon, run, b, a, t):
    """Dry, calm and frozen: snow heat content changes only by conduction."""
    m = run.m
    dt = m.timestep
    if t < len(case["prefixes"][0]):
        return
    e0 = ((b.ice_content * CI + b.liquid_water_content * CW) * (b.temp - sc.T0)).sum(axis=0)
    e1 = ((a.ice_content * CI + a.liquid_water_content * CW) * (a.temp - sc.T0)).sum(axis=0)
    ok = (a.melt == 0) & (a.refreezing == 0) & (b.swe > 0) \
        & (np.abs(a.swe - b.swe) < 1e-9) & (np.abs(a.depth - b.depth) < 1e-9)
    fl = (a.surf_heat_flux - a.soil_heat_flux) * dt
    scale = (np.abs(a.surf_heat_flux) + np.abs(a.soil_heat_flux)) * dt
    mon(np.where(ok, np.abs(e1 - e0 - fl) <= 1e-6 * scale + 1.0, True),
        "heat content of the snowpack does not match the heat fluxes at its boundaries",
        change=e1 - e0, expected=fl, surface=a.surf_heat_flux, soil=a.soil_heat_flux)
    tc = run.get("snow", "therm_cond")
    stc, sth = run.get("soil", "therm_cond"), run.get("soil", "thickness")
    hc = b.ice_content * CI + b.liquid_water_content * CW
    for ns in range(1, b.thickness.shape[0] + 1):
        p = ok & (b.num_layers == ns) & (a.num_layers == ns)
        if p.any():
            res, scale = layer_residual(
                b.temp[:ns, p], a.temp[:ns, p], b.thickness[:ns, p], tc[:ns, p], hc[:ns, p],
                a.surf_heat_flux[p], b.soil_temp[0, p], sth[0, p], stc[0, p], dt)
            full = np.ones((ns, len(p)), dtype=bool)
            full[:, p] = np.abs(res) <= 1e-6 * scale + 1e-2
            mon(full, "snow temperatures do not follow heat conduction")
    ck.count("calm_checked", ok.sum())
    ck.outcome(("calm", int(ok.sum() > 0), tuple(np.unique(a.num_layers).tolist())))
    mon(np.where(ok, np.abs(a.surf_sens_heat_flux) + np.abs(a.surf_moisture_flux) == 0, True),
        "turbulent exchange without wind")


def run_case(case, ck):
    ref = None
    for t, run, b, a in sc.explore(case, ck, letters=CALM):
        mon = sc.Monitor(ck, run, t)
        if case["kind"] == "ref_ml":
            ref = ref or refsurf.Fsm(case["config"], run.m.timestep)
            c22.compare(ref, mon, ck, b, a, c22.ENERGY)
            continue
        if case["kind"] == "ref_cl":
            ref = ref or refsurf.CryoEB(case["config"], run.m.timestep, run.n)
            c25.compare(ref, mon, ck, run, t, b, a, {**c25.FLUX, **c25.STATE})
            continue
        if case["kind"] == "calm":
            calm_balance(case, ck, mon, run, b, a, t)
        identities(case, ck, mon, run, b, a)
        if run.m.config.snow.model == "multilayer":
            soil_balance(ck, mon, run, b, a)
