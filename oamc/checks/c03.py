"""C03: physical invariants and internal consistency of the snow and surface state."""

import numpy as np

from .. import snowcase as sc

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; forcing taken from an 11 letter weather alphabet",
]

CONFIGS = {**sc.MULTILAYER_CONFIGS, **sc.CRYO_CONFIGS}


def cases(tier):
    return sc.word_cases(CONFIGS, tier, timesteps=("3h", "1D") if tier == "quick" else ("3h", "1D", "1h"))


def capacity(case, cfg, a):
    """Liquid water holding capacity per layer."""
    lw = cfg.snow.liquid_water_content
    if lw.method == "mass_fraction":
        cap = lw.max * a.ice_content
    else:
        with np.errstate(all="ignore"):
            por = np.where(a.thickness > 0, 1 - a.ice_content / (917.0 * a.thickness), 0.0)
        cap = 1000.0 * a.thickness * por * lw.max
    return cap


def monitor(case, ck, mon, run, b, a, t):
    cfg = run.m.config
    ml = cfg.snow.model == "multilayer"
    eps = 1e-9
    # the linearised energy balance may overshoot for daily time steps
    tmin, tmax = (150.0, 400.0) if run.m.timestep <= 10800 else (0.0, 1000.0)
    for n in ("ice_content", "liquid_water_content", "thickness", "swe", "depth", "area_fraction"):
        mon(np.isfinite(a[n]), f"{n} is not finite")
        mon(a[n] >= -1e-12, f"negative {n}", value=a[n])
    mass = a.ice_content + a.liquid_water_content
    tol = 2e-3 if ml else 1e-7
    mon(np.abs(a.swe - mass.sum(axis=0)) <= tol + 1e-9 * a.swe, "SWE is not the sum of the layers",
        swe=a.swe, mass=mass.sum(axis=0))
    mon(np.abs(a.depth - a.thickness.sum(axis=0)) <= (3e-6 if ml else 1e-9) + 1e-9 * a.depth,
        "depth is not the sum of the layer thicknesses", depth=a.depth, thickness=a.thickness)
    has = a.thickness > 0
    mon(a.num_layers == has.sum(axis=0), "number of layers is inconsistent", n=a.num_layers,
        thickness=a.thickness)
    mon(np.where(has, mass > 0, mass <= 1e-12), "layer mass and thickness are inconsistent",
        mass=mass, thickness=a.thickness)
    with np.errstate(all="ignore"):
        dens = mass / a.thickness
    mon(np.where(has, np.abs(a.density - dens) <= 1e-6 * dens, True),
        "layer density is not mass per thickness", density=a.density, expected=dens)
    # (a rounding residue of a layer that melted completely has no meaningful density)
    mon(np.where(has & (mass > 1e-9), (dens > 10) & (dens < 1000.0), True), "implausible layer density",
        density=dens)
    swe = mass.sum(axis=0)
    snow = has.any(axis=0)
    mon((a.depth > 3e-6) <= snow, "depth without layers")
    # snow cover fraction
    mon((a.area_fraction >= 0) & (a.area_fraction <= 1), "snow cover fraction out of range",
        f=a.area_fraction)
    scale = cfg.snow.snow_cover_fraction_depth_scale
    f = np.tanh(a.depth / scale) if scale > 0 else (a.depth > 0) * 1.0
    if ml:
        mon(np.abs(a.area_fraction - f) <= (1e-9 if scale == 0 else 1e-4),
            "snow cover fraction does not match depth", f=a.area_fraction, depth=a.depth)
    else:
        # the depth may still change by a layer transition after the fraction was updated
        mon((a.area_fraction > 0) == (a.depth > 0), "snow cover fraction does not match depth",
            f=a.area_fraction, depth=a.depth)
    # liquid water holding capacity
    cap = capacity(case, cfg, a)
    if not ml:
        cap[2:] = 0.0
    melt_layers = a.liquid_water_content
    if ml:
        mon(melt_layers <= cap + 1e-6 + 1e-6 * mass, "liquid water exceeds the holding capacity",
            lwc=melt_layers, cap=cap)
    else:
        trans = mass[2:].sum(axis=0) > (b.ice_content + b.liquid_water_content)[2:].sum(axis=0)
        # ... just turned into firn (drains next step)
        mon((melt_layers[2:] <= 1e-9) | trans, "liquid water in firn or ice", lwc=melt_layers)
        mon(melt_layers <= mass, "liquid water exceeds mass")
    # layering
    if ml:
        mt = np.array(cfg.snow.min_thickness)
        n = a.num_layers
        for k in range(len(mt)):
            # every layer but the last has its prescribed thickness, layers fill from the top
            mon(np.where(k < n, a.thickness[k] > 0, a.thickness[k] == 0), "layers are not contiguous",
                thickness=a.thickness)
            mon(np.where(k < n - 1, np.abs(a.thickness[k] - mt[k]) <= 1e-9, True),
                "inner layer does not have its prescribed thickness", thickness=a.thickness)
        mon(np.where(has, (a.temp <= sc.T0 + 1e-6) & (a.temp > tmin), True),
            "snow temperature out of range", temp=a.temp)
        mon(np.where(snow, True, np.isnan(a.albedo)), "albedo defined without snow")
    alb = cfg.snow.albedo
    amin = min(alb.min, alb.firn, alb.ice) if not ml else alb.min
    mon(np.where(snow, (a.albedo >= amin - eps) & (a.albedo <= alb.max + eps), True),
        "snow albedo out of range", albedo=a.albedo, depth=a.depth)
    lo = min(amin, cfg.soil.albedo)
    mon((a.surf_albedo >= lo - eps) & (a.surf_albedo <= max(alb.max, cfg.soil.albedo) + eps),
        "surface albedo out of range", albedo=a.surf_albedo)
    # surface temperature
    full = np.isfinite(a.met_temp) & np.isfinite(a.met_rel_hum) & np.isfinite(a.met_wind_speed) \
        & np.isfinite(a.met_precip)
    eb = cfg.snow.melt.method == "energy_balance"
    if eb:
        mon(np.where(full & snow & (b.swe + a.met_snowfall > 0), a.surf_temp <= sc.T0 + 1e-6, True),
            "surface temperature above the melting point although snow covered", temp=a.surf_temp)
        mon(np.where(full, (a.surf_temp > tmin) & (a.surf_temp < tmax), True),
            "implausible surface temperature", temp=a.surf_temp)
    if not ml and eb:
        mon(a.cold_content >= -1e-12, "negative cold content")
        mon(np.isfinite(a.cold_content), "cold content is not finite")
        mon(np.where(has, True, a.cold_content == 0), "cold content in an empty layer")
        hc = cfg.snow.cryolayers.cold_holding_capacity
        grew = a.cold_content > b.cold_content + 1e-12
        mon(np.where(grew[:2].any(axis=0), a.cold_content.sum(axis=0)
                     <= hc * (swe + np.maximum(a.sublimation, 0)) + b.cold_content.sum(axis=0) + 1e-6, True),
            "cold content exceeds the holding capacity", cc=a.cold_content)
    ck.outcome((bool(snow.any()), tuple(int(x) for x in np.unique(a.num_layers)),
                bool((a.melt > 0).any())))


def run_case(case, ck):
    for t, run, b, a in sc.explore(case, ck):
        monitor(case, ck, sc.Monitor(ck, run, t), run, b, a, t)
