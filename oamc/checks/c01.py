"""C01: water mass conservation of the multilayer snowpack."""

import numpy as np

from .. import snowcase as sc

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; forcing taken from an 11 letter weather alphabet",
    "layers thinner than 1e-6 m may be discarded by the model (tolerance 2e-3 kg m-2)",
]


def cases(tier):
    return sc.word_cases(sc.MULTILAYER_CONFIGS, tier)


def mass_monitor(mon, ck, b, a, tol, refreezes=True):
    z = np.nan_to_num
    ice0, ice1 = b.ice_content.sum(axis=0), a.ice_content.sum(axis=0)
    lwc0, lwc1 = b.liquid_water_content.sum(axis=0), a.liquid_water_content.sum(axis=0)
    sf, rf = z(a.met_snowfall), z(a.met_rainfall)
    scale = tol + 1e-9 * (ice0 + lwc0 + sf + rf)
    a = sc.Snap(a, refreezing=z(a.refreezing) if not refreezes else a.refreezing)
    # a flux reported as missing because its forcing is missing counts as none
    gap = np.isnan(a.met_temp) | np.isnan(a.met_sw_in)
    a["melt"] = np.where(gap & np.isnan(a.melt), 0.0, a.melt)
    for n in ("melt", "refreezing", "sublimation", "runoff"):
        mon(np.isfinite(a[n]), f"{n} is not a number")
    mon(
        np.abs(sf + rf - z(a.met_precip)) <= 1e-9 * (1 + z(a.met_precip)),
        "rainfall and snowfall do not add up to precipitation",
        snowfall=sf, rainfall=rf, precip=a.met_precip,
    )
    # total water balance
    res = (ice1 + lwc1) - (ice0 + lwc0) - (sf + rf - a.runoff - a.sublimation)
    mon(np.abs(res) <= scale, "snow water balance does not close", residual=res,
        swe_before=ice0 + lwc0, swe_after=ice1 + lwc1, snowfall=sf, rainfall=rf,
        runoff=a.runoff, sublimation=a.sublimation)
    # per phase
    res_ice = ice1 - ice0 - (sf - a.melt + a.refreezing - a.sublimation)
    mon(np.abs(res_ice) <= scale, "ice balance does not close", residual=res_ice,
        melt=a.melt, refreezing=a.refreezing, sublimation=a.sublimation, snowfall=sf)
    res_liq = lwc1 - lwc0 - (rf + a.melt - a.refreezing - a.runoff)
    mon(np.abs(res_liq) <= scale, "liquid water balance does not close", residual=res_liq,
        melt=a.melt, refreezing=a.refreezing, runoff=a.runoff, rainfall=rf)
    # nothing can be removed that does not exist
    mon(a.melt <= ice0 + sf + a.refreezing + scale, "more ice melted than available", melt=a.melt)
    mon(a.sublimation <= ice0 + sf + a.refreezing + scale, "more ice sublimated than available")
    mon(a.refreezing <= lwc0 + rf + a.melt + scale, "more water refrozen than available")
    for n in ("melt", "refreezing", "runoff"):
        mon(a[n] >= -1e-12, f"negative {n}", value=a[n])
    # without snow, rain runs off in the same step
    bare = (ice0 + lwc0 + sf == 0) & (ice1 + lwc1 == 0) & (a.sublimation == 0)
    mon(np.abs(a.runoff - rf)[bare] <= 1e-9 if bare.any() else True,
        "rain on snow-free ground does not run off")
    ck.outcome(("melt", bool((a.melt > 0).any()), "refreeze", bool((a.refreezing > 0).any()),
                "depos", bool((a.sublimation < 0).any()), "out", bool((ice1 == 0).any())))


def run_case(case, ck):
    for t, run, b, a in sc.explore(case, ck):
        mass_monitor(sc.Monitor(ck, run, t), ck, b, a, 2e-3)
