"""C23: derived meteorological variables."""

import itertools

import numpy as np

from .. import domain, refmet

JIT = False
LEVEL = "model_checking"
ASSUMPTIONS = [
    "grid of air temperatures 230..315 K, relative humidities 1..100 %, elevations -100..6000 m "
    "(thorough: finer)",
    "wet-bulb temperature accurate to 0.02 K",
]
NAN = float("nan")


def grids(tier):
    nt, nr, nz = (18, 9, 6) if tier == "quick" else (86, 34, 12)
    t = list(np.linspace(230.0, 315.0, nt)) + [273.15, 273.149, 273.151, NAN]
    rh = [1.0, *np.linspace(5.0, 100.0, nr), NAN]
    z = list(np.linspace(-100.0, 6000.0, nz))
    return t, rh, z


def cases(tier):
    t, rh, z = grids(tier)
    return [{"kind": "model", "z": a} for a in z] + [{"kind": "wind", "part": k} for k in range(8)] + [
        {"kind": "inverse", "z": a} for a in z] + [{"kind": "clouds"}]


def model_case(case, ck):
    import openamundsen as oa

    t, rh, _ = grids(ck.tier)
    combos = np.array(list(itertools.product(t, rh)))
    n = len(combos)
    shape = (len(t), len(rh))
    g = domain.make_grids(ck.scratch.sub("g"), np.full(shape, case["z"]))
    cfg = domain.base_config(g, ck.scratch.sub("r"), "2020-01-10 00:00", "2020-01-10 03:00", "3h")

    def force(m):
        m.state.meteo.temp[:] = combos[:, 0].reshape(shape)
        m.state.meteo.rel_hum[:] = combos[:, 1].reshape(shape)
        m.state.meteo.precip[:] = 0.0
        m.state.meteo.wind_speed[:] = 2.0
        m.state.meteo.cloud_fraction[:] = 0.5
        m.state.meteo.cloud_factor[:] = 0.5

    m = oa.OpenAmundsen(cfg)
    m.initialize(meteo_callback=force)
    m.run_single()
    tt, rr = combos.T
    ref = refmet.derived(tt, rr, case["z"])
    for k, v in ref.items():
        got = np.array(m.state.meteo[k]).ravel()
        if k == "atmos_press":
            v = np.full(n, refmet.pressure(case["z"]))
        ck.close(got, v, f"derived variable {k}", rtol=1e-9, atol=1e-12, z=case["z"])
    tw = np.array(m.state.meteo.wet_bulb_temp).ravel()
    exp = np.array([refmet.wet_bulb(*a) for a in zip(tt, ref["vap_press"], ref["psych_const"])])
    ok = np.isfinite(exp)
    ck.check_all(np.abs(tw - exp)[ok] <= 0.02, "wet-bulb temperature", got=tw[ok], expected=exp[ok],
                 t=tt[ok], rh=rr[ok])
    ck.check_all((tw <= tt + 0.02)[ok], "wet-bulb above air temperature", got=tw[ok], t=tt[ok])
    td = np.array(m.state.meteo.dew_point_temp).ravel()
    warm = ok & (tt >= 273.15) & (exp >= 273.15)
    ck.check_all((td <= tw + 0.02)[warm], "dew point above wet-bulb temperature", td=td[warm],
                 tw=tw[warm])
    # temperature missing: nothing can be derived
    gap = np.isnan(tt)
    for k in ("sat_vap_press", "vap_press", "spec_hum", "wet_bulb_temp", "dew_point_temp"):
        ck.check(np.isnan(np.array(m.state.meteo[k]).ravel()[gap]).all(), "value without data", var=k)
    ck.states(n)
    ck.transitions(n)
    ck.traces(n)
    ck.outcome((case["z"], round(float(np.nansum(tw)), 3)))


def inverse_case(case, ck):
    """Pairs of conversions are inverse to each other; formulas of the public functions."""
    from openamundsen import meteo

    t, rh, _ = grids(ck.tier)
    c = np.array(list(itertools.product([a for a in t if a == a], [a for a in rh if a == a])))
    t, rh = c.T
    z = case["z"]
    p = meteo.atmospheric_pressure(z)
    ck.close(p, refmet.pressure(z), "atmospheric pressure", rtol=1e-9)
    ck.close(meteo.pressure_to_altitude(p), z, "altitude of a pressure", rtol=1e-6, atol=1e-3)
    td = meteo.dew_point_temperature(t, rh)
    ck.close(meteo.relative_humidity_from_dew_point_temperature(t, td), rh,
             "relative humidity of the dew point", rtol=1e-6)
    e = meteo.vapor_pressure(t, rh)
    ah = meteo.absolute_humidity(t, e)
    ck.close(ah, refmet.derived(t, rh, z)["vap_press"] / (461.52 * t), "absolute humidity", rtol=1e-9)
    ck.close(meteo.relative_humidity(t, ah), rh, "relative humidity of the absolute humidity",
             rtol=1e-6)
    ck.close(meteo.dry_air_density(t, p), p / (287.058 * t), "dry air density", rtol=1e-9)
    for over in (None, "water", "ice"):
        ck.close(meteo.saturation_vapor_pressure(t, over), refmet.esat(t, over),
                 "saturation vapor pressure", rtol=1e-9, over=over)
        ck.close(meteo.vapor_pressure(t, rh, over), refmet.esat(t, over) * rh / 100,
                 "vapor pressure", rtol=1e-9, over=over)
    # precipitable water and emissivity increase with the vapor pressure
    w = meteo.precipitable_water(t, e)
    em = meteo.clear_sky_emissivity(w)
    cm = 46.5 * (e / 100) / t
    ck.close(em, 1 - (1 + cm) * np.exp(-np.sqrt(1.2 + 3 * cm)), "clear-sky emissivity", rtol=1e-9)
    ck.check_all((em > 0) & (em < 1), "emissivity bounds", em=em)
    for tl, dl in ((-0.0065, -0.004), (0.002, 0.001)):
        cf = meteo.cloud_fraction_from_humidity(t, rh, z, tl, dl)
        z700 = (1 - (70000 / 101325) ** (1 / refmet.EXP)) * refmet.CP * 288.15 / refmet.G
        t7 = t - tl * (z - z700)
        d7 = refmet.derived(t, rh, z)["dew_point_temp"] - dl * (z - z700)
        r7 = 100 * refmet.esat(d7) / refmet.esat(t7)
        ck.close(cf, np.clip(0.832 * np.exp((r7 - 100) / 41.6), 0, 1), "cloud fraction (humidity)",
                 rtol=1e-6)
    for thr, rng in itertools.product((272.0, 273.15, 275.0), (0.0, 1.0, 3.0)):
        ck.close(meteo.precipitation_phase(t, thr, rng), refmet.snow_fraction(t, thr, rng),
                 "precipitation phase", rtol=1e-9)
    ck.states(len(t))
    ck.transitions(len(t))
    ck.traces(len(t))
    ck.outcome((z, round(float(ah.sum()), 6)))


def wind_case(case, ck):
    from openamundsen import meteo

    ws = np.array([0.1, 0.5, 1.0, 3.3, 12.0, 40.0])
    step = 45 if ck.tier == "quick" else 450
    wd = case["part"] * 45.0 + np.arange(0, 45, 45 / step)
    a, b = (v.ravel() for v in np.meshgrid(ws, wd))
    u, v = meteo.wind_to_uv(a, b)
    ck.close(u, -a * np.sin(b * np.pi / 180), "u component")
    ck.close(v, -a * np.cos(b * np.pi / 180), "v component")
    s, d = meteo.wind_from_uv(u, v)
    ck.close(s, a, "wind speed of the components", rtol=1e-9)
    diff = (d - b + 180) % 360 - 180
    ck.check_all(np.abs(diff) < 1e-6, "wind direction of the components", got=d, expected=b)
    ck.check_all((d >= 0) & (d <= 360), "range of the wind direction", got=d)
    for h0, h, z0 in itertools.product((2.0, 10.0), (1.0, 2.0, 10.0, 25.0), (0.001, 0.1)):
        ck.close(meteo.log_wind_profile(a, h0, h, z0), a * np.log(h / z0) / np.log(h0 / z0),
                 "logarithmic wind profile", rtol=1e-9)
    ck.states(len(a))
    ck.transitions(len(a))
    ck.traces(len(a))
    ck.outcome(case["part"])


def clouds_case(case, ck):
    from openamundsen import meteo

    cf = np.linspace(0, 1, 1001)
    fac = meteo.cloud_factor_from_cloud_fraction(cf)
    ck.close(fac, 1 - 0.233 * cf - 0.415 * cf ** 2, "cloud factor", rtol=1e-9)
    ck.check_all(np.diff(fac) < 0, "cloud factor not decreasing with cloudiness")
    ck.close(meteo.cloud_fraction_from_cloud_factor(fac), cf, "cloud fraction of the cloud factor",
             rtol=1e-6, atol=1e-9)
    low = meteo.cloud_fraction_from_cloud_factor(np.linspace(0, 0.352, 101))
    ck.close(low, np.ones(101), "cloud fraction for cloud factors below the overcast value",
             rtol=1e-9)
    ck.states(len(cf))
    ck.transitions(len(cf))
    ck.traces(len(cf))
    ck.outcome("clouds")


def run_case(case, ck):
    globals()[case["kind"] + "_case"](case, ck)
