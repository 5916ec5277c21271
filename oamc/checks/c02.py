"""C02: water mass conservation of the cryospheric layers (new snow/old snow/firn/ice)."""

from .. import snowcase as sc
from .c01 import mass_monitor

JIT = True
LEVEL = "model_checking"
ASSUMPTIONS = [
    "flat domain, one pixel per weather word; forcing taken from an 11 letter weather alphabet",
    "runs cross the seasonal old snow -> firn transition",
]


def cases(tier):
    return sc.word_cases(sc.CRYO_CONFIGS, tier)


def run_case(case, ck):
    eb = case["config"]["snow"].get("melt", {}).get("method", "energy_balance") == "energy_balance"
    for t, run, b, a in sc.explore(case, ck):
        mass_monitor(sc.Monitor(ck, run, t), ck, b, a, 1e-7, refreezes=eb)
