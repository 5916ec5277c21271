"""Worker process: runs one shard of the cases of one check."""

import importlib
import json
import logging
import sys
import warnings

from . import core, domain


def main():
    prop, tier, spec, out = sys.argv[1:5]
    spec = json.loads(spec)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")

    mod = importlib.import_module(f"oamc.checks.{prop.lower()}")
    ck = core.Ck(prop, tier)
    ck.scratch = domain.Scratch()
    try:
        if "replay" in spec:
            cases = [spec["replay"]]
        else:
            cases = core.queue(list(mod.cases(tier)), spec["queue"])
        errors = core.run_cases(mod, cases, ck, progress=out + ".case")
    finally:
        ck.scratch.remove()
    core.dump_result(ck, errors, out)


if __name__ == "__main__":
    main()
