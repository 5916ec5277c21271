"""Entry point: python -m oamc.run <PROPERTY> [quick|thorough] [--replay FILE]"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

TIME_LIMIT = 700  # s; a quick check normally takes about a minute
VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known-findings.jsonl"


def known_findings(prop):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["property"] == prop and d["status"] == "known":
                    out.append(d)
    return out


def matches(v, k):
    """A violation is a known finding only if it is the same assertion on the same listed case."""
    if not v["what"].startswith(k["what"]):
        return False
    return all((v["case"] or {}).get(key) == val for key, val in k["case"].items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()

    src = (VERIF / "oamc" / "checks" / f"{prop.lower()}.py").read_text()
    meta = {}
    for line in src.splitlines():
        for key in ("JIT", "WORKERS", "LEVEL", "TIMEOUT", "NUMBA_THREADS"):
            if line.startswith(f"{key} = "):
                meta[key] = eval(line.split("=", 1)[1])
    jit = meta.get("JIT", True)
    nworkers = 1 if a.replay else meta.get("WORKERS", 8)
    level = meta.get("LEVEL", "model_checking")

    tmp = Path(tempfile.mkdtemp(prefix="oamc_run_"))
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{VERIF}:{os.environ.get('OAMC_DEV_REPO', '/repo')}",  # override: development only
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_CACHE_DIR=str(tmp / "numba"),
        TMPDIR=str(tmp),
        SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
        TZ="UTC",
    )
    env.pop("NUMBA_DISABLE_JIT", None)
    env.pop("NUMBA_NUM_THREADS", None)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    if meta.get("NUMBA_THREADS"):
        env["NUMBA_NUM_THREADS"] = str(meta["NUMBA_THREADS"])
    elif meta.get("WORKERS", 8) > 1:
        env["NUMBA_NUM_THREADS"] = "1"

    (tmp / "queue").write_text("0")
    procs = []
    try:
        for i in range(nworkers):
            out = tmp / f"out{i}.json"
            spec = (
                {"replay": json.load(open(a.replay))["case"]}
                if a.replay
                else {"queue": str(tmp / "queue")}
            )
            # every worker has its own numba cache: nothing stale, no races
            wenv = dict(env, NUMBA_CACHE_DIR=str(tmp / f"numba{i}"))
            p = subprocess.Popen(
                [sys.executable, "-m", "oamc.worker", prop, tier, json.dumps(spec), str(out)],
                cwd=str(tmp),
                env=wenv,
                stdout=open(f"{out}.log", "w"),
                stderr=subprocess.STDOUT,
            )
            procs.append((p, out))

        res, errs = [], []
        hung = []
        deadline = t0 + (TIME_LIMIT if tier == "quick" else 20 * TIME_LIMIT)
        for p, out in procs:
            try:
                p.wait(timeout=max(deadline - time.time(), 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                case = Path(f"{out}.case")
                hung.append({
                    "case": json.loads(case.read_text()) if case.exists() else None,
                    "what": f"the model does not terminate within {TIME_LIMIT} s",
                    "info": {},
                })
                continue
            if not out.exists():
                log = Path(f"{out}.log").read_text()
                errs.append(f"worker died (exit {p.returncode}): {log[-3000:]}")
                continue
            r = json.load(open(out))
            res.append(r)
            errs += [json.dumps(e["case"]) + "\n" + e["traceback"] for e in r["errors"]]
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    counters, outcomes, violations, samples = {}, set(), hung, []
    for r in res:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        outcomes |= set(r["outcomes"])
        violations += r["violations"]
        samples += r["samples"]

    known = known_findings(prop)
    new, seen_known = [], []
    for v in violations:
        k = next((k for k in known if matches(v, k)), None)
        if k is not None:
            if k not in seen_known:
                seen_known.append(k)
        else:
            new.append(v)

    wall = time.time() - t0
    if not a.replay:
        ev = {
            "property": prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "states": counters.pop("states", 0),
                "transitions": counters.pop("transitions", 0),
                "traces_validated_against_impl": counters.pop("traces", 0),
                "samples": samples[:5],
                "exhaustive": not errs and not new,
                "distinct_outcomes": len(outcomes),
                **{f"n_{k}": v for k, v in sorted(counters.items())},
            },
            "assumptions": _assumptions(src),
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
        print(
            f"{prop} {tier}: cases={counters.get('cases', 0)} states={ev['coverage']['states']} "
            f"transitions={ev['coverage']['transitions']} "
            f"traces={ev['coverage']['traces_validated_against_impl']} "
            f"assertions={counters.get('assertions', 0)} outcomes={len(outcomes)} "
            f"wall={wall:.1f}s"
        )

    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {k['description']}")

    if new:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        for n, v in enumerate(new[: int(os.environ.get("OAMC_MAX", 5))]):
            path = rd / f"{prop}_{n}.json"
            if a.replay:
                path = Path(a.replay)
            else:
                path.write_text(json.dumps({"property": prop, **v}, indent=1))
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", v["what"], json.dumps(v["info"])[:1500], "case:", json.dumps(v["case"])[:500])
        return 1

    if errs:
        print("CHECK ERROR", file=sys.stderr)
        for e in errs[:3]:
            print(e, file=sys.stderr)
        return 2
    return 0


def _assumptions(src):
    # ASSUMPTIONS = [...] literal of the check module
    import ast

    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
            return ast.literal_eval(node.value)
    return []


if __name__ == "__main__":
    sys.exit(main())
