"""Mutation study (development only): mutate.py FILE [NAME...]

FILE defines M = [(name, "PROP[,PROP]", path, old, new), ...] (old/new may be lists for several
edits in the same file). Every mutant is applied to a copy of /repo and the checks are run on it.
"""
import os, shutil, subprocess, sys, tempfile, time, runpy, json
from pathlib import Path

SRC = os.environ.get("MUT_SRC", "/repo")
M = runpy.run_path(sys.argv[1])["M"]
names = sys.argv[2:]
w = Path(tempfile.mkdtemp(prefix="mut_", dir="/tmp"))
subprocess.run(["cp", "-a", SRC, w / "repo"], check=True)
log = open("/tmp/mutlog.txt", "a")
try:
    for name, props, path, old, new in M:
        if names and name not in names:
            continue
        f = w / "repo" / "openamundsen" / path
        src = f.read_text()
        olds, news = ([old], [new]) if isinstance(old, str) else (old, new)
        s = src
        bad = False
        for o, n in zip(olds, news):
            if s.count(o) < 1:
                print("!! not found", name, repr(o[:60])); bad = True; break
            if s.count(o) > 1:
                print("!! ambiguous", name, s.count(o), repr(o[:60])); bad = True; break
            s = s.replace(o, n)
        if bad:
            continue
        try:
            compile(s, str(f), "exec") if f.suffix == ".py" else None
        except SyntaxError as e:
            print("!! syntax", name, e); continue
        f.write_text(s)
        try:
            for p in props.split(","):
                t = time.time()
                r = subprocess.run(["/verif/check.sh", p, "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, OAMC_DEV_REPO=str(w / "repo"), OAMC_MAX="1"))
                v = [l for l in r.stdout.split("\n") if l.startswith("    ")]
                line = f"{'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR%d' % r.returncode} {p} {name} {time.time()-t:.0f}s {v[0].strip()[:110] if v else ''}"
                print(line, flush=True)
                log.write(line + "\n"); log.flush()
        finally:
            f.write_text(src)
finally:
    shutil.rmtree(w, ignore_errors=True)
