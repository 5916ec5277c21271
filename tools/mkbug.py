"""mkbug.py SPEC.py : creates /verif/seeded/<id>/ after confirming tests pass and the demo works.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

V = Path("/verif")
sp = runpy.run_path(sys.argv[1])
fast = "--notest" in sys.argv
work = Path(tempfile.mkdtemp(prefix="bug_"))
copy = work / "repo"
try:
    subprocess.check_call(["cp", "-a", "/repo", str(copy)])
    d = V / "seeded" / sp["ID"]
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    shutil.copy(V / "tools/demolib.py", d / "demolib.py")
    shutil.copy(V / "tools/demo.sh", d / "demo.sh")
    os.chmod(d / "demo.sh", 0o755)
    (d / "demo.py").write_text("from demolib import *\n\n" + sp["DEMO"].strip() + "\n")
    (d / "meta.json").write_text(json.dumps({"property": sp["PROPERTY"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, indent=1))
    r0 = subprocess.run(["bash", str(d / "demo.sh")], cwd=copy, capture_output=True, text=True)
    for f, old, new in sp["EDITS"]:
        p = copy / f
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=copy, text=True)
    (d / "patch.diff").write_text(diff)
    r1 = subprocess.run(["bash", str(d / "demo.sh")], cwd=copy, capture_output=True, text=True)
    print("clean:", r0.returncode, r0.stdout[-300:], r0.stderr[-600:] if r0.returncode else "")
    print("patched:", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    ok = r0.returncode == 0 and r1.returncode != 0
    if not fast:
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        sh = Path("/opt/vp/test.sh").read_text().replace("cd /repo ", f"cd {copy} ")
        (work / "t.sh").write_text(sh)
        t = subprocess.run(["bash", str(work / "t.sh"), str(work / "o.json")], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=str(copy)))
        o = json.load(open(work / "o.json"))
        passed = set(o.get("passed", []))
        miss = [x for x in base if x not in passed]
        print("tests:", len(passed), "missing:", miss)
        ok = ok and not miss
    print("KEEP" if ok else "NOT OK")
    if not ok:
        pass
finally:
    shutil.rmtree(work)
