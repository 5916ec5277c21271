#!/bin/bash
# development helper: run a check and print the violations grouped by assertion
OAMC_MAX=${MAX:-40} bash "$(dirname "$0")/../check.sh" "$@" > /tmp/dev.out 2>&1
echo "exit $?"
python3 - <<'PY'
import re
ls = open("/tmp/dev.out").read().split("\n")
seen = {}
for i, l in enumerate(ls):
    if l.startswith("VIOLATION"):
        continue
    if l.startswith("    "):
        key = re.sub(r"\d+", "#", l.strip()[:60])
        seen.setdefault(key, []).append(l.strip())
    elif l.strip():
        print(l[:600])
for k, v in list(seen.items())[:12]:
    m = re.search(r'"traceback": "(.*?)"[},]', v[0])
    s = v[0]
    if "traceback" in s:
        s = s[:250] + " ... " + s[s.find("case:"):][:300]
        tb = v[0].split("\\n")
        s += "\n      " + "\n      ".join(t.strip()[:160] for t in tb[-8:-1])
    print(f"[{len(v)}x]", s[:1400])
PY
