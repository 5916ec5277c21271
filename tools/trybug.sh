#!/bin/bash
# trybug.sh BUG [PROP...]: run checks against a copy of /repo with a planted bug (development only)
b=$1; shift
w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo $w/repo
trap 'rm -rf "$w"' EXIT
git -C $w/repo apply /verif/seeded/$b/patch.diff || exit 9
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])"))
for p in "${props[@]}"; do
  out=$(OAMC_DEV_REPO=$w/repo /verif/check.sh $p quick 2>&1); rc=$?
  echo "== $b $p rc=$rc"; echo "$out" | head -${LINES_MAX:-4} | cut -c1-400
done
