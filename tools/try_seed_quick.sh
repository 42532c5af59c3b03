#!/bin/bash
# try_seed_quick.sh WORKTREE SEEDDIR [properties...]: demonstration and checks on a planted change in a scratch worktree (repository tests not run)
R=$(realpath "$1"); S=$(realpath "$2"); shift 2
cd "$R"; [ -z "$(git status --porcelain)" ] || { echo "not clean"; exit 9; }
bash "$S/demo.sh" > /tmp/tq0.log 2>&1; echo "demo unchanged: $?"
git apply "$S/patch.diff" || exit 8
trap 'git -C $R checkout -q -- .' EXIT
timeout 300 bash "$S/demo.sh" > /tmp/tq1.log 2>&1; echo "demo with patch: $?"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for c in ${@:-$P}; do
  cmd=$(python3 -c "
import json
for k in json.load(open('/verif/MANIFEST.json'))['checks']:
    if k['property']=='$c': print(k['quick_cmd'])")
  VF_REPO=$R VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" > /tmp/tq2.log 2>&1; echo "check $c: $? $(grep -c '^VIOLATION' /tmp/tq2.log) violation line(s)"
done
rm -rf /verif/evidence/replays
