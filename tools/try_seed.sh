#!/bin/bash
# try_seed.sh SEEDDIR [check command...]: confirm a planted change and run a check on it.
S=$(realpath "$1"); shift
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
bash /opt/vp/build.sh > /tmp/ts_build0.log 2>&1
bash "$S/demo.sh" > /tmp/ts_demo0.log 2>&1; echo "demo on unchanged tree: $?"
git apply "$S/patch.diff" || exit 8
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/ts_build.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/ts_out.json > /tmp/ts_test.log 2>&1; tail -1 /tmp/ts_test.log
python3 - <<'P'
import json
o=json.load(open('/tmp/ts_out.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('stable tests failing:', sorted(b-set(o['passed']))[:5])
P
timeout 300 bash "$S/demo.sh" > /tmp/ts_demo.log 2>&1; echo "demo with patch: $?"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for c in ${@:-$P}; do
  cmd=$(python3 -c "
import json
for k in json.load(open('/verif/MANIFEST.json'))['checks']:
    if k['property']=='$c': print(k['quick_cmd'])")
  VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" > /tmp/ts_check.log 2>&1; echo "check $c: $? $(grep -c '^VIOLATION' /tmp/ts_check.log) violation line(s)"
done
