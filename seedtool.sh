#!/bin/bash
# seedtool.sh check ID   : (in a scratch copy) demo passes without / fails with the patch, stable tests still pass with it
# seedtool.sh run ID     : apply to /repo, run the property's check, undo
set -u
S=/verif/seeded/$2
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$1" = run ]; then
  git -C /repo apply $S/patch.diff || exit 3
  timeout 900 /opt/venv/bin/python /verif/check.py $P > /tmp/run_$2.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$2 $P rc=$rc $(grep -m1 VIOLATION /tmp/run_$2.log)"
  grep -m1 "obligation .* fails" /tmp/run_$2.log | cut -c1-300
  exit 0
fi
W=/tmp/w/$2; rm -rf "/tmp/w/$2"; cp -a /repo $W; cd $W
python3 - <<P
import subprocess
P
bash $S/demo.sh > /tmp/demo0_$2.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$2 patch does not apply"; exit 3; }
bash $S/demo.sh > /tmp/demo1_$2.log 2>&1; b=$?
echo "$2 demo clean=$a patched=$b"
if [ "${3:-}" = tests ]; then
  T=$(python3 -c "import json;print(json.load(open('$S/meta.json')).get('tests',''))")
  /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider -n 4 ${T:-hera_cal/tests} > /tmp/tests_$2.log 2>&1
  tail -3 /tmp/tests_$2.log
fi
rm -rf "/tmp/w/$2"
