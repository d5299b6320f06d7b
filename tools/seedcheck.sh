#!/bin/bash
# seedcheck.sh ID...: validates planted bugs in a scratch copy of /repo
# (applies, imports, stable tests pass, demo passes without / fails with it)
# and says whether the quick check of its property catches it.
# NOTEST=1 skips the tests, NOCHECK=1 skips the check.
. /opt/vp/env.sh 2>/dev/null
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
for id in "$@"; do
  s=/verif/seeded/$id; D=$(mktemp -d /tmp/seedXXXX); P=$(mktemp -d /tmp/demoXXXX)
  cp -a /repo/. $D/; cp $s/demo* $s/lib.py $P/ 2>/dev/null
  r="$id:"
  (cd $D && PYTHONPATH=$D timeout 300 bash $P/demo.sh >$P/clean.out 2>&1) && r="$r demo-clean-ok" || r="$r DEMO-CLEAN-BAD"
  (cd $D && git apply $s/patch.diff) || r="$r NOAPPLY"
  (cd $D && PYTHONPATH=$D timeout 300 bash $P/demo.sh >$P/bad.out 2>&1) && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-fails($(grep -m1 'DEMO FAILED' $P/bad.out || tail -1 $P/bad.out))"
  if [ -z "$NOTEST" ]; then
    n=$(cd $D && PYTHONPATH=$D /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -W ignore test 2>&1 | tail -1)
    r="$r [$n]"
  fi
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    o=$(cd /verif && DST_REPO=$D bash run.sh check $p quick 2>&1); c=$?
    r="$r check=$c $(echo "$o" | grep -m1 '^run ' | cut -c1-150)"
  fi
  echo "$r"
  rm -rf $D $P
done
