#!/bin/bash
# tools/bugtest.sh ID... : confirm a planted bug in a scratch copy of /repo (demo passes without, fails with, tests pass)
# and say whether the check of its property catches it.  TESTS=0 skips the repository's tests, CHECK=0 the check.
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
for id in "$@"; do
  id=$(basename "$id"); D=seeded/$id; W=/tmp/bugtest.$$.$id
  P=$(/opt/venv/bin/python -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
  rm -rf "$W"; cp -a /repo "$W"; mkdir "$W.demo"; cp $D/* "$W.demo"
  ( cd "$W" && timeout 300 bash "$W.demo/demo.sh" ) >"$W.demo/out0" 2>&1; d0=$?
  git -C "$W" apply "$PWD/$D/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W" "$W.demo"; continue; }
  ( cd "$W" && timeout 300 bash "$W.demo/demo.sh" ) >"$W.demo/out1" 2>&1; d1=$?
  t=skipped
  if [ "${TESTS:-1}" = 1 ]; then
    t=$(cd "$W" && PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider meshmagick 2>&1 | tail -1)
  fi
  c=skipped
  if [ "${CHECK:-1}" = 1 ]; then
    c=$(VSIM_REPO=$W VERIF_SEED=${VERIF_SEED:-1} ./check $P --no-evidence 2>&1 | grep -E "^VIOLATION|clean|^Traceback|^KNOWN" | cut -c1-150 | head -2 | tr '\n' '|')
    [ -z "$c" ] && c="NOT CAUGHT"
  fi
  echo "$id ($P): demo $d0/$d1; tests: $t; check: $c"
  [ $d0 != 0 ] && tail -5 "$W.demo/out0"; [ $d1 = 0 ] && tail -5 "$W.demo/out1"
  rm -rf "$W" "$W.demo"
done
