#!/bin/bash
# seedtest.sh [-n] <id...>: validates planted bugs in a scratch copy: demo passes without the patch and fails with it, stable tests pass
# with it (-n: no tests), and the check of its property reports it.
NT=0; [ "$1" = -n ] && { NT=1; shift; }
for id in "$@"; do
  S=/verif/seeded/$id; D=$(mktemp -d /tmp/seed_XXXX); cp -a /repo "$D/repo"; cp -a "$S" "$D/demo"; rm -f "$D"/demo/*.diff "$D/demo/meta.json"
  export PYTHONPATH="$D/repo" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
  rundemo() { (cd "$D/repo" && HOME=$D timeout 300 bash "$D/demo/demo.sh" > "$D/demo.log" 2>&1; echo $?); }
  a=$(rundemo)
  (cd "$D/repo" && git apply "$S/patch.diff") || { echo "$id PATCH FAILS"; continue; }
  b=$(rundemo); tail -2 "$D/demo.log" | cut -c1-200
  t=skipped
  if [ $NT = 0 ]; then
    sed "s#cd /repo#cd $D/repo#; s#PYTHONPATH=/opt/vp/plugin#PYTHONPATH=$D/repo:/opt/vp/plugin#" /opt/vp/test.sh > "$D/test.sh"
    bash "$D/test.sh" "$D/out.json" > "$D/test.log" 2>&1; t=$(tail -1 "$D/test.log")
  fi
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  VERIF_REPO="$D/repo" timeout 890 /opt/venv/bin/python /verif/check.py "$P" quick > "$D/log" 2>&1; rc=$?
  echo "$id $P demo clean=$a patched=$b tests=[$t] check rc=$rc $(grep -o 'clause .* violated' "$D/log" | sort | uniq -c | tr '\n' ';')"
  [ $NT = 0 ] && grep -E "^(FAILED|ERROR)" "$D/test.log" | head -5
  rm -rf "$D"
done
