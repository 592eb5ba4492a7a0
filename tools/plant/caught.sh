#!/bin/bash
# for each seeded bug (or those named): does the check of its property report it?  (works on scratch copies)
SRC=${MV:-/verif}; W=${W:-/tmp/caught}; R=$W/repo; V=$W/verif
mkdir -p $W $V
[ -d $R ] || cp -a /repo $R
git -C $R checkout -q -- . && git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
rsync -a --delete --exclude work --exclude .git --exclude evidence --exclude seeded $SRC/ $V/
sed -i "s#/repo#$R#g" $V/harness/Cargo.toml $V/harness-fmt/Cargo.toml $V/harness-ral/Cargo.toml $V/features.py $V/export*.sh
for d in ${@:-$(ls ${SD:-/verif/seeded})}; do
  S=${SD:-/verif/seeded}/$d
  P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  git -C $R apply $S/patch.diff || { echo "$d: does not apply"; continue; }
  VERIF_TIER=quick $V/check.sh $P > $W/out 2>&1; rc=$?
  git -C $R checkout -q -- .
  echo "$d $P rc=$rc $(grep -m1 VIOLATION $W/out) | $(grep -m1 -A3 VIOLATION $W/out | sed -n 2,3p | tr '\n' ' ' | cut -c1-200)"
done
