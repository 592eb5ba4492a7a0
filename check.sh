#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current tree
cd "$(dirname "$0")"
ID=$1
T0=$(date +%s.%N)
mkdir -p work evidence
if [ ! -x engine/target/release/zcheck ] || [ ! -x engine/target/release/zdriver ]; then
  ./setup.sh >work/setup.log 2>&1 || { tail -20 work/setup.log; echo "cannot build the analyser"; exit 2; }
fi
if [ "$ID" = C32 ]; then exec python3 features.py; fi
case "$ID" in C21|C28|C34) FMT=1;; *) FMT=;; esac
case "$ID" in C36|C37|C38|C39|C40) RAL=1;; *) RAL=;; esac
if [ "$FMT" ]; then EXPORT=./export-fmt.sh; PROG=work/prog-fmt.bin
elif [ "$RAL" ]; then EXPORT=./export-ral.sh; PROG=work/prog-ral.bin
else EXPORT=./export.sh; PROG=work/prog.bin; fi
$EXPORT $PROG >work/export.log 2>&1 || { tail -20 work/export.log; echo "cannot export /repo"; exit 2; }
PROGS=(--prog "$PWD/$PROG")
if [ "$ID" = C34 ]; then
  # as an error: with the standard library
  ./export-ral.sh work/prog-ral.bin >work/export.log 2>&1 || { tail -20 work/export.log; echo "cannot export /repo"; exit 2; }
  PROGS+=(--prog "$PWD/work/prog-ral.bin")
elif [ "$FMT$RAL" ]; then :; elif [ "$ID" = C01 ] || [ "$VERIF_TIER" = thorough ]; then
  ./export.sh work/prog-rel.bin release >work/export.log 2>&1 || { tail -20 work/export.log; echo "cannot export /repo"; exit 2; }
  PROGS+=(--prog "$PWD/work/prog-rel.bin")
fi
PREP=$(echo "$(date +%s.%N) - $T0" | bc 2>/dev/null || echo 0)
exec engine/target/release/zcheck --property "$ID" "${PROGS[@]}" --known "$PWD/known-findings.txt" \
  --evidence "$PWD/evidence/$ID.json" --replay "$PWD/work/replay" --floor "${FLOOR:-1}" --prep "$PREP"
