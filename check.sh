#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]: decides one property by simulated runs of the interpreter built from /repo.
# Exit 0: held on everything explored; 1: VIOLATION line and replay file; anything else: the check could not run.
cd "$(dirname "$0")" || exit 2
ID=${1:?usage: check.sh PROPERTY [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
SECONDS_QUICK=${LBSIM_QUICK:-40}
SECONDS_THOROUGH=${LBSIM_THOROUGH:-600}
LIMIT=$SECONDS_QUICK
[ "$TIER" = thorough ] && LIMIT=$SECONDS_THOROUGH
OUT=$(mktemp -d "${TMPDIR:-/tmp}/lbsim.XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
bash sim/build.sh "$OUT" > "$OUT/build.log" 2>&1 || { cat "$OUT/build.log" >&2; echo "the simulator could not be built" >&2; exit 2; }
mkdir -p evidence replays
"$OUT/lbsim" check "$ID" tier="$TIER" seed="$SEED" time="$LIMIT" jobs="${LBSIM_JOBS:-8}" evidence="evidence/$ID.json" replays=replays known=known-findings.txt
