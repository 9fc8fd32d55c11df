#!/bin/bash
# bash replay.sh FILE: builds the simulator from /repo and executes one replay file again, printing what happens.
# Exit 1: the violation is there (and says whether it is exactly the recorded one); 0: no violation.
FILE=$(realpath "${1:?usage: replay.sh FILE}") || exit 2
cd "$(dirname "$0")" || exit 2
OUT=$(mktemp -d "${TMPDIR:-/tmp}/lbsim.XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
bash sim/build.sh "$OUT" > "$OUT/build.log" 2>&1 || { cat "$OUT/build.log" >&2; exit 2; }
"$OUT/lbsim" replay "$FILE" v
