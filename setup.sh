#!/bin/bash
# Checks that the simulator builds here and that its executions repeat: the same seeds, run in two processes with
# different environments, give the same event-log hashes.
cd "$(dirname "$0")" || exit 2
OUT=$(mktemp -d "${TMPDIR:-/tmp}/lbsim.XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
bash sim/build.sh "$OUT" || exit 2
for p in C01 C06 C11 C21 C23; do
  "$OUT/lbsim" hashes $p 7000021 12 > "$OUT/a" || exit 2
  env -i PATH="$PATH" PADDING="$(head -c 3000 /dev/zero | tr '\0' x)" "$OUT/lbsim" hashes $p 7000021 12 > "$OUT/b" || exit 2
  cmp "$OUT/a" "$OUT/b" || { echo "executions of $p do not repeat" >&2; exit 2; }
done
echo "simulator built; executions repeat"
