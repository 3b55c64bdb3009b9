#!/bin/bash
# Usage: try.sh PATCH ID... : applies a patch to a scratch copy of /repo and runs checks there.
# VERIF_CASES scales the number of generated cases.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
patch=$(realpath "$1"); shift
w=$(mktemp -d /tmp/try.XXXXXX)
mkdir -p "$w/repo" "$w/verif/out" "${TRY_TARGET:=/tmp/try-target}"
git -C /repo archive HEAD | tar -x -C "$w/repo"
(cd "$w/repo" && git init -q . && git apply ${TRY_REVERSE:+-R} "$patch") || { echo "patch does not apply"; exit 2; }
cp -r "$here/harness" "$w/verif/harness"; cp -r "$here/regressions" "$w/verif/" 2>/dev/null
[ -n "${TRY_NO_REGRESSIONS:-}" ] && rm -rf "$w/verif/regressions"
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" "$w/verif/harness/Cargo.toml"
(cd "$w/verif/harness" && CARGO_TARGET_DIR=$TRY_TARGET cargo build --offline --release >"$w/log" 2>&1) || { tail -20 "$w/log"; exit 2; }
cp "$TRY_TARGET/release/harness" "$w/h"
(cd "$w/verif/harness" && CARGO_TARGET_DIR=$TRY_TARGET cargo build --offline --profile plain >"$w/log" 2>&1) || { tail -20 "$w/log"; exit 2; }
cp "$TRY_TARGET/plain/harness" "$w/p"
ids=("$@"); [ ${#ids[@]} = 0 ] && mapfile -t ids < <("$w/h" list)
for id in "${ids[@]}"; do
  out= rc=0
  if [ $id = C24 ]; then out=$(VERIF_PLAIN=1 VERIF_DIR=$w/verif "$w/p" check "$id" 2>&1); rc=$?; fi
  if [ $rc = 0 ]; then out=$(VERIF_DIR=$w/verif "$w/h" check "$id" 2>&1); rc=$?; fi
  if [ $rc = 1 ]; then echo "$id CAUGHT: $(grep "^$id: " <<<"$out" | grep -v " cases, " | head -1 | cut -c1-200)"; [ -n "${TRY_SHOW:-}" ] && cat $(grep -o 'replay=.*' <<<"$out" | cut -d= -f2)
  elif [ $rc = 0 ]; then echo "$id quiet"; else echo "$id ERROR $rc: $out"; fi
  [ -n "${TRY_KEEP:-}" ] && [ $rc = 1 ] && cp $(grep -o 'replay=.*' <<<"$out" | cut -d= -f2) "$TRY_KEEP/"
done
rm -rf "$w"
