#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Builds the harness with the gamma crate of /repo's working tree and decides one property.
# Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
id=${1:?property id}
export VERIF_DIR=$here
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
# recursion that optimization turns into a loop shows in a build without it
plain=; [ "$id" = C24 ] && plain=1
. "$here/build.sh" || { echo "$id: ERROR: the harness does not build against /repo" >&2; exit 2; }
if [ "$VERIF_TIER" = thorough ]; then . "$here/build_fuzz.sh"; fi
if [ -n "$plain" ]; then
  env -u VERIF_FUZZ_BIN VERIF_PLAIN=1 "$here/target/plain/harness" check "$id"
  rc=$?
  [ $rc = 0 ] || exit $rc
fi
exec "$here/target/release/harness" check "$id"
