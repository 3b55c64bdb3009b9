# Sourced by check.sh and setup.sh: builds target/release/harness from /repo's current tree, and
# target/plain/harness as well when $plain is set.
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/target" "$here/out"
(
  cd "$here/harness" || exit 1
  # two checks may start at once; cargo decides by modification times, which a copied or patched
  # tree may not carry faithfully, so the crate under test is always compiled anew
  exec 9>"$here/target/.lock"
  flock 9
  cargo clean --offline --release -p gamma >/dev/null 2>&1
  cargo build --offline --release --locked >"$here/out/build.log" 2>&1 9>&- ||
    { tail -40 "$here/out/build.log" >&2; exit 1; }
  [ -z "${plain:-}" ] && exit 0
  cargo clean --offline --profile plain -p gamma >/dev/null 2>&1
  cargo build --offline --profile plain --locked >"$here/out/build.log" 2>&1 9>&- ||
    { tail -40 "$here/out/build.log" >&2; exit 1; }
)
