# Sourced by check.sh for the thorough tier, after build.sh: builds the libFuzzer target with
# coverage instrumentation. Sets VERIF_FUZZ_BIN when that works; the phase is left out otherwise.
(
  cd "$here/fuzz" || exit 1
  exec 9>"$here/target/.lock"
  flock 9
  export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1"
  host=$(rustc -vV | sed -n 's/^host: //p')
  cargo clean --offline --release --target "$host" -p gamma >/dev/null 2>&1
  cargo build --offline --release --locked --target "$host" >"$here/out/build-fuzz.log" 2>&1 9>&- || exit 1
  cp "$here/target/$host/release/fuzz" "$here/target/fuzz-target.$$" && mv "$here/target/fuzz-target.$$" "$here/target/fuzz-target" || exit 1
) && export VERIF_FUZZ_BIN=$here/target/fuzz-target || echo "the coverage-guided phase does not build and is left out (out/build-fuzz.log)" >&2
