#!/bin/bash
# Builds the model checker (mc) and podo from /repo's working tree with the hook; prints the binary's path.
# Build output goes to /verif/target only.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
R=${PODO_REPO:-/repo}
. /opt/vp/env.sh
export CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_INCREMENTAL=false CARGO_INCREMENTAL=0
mkdir -p "$V/target/mc" "$V/out"
exec 9>"$V/target/lock"
flock 9
H=$(cat "$V"/mc/src/*.rs "$V"/mc/src/*/*.rs 2>/dev/null | sha256sum | cut -c1-12)
LIB="$V/target/mc/libmc-$H.rlib"
if [ ! -f "$LIB" ]; then
  rm -f "$V"/target/mc/libmc-*.rlib
  rustc --edition 2021 --crate-type rlib --crate-name mc -C opt-level=2 -C metadata="$H" -C extra-filename="-$H" \
    -A warnings --out-dir "$V/target/mc" "$V/mc/src/lib.rs" >&2 || exit 4
fi
gcc -O2 -w -shared -fPIC -o "$V/target/shim.so.$$" "$V/mc/shim.c" -ldl >&2 || exit 4
mv "$V/target/shim.so.$$" "$V/target/shim.so"
A=$(sha256sum "$V/harness/adapter.rs" | cut -c1-12)
S=$(cd "$R" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-12)
build() { # extra cfgs
  PODO_VERIF_HARNESS="$V/harness" cargo rustc --manifest-path "$R/Cargo.toml" --release --bin podo --locked --offline \
    --target-dir "$V/target/podo" -- --cfg podo_verif --cfg "podo_verif_rev=\"$S-$A\"" "$@" --extern mc="$LIB" -A warnings
}
LOG="$V/out/build.log"
if ! build --cfg podo_verif_order >"$LOG" 2>&1; then
  # the maps' type may have changed: without control over their order
  if ! build >"$LOG.2" 2>&1; then
    cat "$LOG.2" >&2
    exit 4
  fi
fi
cp "$V/target/podo/release/podo" "$V/target/podo-$S-$A-$H.tmp.$$" && mv "$V/target/podo-$S-$A-$H.tmp.$$" "$V/target/podo-checked-$S-$A-$H"
find "$V/target" -maxdepth 1 -name 'podo-checked-*' ! -name "podo-checked-$S-$A-$H" -mmin +120 -delete
echo "$V/target/podo-checked-$S-$A-$H"
