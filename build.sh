#!/bin/bash
# Builds the harness against /repo's working tree (offline; build output in /verif/target).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/target RUSTFLAGS="-Aunused_imports --cap-lints=warn"
export CARGO_PROFILE_DEV_DEBUG=
unset CARGO_PROFILE_DEV_DEBUG
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check-lock"
flock 9
# cargo decides by modification times; the content decides here
now=$(cd /repo && find Cargo.toml src wasm/Cargo.toml wasm/src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
now="$now $(cd "$here/harness" && find Cargo.toml Cargo.lock src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
stamp=$CARGO_TARGET_DIR/.sources
cd "$here/harness" || exit 2
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  rm -f "$stamp"
  cargo clean --offline -p cesride -p cesride-wasm -p harness >/dev/null 2>&1
fi
cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/build.log" || { grep -E '^error' -A 12 "$CARGO_TARGET_DIR/build.log" | head -60 >&2; exit 2; }
echo "$now" > "$stamp"
