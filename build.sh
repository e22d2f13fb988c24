#!/bin/bash
# Build the explorer against /repo's current working tree (offline). Serialized: checks may run side by side.
set -u
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$root/mc/target
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock-build"
flock 9
# cargo decides freshness by modification time; decide by content as well
sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
stamp=$CARGO_TARGET_DIR/.repo-sum
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  cargo clean --release --offline -p bsplines >/dev/null 2>&1
fi
log=$CARGO_TARGET_DIR/.build-log
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -40 "$log" >&2
  rm -f "$stamp"
  exit 1
fi
echo "$sum" >"$stamp"
