#!/bin/bash
# check.sh <property> [quick|thorough] [--only <case key>]: rebuild against /repo's working tree and run one check.
set -u
root=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
case "${1:-}" in
  quick|thorough) export MC_TIER=$1; shift ;;
  *) export MC_TIER=${MC_TIER:-${VERIF_TIER:-quick}} ;;
esac
export MC_ROOT=$root CARGO_NET_OFFLINE=true
"$root/build.sh" || { echo "build failed" >&2; exit 2; }
exec "$root/mc/target/release/mc" "$id" "$@"
