#!/bin/bash
# usage: check.sh <property> [quick|thorough]   -- analyses /repo's current source
set -u
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-${VERIF_TIER:-quick}}
BIN=$V/analyzer/target/release/vg
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUSTC_BOOTSTRAP
S=$(mktemp -d /tmp/vg.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
(cd "$V/analyzer" && cargo +stable build --release --offline -q) || { echo "analyzer does not build"; exit 2; }
"$BIN" "$P" "$T" --scratch "$S" --repo /repo --verif "$V" "${@:3}"
