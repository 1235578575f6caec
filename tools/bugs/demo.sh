#!/bin/bash
# Runs a fixed history of messages against the contracts in the current directory's repository
# and asserts what must hold after it: exit 0 if it does.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
VH="$DEMO_VH"
TMP="$(mktemp -d)"
trap 'rm -rf "$TMP"' EXIT
if [ -z "$VH" ]; then
  # the chain simulator beside this script, built against the repository
  cp -r "$HERE/kit" "$TMP/kit"
  sed -i "s#path = \"/repo/#path = \"$REPO/#" "$TMP/kit/Cargo.toml"
  export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$TMP/target" CARGO_INCREMENTAL=0
  export CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=0
  (cd "$TMP/kit" && cargo build --offline --quiet) || { echo "cannot build"; exit 3; }
  VH="$TMP/target/debug/vh"
fi
python3 "$HERE/demo.py" "$VH" "$HERE/demo.json" "$TMP"
