#!/bin/bash
# Builds the harness against /repo (the checks rebuild it when /repo changes).
cd "$(dirname "$0")/harness" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(dirname "$PWD")/target"
cargo build --offline --quiet
