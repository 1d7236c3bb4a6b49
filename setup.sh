#!/bin/bash
# Builds the engine and the harness once; every check does the same incrementally.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd symx && cargo build -q --release --offline)
bash vp/build.sh small
bash vp/build.sh prod
