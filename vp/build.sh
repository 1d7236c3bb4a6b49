#!/bin/bash
# build.sh [small|prod]: builds the harness from /repo's working tree: LLVM IR for the engine, a native replayer.
# small: the receive buffer grows by 4 bytes at a time (feature verif); prod: as released.
set -e
cd "$(dirname "$0")/h"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
T=${VP_TARGET:-/verif/target}
case ${1:-small} in
small) S= F= ;;
prod) S=-prod F=--no-default-features ;;
esac
BIN=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cargo build -q --offline $F --bin replay --target-dir $T/native$S &
N=$!
rm -f $T/symx$S/release/deps/vph*.bc
touch src/lib.rs
RUSTFLAGS="--cfg vp_symx" cargo rustc -q --offline $F --release --lib --crate-type cdylib --target-dir $T/symx$S -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp
BC=$(ls -S $T/symx$S/release/deps/vph*.rcgu.bc | grep -v no-opt | head -1)
LIST=$($BIN/llvm-nm --defined-only $BC | awk '$2=="T" && $3 ~ /^vp_/ {print $3}' | paste -sd,)
$BIN/opt -passes='internalize,globaldce' -internalize-public-api-list=$LIST -strip-debug -S $BC -o $T/vph$S.ll
wait $N
