#!/bin/bash
# build_ir.sh FEATURES: LLVM IR of the harnesses and everything they call, from /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_CFG_HTTPARSE_DISABLE_SIMD=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp" CARGO_TARGET_DIR=$here/work/ir
cd "$here/harness"
exec cargo rustc --offline --release --lib --crate-type cdylib --features "$1" -Zbuild-std=std,panic_abort -Zbuild-std-features= --target x86_64-unknown-linux-gnu -- --emit=llvm-ir -A warnings
