#!/bin/bash
# build_native.sh FEATURES: the native build in which counterexamples and traces are replayed
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$here/work/native RUSTFLAGS="-A warnings"
cd "$here/harness"
exec cargo build --offline --profile replay --bin replay --features "native,$1"
