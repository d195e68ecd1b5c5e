#!/bin/bash
set -e
c=$1; shift
export RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 PYO3_PYTHON=/usr/bin/python3 CARGO_TARGET_DIR=/verif/.build/$c
export RUSTFLAGS="--emit=llvm-ir,link -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp --cfg phlite_verif --cfg phlite_verif=\"filtration\""
cd /verif/harness/$c
rm -f $CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/deps/h$c*.ll
touch src/lib.rs
exec cargo build --lib -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --offline --features "$1"
