#!/bin/bash
cd "$(dirname "$0")" || exit 3
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
for c in wasp-mc merge-mc core/core-mc core/lang-mc core/static-mc core/cli-mc; do
  (cd $c && cargo build --release --offline --locked) || exit 1
done
core/rust-to-wasm-compiler/sysroot/build.sh target/wasm-sysroot || exit 1
