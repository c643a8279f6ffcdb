#!/bin/bash
# Builds the model checker (with the library it checks) and the command line tool from /repo's current tree.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow"
(cd mc && cargo build --offline --release --quiet) || exit 1
case "$1" in lib) exit 0;; esac
cargo build --offline --quiet --manifest-path /repo/Cargo.toml --bin louis
