#!/bin/bash
# Runs demo.rs against the program of /repo (working tree) inside a scratch
# copy of its sources, with solana-program-test.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.86.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/repo/target RUST_LOG=off
unset BPF_OUT_DIR SBF_OUT_DIR
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/clients"
cp -r /repo/Cargo.toml /repo/Cargo.lock /repo/program "$scratch/" && cp -r /repo/clients/cli "$scratch/clients/" || exit 2
rm -f "$scratch"/program/tests/*.rs
cat "$here/kit.rs" "$here/demo.rs" > "$scratch/program/tests/demo.rs"
cd "$scratch" || exit 2
cargo test --workspace --features solana-slashing-program/test-sbf --offline --bin spl-slashing --test demo -- --test-threads 1
