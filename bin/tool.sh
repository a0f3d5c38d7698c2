#!/bin/bash
# Builds harness/ledgertool against solana-ledger as locked by the repository,
# reusing the dependencies that the repository's own build left in /repo/target
# (which git ignores), and keeps the program in harness/target.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
. "$(dirname "${BASH_SOURCE[0]}")/warm.sh"
out=$VERIF/harness/target/ledgertool
mkdir -p "$VERIF/harness/target"
gcc -O1 -shared -fPIC -o "$VERIF/harness/target/nofile.so" "$VERIF/harness/ledgertool/nofile.c" || exit 2
[ -x "$out" ] && [ "$out" -nt "$VERIF/harness/ledgertool/ledgertool.rs" ] && exit 0
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/clients"
cp -r "$REPO/Cargo.toml" "$REPO/Cargo.lock" "$REPO/program" "$scratch/" && cp -r "$REPO/clients/cli" "$scratch/clients/" || exit 2
mkdir "$scratch/clients/cli/examples"
cp "$VERIF/harness/ledgertool/ledgertool.rs" "$scratch/clients/cli/examples/"
cd "$scratch" || exit 2
warm cargo build --workspace --features solana-slashing-program/test-sbf --offline --bin spl-slashing --example ledgertool >"$scratch/log" 2>&1 || { tail -n 40 "$scratch/log"; exit 2; }
strip -o "$out" "$REPO/target/debug/examples/ledgertool" || exit 2
# the scratch copy's client must not pass for the repository's
rm -f "$REPO"/target/.verif-sources
