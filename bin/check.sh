#!/bin/bash
# check.sh <property> [quick|thorough]
# Rebuilds against /repo's working tree and decides one property.
# Exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
. "$(dirname "${BASH_SOURCE[0]}")/warm.sh"
. "$(dirname "${BASH_SOURCE[0]}")/client.sh"
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
cd "$VERIF/harness" || exit 2
TMP=$(mktemp -d) || exit 2
export TMPDIR=$TMP
trap 'rm -rf "$TMP"' EXIT
log=$TMP/log
fail() { tail -n 40 "$log"; echo "$1"; exit 2; }

build() { # build <profile>
    fresh "$VERIF/harness/target" "$1" solana-slashing-program slashprops
    cargo build --offline --profile "$1" --target-dir "$VERIF/harness/target" >"$log" 2>&1 ||
        fail "the tree does not build"
    built
}

case $id in
P02 | P03 | P06 | P2[0-4]) "$VERIF/bin/tool.sh" >"$log" 2>&1 || fail "the ledger tool does not build" ;;
esac
case $id in
P2[0-4]) client "$log" || fail "the client does not build" ;;
esac
mkdir -p "$VERIF/evidence"
# the thorough tier also explores the program as it is deployed: without
# overflow checks and debug assertions
case $VERIF_TIER-$id in
thorough-P[01]*)
    build deployed
    "$VERIF/harness/target/deployed/slashprops" run "$id" || exit
    # and searches with the program's coverage as a guide
    fresh "$VERIF/harness/target/guided" release solana-slashing-program slashprops
    RUSTC_WRAPPER=$VERIF/bin/guided-rustc.sh cargo build --offline --release \
        --target-dir "$VERIF/harness/target/guided" >"$log" 2>&1 || fail "the tree does not build"
    built
    "$VERIF/harness/target/guided/release/slashprops" guided "$id" 150000 || exit
    ;;
esac
build release
"$VERIF/harness/target/release/slashprops" run "$id"
