#!/bin/bash
# Builds everything the checks run.  Offline; writes only below /verif and in
# /repo/target, which git ignores.
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
. "$(dirname "${BASH_SOURCE[0]}")/warm.sh"
. "$(dirname "${BASH_SOURCE[0]}")/client.sh"
cd "$VERIF/harness"
fresh "$VERIF/harness/target" release solana-slashing-program slashprops
cargo build --offline --release --target-dir "$VERIF/harness/target" 2>&1 | tail -3
test "${PIPESTATUS[0]}" = 0
built
mkdir -p "$VERIF/evidence"
"$VERIF/bin/tool.sh"
log=$(mktemp)
client "$log" || { tail -n 40 "$log"; exit 2; }
rm -f "$log"
