#!/bin/bash
# newcli.sh <id> <property> <needs> <what it breaks>   patch: git diff of /repo (then undone); demo.py: stdin
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -q -- .
test -s "$d/patch.diff"
cp /verif/bin/demo/client/* "$d/"
cat > "$d/demo.py"
grep -q '\.ledger(' "$d/demo.py" || rm "$d/mkledger.rs" "$d/nofile.c"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
