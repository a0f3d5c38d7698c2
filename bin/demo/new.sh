#!/bin/bash
# new.sh <id> <property> <needs> <what it breaks>   patch: git diff of /repo (then undone); demo.rs: stdin
# Keeps the change that is now in /repo's working tree as a planted bug.
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -q -- .
test -s "$d/patch.diff"
cp /verif/bin/demo/program.sh "$d/demo.sh"
cp /verif/bin/demo/kit.rs "$d/kit.rs"
cat > "$d/demo.rs"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
