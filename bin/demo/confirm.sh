#!/bin/bash
# confirm.sh <id>...: demo passes on the tree, fails with the patch; the build and stable tests pass with it.
for id in "$@"; do
    d=/verif/seeded/$id
    (cd /repo && bash "$d/demo.sh" >/tmp/confirm.clean 2>&1); clean=$?
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/confirm.build 2>&1; build=$?
    bash /opt/vp/test.sh /tmp/confirm.json >/tmp/confirm.test 2>&1; tests=$?
    (cd /repo && bash "$d/demo.sh" >/tmp/confirm.bug 2>&1); bug=$?
    git -C /repo checkout -q -- .
    echo "$id: clean=$clean build=$build tests=$tests bug=$bug" $( [ $clean$build$tests = 000 ] && [ $bug != 0 ] && echo OK || echo REJECT)
    grep -hE "^error|FAILED|panicked" /tmp/confirm.build /tmp/confirm.test /tmp/confirm.bug | grep -v "^error: test failed" | sort -u | head -6
done
