#!/bin/bash
# seed.sh ID...: validates seeded bugs (demo passes without, fails with; tests pass with) and runs the property's check on each. Changes /repo for the time it runs.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    bash $d/demo.sh >/tmp/seed.log 2>&1 || { echo "$id: demo fails unpatched"; tail -5 /tmp/seed.log; continue; }
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    timeout 300 bash $d/demo.sh >/tmp/seed.log 2>&1 && echo "$id: demo passes patched"
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "$id: does not build"
    echo "$id: tests: $(bash /opt/vp/test.sh /tmp/seed.json 2>/dev/null | tail -1)"
    for c in $p $CHECKS; do
        python3 /verif/check.py $c >/tmp/seed.chk 2>&1
        echo "$id: check $c exit $? $(grep -c ^VIOLATION /tmp/seed.chk) $(grep '^violation' /tmp/seed.chk | head -1) $(tail -1 /tmp/seed.chk)"
    done
    git checkout -q -- .
done
