#!/bin/bash
# trycheck.sh ID : clean demo, then patched: build, demo, check (in /repo itself; undone afterwards)
ID=$1; O=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$O/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
[ "$2" = nodemo ] || { bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash $O/demo.sh >/tmp/d0.log 2>&1; echo "clean demo rc=$?"; }
git apply $O/patch.diff || exit 1
[ "$2" = nodemo ] || { bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED; bash $O/demo.sh >/tmp/d1.log 2>&1; echo "patched demo rc=$?"; }
cd /verif; ./check $P | tail -4 | cut -c1-250; cd /repo; git checkout -q -- .
