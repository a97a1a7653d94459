#!/bin/bash
# seedtest.sh ID...: in a private copy bind-mounted over /repo (own mount namespace): clean demo, then patched build, stable tests, demo and the check; one line per seed
if [ -z "$IN_NS" ]; then
  rm -rf /tmp/sr.$$; cp -a /repo /tmp/sr.$$; rm -rf /tmp/sv.$$; mkdir /tmp/sv.$$
  IN_NS=1 SR=/tmp/sr.$$ SV=/tmp/sv.$$ unshare -Urm bash "$0" "$@"; rm -rf /tmp/sr.$$ /tmp/sv.$$; exit
fi
mount --bind $SR /repo; mkdir -p $SV/v; cp -a /verif/. $SV/v/; cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$SV/b.log 2>&1
for ID in "$@"; do
  O=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$O/meta.json'))['property'])")
  touch -d '2 seconds ago' $SV/x; bash /opt/vp/build.sh >$SV/b.log 2>&1; bash $O/demo.sh >$SV/d0.log 2>&1; D0=$?
  git apply $O/patch.diff || { echo "$ID patch does not apply"; continue; }
  B=ok; bash /opt/vp/build.sh >$SV/b.log 2>&1 || B=FAILED; T=-
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $SV/t.json >/dev/null 2>&1; T=$(python3 -c "
import json;a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);b=set(json.load(open('$SV/t.json'))['passed']);print('pass' if a<=b else 'FAIL %s'%sorted(a-b)[:3])"); fi
  bash $O/demo.sh >$SV/d1.log 2>&1; D1=$?
  (cd $SV/v; ./check $P > $SV/c.log 2>&1; echo "$ID $P demo clean=$D0 patched=$D1 build=$B tests=$T check rc=$? $(grep -c '^failed obl' $SV/c.log) failed: $(grep VIOLATION $SV/c.log | grep -o 'no-failing-input-found')")
  git checkout -q -- .; git clean -qfd -e _build src 2>/dev/null
done
