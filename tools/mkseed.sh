#!/bin/bash
# mkseed.sh ID PROP "needs" "what" : /tmp/seed/ID holds edit.py (edits $1/src/...) and demo.cpp; validates in a scratch copy, then stores /verif/seeded/ID
set -e
ID=$1; S=/tmp/seed/$ID; O=/verif/seeded/$ID; W=/tmp/seedrepo
if [ ! -d $W ]; then cp -a /repo $W; fi
cd $W; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
python3 $S/edit.py $W; git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cp /verif/tools/demo.sh $S/demo.sh; chmod +x $S/demo.sh
git -C $W checkout -q -- .
mkdir -p $O; cp $S/patch.diff $S/demo.sh $S/demo.cpp $O/; grep -q mini.h $S/demo.cpp && cp /tmp/seed/mini.h $O/
python3 - "$ID" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
echo "stored $ID"; cat $O/patch.diff | grep '^[+-]' 
