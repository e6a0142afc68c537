#!/bin/bash
# seed.sh ID PROP REPLAYFILE FILE NEEDS BREAKS : edits are given on stdin as OLD\n====\nNEW; the demo is the replay test renamed
d=/tmp/seedwork/$1; mkdir -p $d
python3 -c '
import sys,json
a=sys.argv[1:]
t=sys.stdin.read()
edits=[]
for blk in t.split("\n####\n"):
    o,n=blk.split("\n====\n")
    edits.append([a[3],o.strip("\n"),n.strip("\n")])
pkg="/".join(a[3].split("/")[:-1])
json.dump({"id":a[0],"property":a[1],"needs":a[4],"what_it_breaks":a[5],"edits":edits,"pkg":pkg},open("/tmp/seedwork/%s/seed.json"%a[0],"w"))
' "$@"
sed "s/TestVerif$2_/TestSeedDemo_/; s/FAILING-INPUT: //" "$3" > $d/demo_test.go
h=$(ls "$(dirname "$3")"/helper_*_test.go 2>/dev/null | head -1)
if [ -n "$h" ] && grep -q "vPool\|newVBroker\|vEvent\|vWorker" "$3"; then cp "$h" $d/helper_test.go; fi
if grep -q "vgRun" "$3"; then cp "$(dirname "$3")/helper_group_test.go" $d/helper_test.go; fi
python3 $(dirname $0)/mkseed.py $d
