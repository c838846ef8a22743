#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": keeps the changes of /tmp/w/repo as a planted bug when they
# build, pass the tests and the demonstration in /verif/seeded/ID tells the two trees apart.
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/w/repo
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
cd $w || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "$id: empty patch"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test ./core/do/to2 ./core/shared 2>&1 | grep -v "^ok" | grep -E "^(---|FAIL|panic)" && { echo "$id: tests fail"; }
bash $d/demo.sh >/tmp/w/demo.out 2>&1 && { echo "$id: demo passes with the bug"; cat /tmp/w/demo.out | tail -5; git checkout -q -- .; exit 1; }
git checkout -q -- .
bash $d/demo.sh >/tmp/w/demo0.out 2>&1 || { echo "$id: demo fails without the bug"; tail -15 /tmp/w/demo0.out; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
echo "$id: kept; with the bug: $(grep -E 'FAIL|panic|---' /tmp/w/demo.out | head -2 | tr '\n' ' ')"
