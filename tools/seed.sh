#!/bin/bash
# dev tool: seed.sh ID [quick checks...]  validates seeded/ID in a scratch copy of /repo, then runs its check against that copy
id=$1; shift
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$id
cp $root/tools/demo/demo.sh $root/tools/demo/wadlib.py $d/
W=$(mktemp -d /tmp/seedXXXX); trap 'rm -rf "$W"' EXIT
cp -a ${SEED_REPO:-/repo} $W/repo; cd $W/repo; git checkout -q -- .
export DEMO_GOCACHE=/tmp/gc
echo "== $id"
git apply --check $d/patch.diff || exit 1
bash $d/demo.sh >$W/o 2>&1; r=$?; [ $r = 0 ] || { echo "demo fails on clean tree: $r"; tail -5 $W/o; exit 1; }
git apply $d/patch.diff
bash $d/demo.sh >$W/o 2>&1; r=$?; echo "demo with patch: $r $(tail -1 $W/o | cut -c1-200)"; [ $r != 0 ] || exit 1
. /opt/vp/env.sh; export GOCACHE=/tmp/gc
go vet . >/dev/null 2>&1; go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -2
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $root
for c in ${@:-$P}; do VERIF_REPO=$W/repo VMC_GOCACHE=/tmp/gc ./run.sh $c > $W/seed.out 2>&1; echo "check $c exit $? : $(grep -m1 VIOLATION -A2 $W/seed.out | tail -1 | cut -c1-250)"; tail -1 $W/seed.out | cut -c1-200; done
find $root/replay -mindepth 1 -delete 2>/dev/null
exit 0
