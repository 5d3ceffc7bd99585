#!/bin/bash
# tools/plant.sh ID [check]: in a scratch copy of /repo, apply seeded/ID/patch.diff, build, run the stable tests
# and the demonstration with and without the change. With "check" also runs the property's check on the copy's
# change (applied to /repo and undone).
ID=$1; D=/verif/seeded/$ID
S=$(mktemp -d /tmp/plant.XXXX); trap "rm -rf $S" EXIT
cp -a /repo $S/repo
. /opt/vp/env.sh
cd $S/repo || exit 2
git apply $D/patch.diff || { echo "PATCH FAILS"; exit 1; }
go build ./... || { echo "BUILD FAILS"; exit 1; }
SKIP=$(grep -o "^SKIP='.*'" /opt/vp/test.sh | sed "s/^SKIP='//; s/'\$//")
go test -json -vet=off -count=1 -timeout 10m -skip "$SKIP" ./... > $S/go.json 2>/dev/null
python3 - $S/go.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action') in('pass','fail','skip') and e.get('Test'):
        res[e['Package']+'/'+e['Test']]=e['Action']
        res[e['Package']+'::'+e['Test']]=e['Action']
lst=b['stable']

bad=[t for t in lst if res.get(t)!='pass']
print('stable tests:',len(lst),'not passing now:',len(bad),bad[:8])
PY
mkdir $S/demo; cp -r $D/. $S/demo/; rm -f $S/demo/*.diff $S/demo/*.patch $S/demo/meta.json
# the same against the scratch copy
git checkout -q -- . ; bash $S/demo/demo.sh >$S/o1 2>&1; echo "demo clean: $? (want 0)"
git apply $D/patch.diff; bash $S/demo/demo.sh >$S/o2 2>&1; echo "demo patched: $? (want !=0)"; tail -3 $S/o2
if [ "$2" = check ]; then P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); (unset GOFLAGS; env -i HOME=/root PATH=$PATH VF_REPO=$S/repo bash /verif/check.sh $P); echo "check exit $? (want 1)"; fi
