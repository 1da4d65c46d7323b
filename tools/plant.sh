#!/bin/bash
# usage: plant.sh ID   — confirms /verif/seeded/ID in a scratch copy, then runs its property's check against it in /repo
id=$1; s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
c=$(mktemp -d /tmp/plant.XXXX); cp -a /repo "$c/r"
. /opt/vp/env.sh
cd "$c/r" || exit 1
git checkout -q -- .
bash $s/demo.sh > $c/d0 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 $c/d0; rm -rf $c; exit 1; }
git apply $s/patch.diff || { echo "$id: NO APPLY"; rm -rf $c; exit 1; }
go build ./... || { echo "$id: NO BUILD"; rm -rf $c; exit 1; }
go test -json -vet=off -count=1 -timeout 10m -skip '^TestCheckRingSignature$' ./... > $c/log 2>/dev/null
python3 /opt/vp/results.py $c/out.json gojson:$c/log >/dev/null
python3 - $c/out.json <<'P' || { echo "$id: BREAKS TESTS"; rm -rf $c; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1]))
s=json.dumps(r)
def passed(t):
    for k in ('passed','pass'):
        if k in r and t in r[k]: return True
    return isinstance(r.get(t),str) and r[t].startswith('pass')
bad=[t for t in b if not passed(t)]
print('tests missing:',bad[:5]) if bad else None
sys.exit(1 if bad else 0)
P
bash $s/demo.sh > $c/d1 2>&1 && { echo "$id: DEMO PASSES WITH PATCH"; rm -rf $c; exit 1; }

echo "$id: confirmed"
cd $c/r && git checkout -q -- . && git apply $s/patch.diff || exit 1
(cd /verif && GV_REPO=$c/r timeout 900 ./check.sh ${2:-$prop} quick) 2>&1 | tail -${3:-4} | cut -c1-300
rm -rf "$c"
