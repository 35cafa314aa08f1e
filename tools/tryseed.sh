#!/bin/bash
# tryseed.sh ID [--nocheck]: confirm a planted bug (patch applies, builds, tests pass, demo 0 -> nonzero) and run its check against it.
# Works on /repo itself and restores it.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
t=$(mktemp -d); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
bash $t/demo.sh >$t/out0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/test.sh $t/r.json >/dev/null 2>&1
pass=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('$t/r.json'));print('ok' if b<=set(r['passed']) else 'FAIL '+str(sorted(b-set(r['passed']))))")
bash $t/demo.sh >$t/out1 2>&1; r1=$?
echo "$id [$prop]: demo $r0 -> $r1, tests $pass; $(tail -1 $t/out1)"
if [ "$2" != --nocheck ]; then (cd /verif; VERIF_SEED=1 ./check.sh $prop 2>&1 | cut -c1-300 | head -${LINES_MAX:-6} | sed 's/^/    /'); fi
git checkout -q -- . ; /bin/rm -rf "$t"; bash /opt/vp/build.sh >/dev/null 2>&1
[ $r0 = 0 ] && [ $r1 != 0 ] && [ "$pass" = ok ]
