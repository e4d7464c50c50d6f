#!/bin/bash
# trybug.sh ID [--notest]: applies seeded/ID to /repo, builds, runs tests, demo and the property's check, and undoes it.
id=$1; S=/verif/seeded/$id
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; trap - EXIT; exit 2; }
T=$(mktemp -d /tmp/demo.XXXX); cp -r $S/* $T; rm -f $T/*.diff $T/meta.json
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/b.log; exit 2; }
if [ "$2" != --notest ]; then
  bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
  python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/bug.json'))['passed']);print('$id: TESTS', 'ok' if not b else 'BROKEN %s'%b)"
fi
(cd /repo; timeout 300 bash $T/demo.sh >/tmp/demo.out 2>&1); echo "$id: demo with bug: rc=$? (want nonzero)"
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /verif; t0=$SECONDS; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p >/tmp/chk.out 2>&1; echo "$id: check $p rc=$? (want 1) in $((SECONDS-t0)) s"; grep -a -m1 -A2 "suite\|saved" /tmp/chk.out | cut -c1-300)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $T/demo.sh >/tmp/demo.out0 2>&1); rc=$?; echo "$id: demo without: rc=$rc (want 0)"; [ $rc = 0 ] || tail -5 /tmp/demo.out0
rm -rf $T
trap - EXIT
