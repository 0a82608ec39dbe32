#!/bin/bash
# try.sh <id> [demo|test|check ...]: runs the steps for one planted bug in private copies of /repo and /verif (mount namespace).
id=$1; shift; steps=${*:-demo test check}
w=/tmp/try-$id; rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo"; cp -a /verif/seeded/$id "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cp /verif/seeded/$id/patch.diff "$w/p"
mkdir "$w/verif"; cp -a /verif/check.py /verif/simbuild.py /verif/sim /verif/ref /verif/known_findings.txt "$w/verif/"; [ -d /verif/special ] && cp -a /verif/special "$w/verif/"; cp -al /verif/.build "$w/verif/.build" 2>/dev/null
unshare -m bash -c "
mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /repo
run() { t0=\$SECONDS; \"\$@\" >$w/log.\$1 2>&1; rc=\$?; }
if [[ '$steps' == *demo* ]]; then bash $w/demo/demo.sh >$w/d0 2>&1; echo $id demo-clean rc=\$? \$(tail -1 $w/d0); fi
git apply $w/p || { echo $id PATCH-FAILS; exit; }
if [[ '$steps' == *demo* ]]; then bash $w/demo/demo.sh >$w/d1 2>&1; echo $id demo-bug rc=\$? \$(tail -1 $w/d1); fi
if [[ '$steps' == *test* ]]; then bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1; python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('$w/t.json'))['passed'])
print('$id tests', 'ok' if b<=t else 'BROKEN '+str(sorted(b-t)[:5]))
P
fi
if [[ '$steps' == *check* ]]; then cd /verif; t0=\$SECONDS; VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick python3 check.py $prop >$w/c.log 2>&1; echo $id check-$prop rc=\$? \$((SECONDS-t0))s \$(grep -h -m1 '^# $prop:' $w/c.log) \$(grep -c '^VIOLATION property=$prop' $w/c.log); fi
"
[ -n "$KEEP" ] || rm -rf "$w"
