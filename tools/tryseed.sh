#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on clean tree, then patched: build, stable tests, demo, checks (default: the property's own). Restores /repo.
id=$1; shift; d=/verif/seeded/$id
if [ $# -gt 0 ]; then checks="$*"; else checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); fi
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$CHECKONLY" ]; then
(cd /repo && bash $d/demo.sh > /tmp/seed.clean 2>&1); c=$?
[ $c = 0 ] || { echo "$id: demo fails on the clean tree ($c)"; tail -5 /tmp/seed.clean; exit 1; }
fi
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$CHECKONLY" ]; then
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
python3 - <<P || { echo "$id: BREAKS STABLE TESTS"; BAD=1; }
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.json'))['passed'])
m=sorted(s-p)
print('$id: stable tests lost: %d %s'%(len(m), m[:3])) if m else None
raise SystemExit(1 if m else 0)
P
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/seed.patched 2>&1); p=$?
echo "$id: demo clean=$c patched=$p $([ $p = 0 ] && echo DEMO-DOES-NOT-FAIL) $(tail -1 /tmp/seed.patched | cut -c1-150)"
fi
for k in $checks; do VERIF_TIER=quick VERIF_SEED=1 /verif/check $k > /tmp/seed.check 2>&1; r=$?; echo "$id: check $k exit $r $(grep -m1 VIOLATION /tmp/seed.check | cut -c1-200) $(grep -m1 'cases,' /tmp/seed.check | cut -c1-100)"; done
