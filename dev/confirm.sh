#!/bin/bash
# confirm a planted bug: applies, builds, tests pass, demo fails with it and passes without
id=$1; d=/verif/seeded/$id
cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
git apply --check $d/patch.diff || exit 1
rm -rf /tmp/demo.$id; cp -a $d /tmp/demo.$id; rm -f /tmp/demo.$id/patch.diff /tmp/demo.$id/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
bash /tmp/demo.$id/demo.sh >/tmp/demo.$id/out0 2>&1; r0=$?
git apply $d/patch.diff
bash /opt/vp/test.sh /tmp/demo.$id/t.json >/tmp/demo.$id/blog 2>&1 || true
np=$(python3 -c "
import json;t=json.load(open('/tmp/demo.$id/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=t.get('passed',[]);base=b.get('passed') or b.get('stable') or b
print(len(p), [x for x in base if x not in p] if isinstance(base,list) else '')")
bash /tmp/demo.$id/demo.sh >/tmp/demo.$id/out1 2>&1; r1=$?
echo "$id: demo clean=$r0 patched=$r1 tests=$np"; tail -2 /tmp/demo.$id/out1 | cut -c1-200
for c in ${@:2}; do VERIF_EVID=/tmp/demo.$id VERIF_CACHE=/tmp/vcache /verif/run $c | tail -3 | cut -c1-250; done
git checkout -- . ; rm -rf /tmp/demo.$id
