#!/bin/bash
# mkbug.sh ID: turn the changes of the scratch copy /tmp/wt into seeded/ID/patch.diff,
# check that they build, pass the stable tests and that seeded/ID/demo.sh tells the trees apart.
id=$1; here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
d=$here/seeded/$id
. /opt/vp/env.sh
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /tmp/wt checkout -q -- .
cd /repo && bash $d/demo.sh >/tmp/demo.clean 2>&1 || { echo "demo fails on clean tree"; tail -20 /tmp/demo.clean; exit 1; }
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo "does not build"; tail /tmp/build.log; exit 1; }
bash $d/demo.sh >/tmp/demo.bug 2>&1 && { echo "demo passes with the bug"; exit 1; }
tail -3 /tmp/demo.bug
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
ok=set(t.get('passed') or [])
miss=[x for x in st if x not in ok]
print('stable tests missing:',miss)
P
