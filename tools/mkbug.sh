#!/bin/bash
# mkbug.sh NAME: take the change in the scratch tree /tmp/bug/repo as bug NAME and check it: builds, tests pass,
# demo passes without and fails with it. The demo and meta.json must already be in /verif/seeded/NAME.
set -e
N=$1; S=/verif/seeded/$N
[ -f $S/demo.sh ] || cp /verif/tools/demo/demo.sh $S/demo.sh
chmod +x $S/demo.sh
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
git apply --check $S/patch.diff
bash /opt/vp/build.sh > /tmp/mb.log 2>&1
cp -r $S /tmp/mb_demo; bash /tmp/mb_demo/demo.sh > /tmp/mb_demo.out 2>&1 && echo "clean: demo ok" || { echo "clean: demo FAILS"; cat /tmp/mb_demo.out; rm -rf /tmp/mb_demo; exit 1; }
git apply $S/patch.diff
trap 'git -C /repo checkout -q -- .; rm -rf /tmp/mb_demo' EXIT
bash /opt/vp/build.sh > /tmp/mb.log 2>&1 || { echo "does not build"; grep -A8 ^error /tmp/mb.log; exit 1; }
if bash /tmp/mb_demo/demo.sh > /tmp/mb_demo.out 2>&1; then echo "patched: demo PASSES (bad)"; exit 1; else echo "patched: demo fails: $(grep -A2 panicked /tmp/mb_demo.out | head -3)"; fi
if [ -z "$2" ]; then
bash /opt/vp/test.sh /tmp/mb_out.json > /tmp/mb_t.log 2>&1 || true
python3 - <<'P'
import json
a=json.load(open('/tmp/mb_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
f=[x for x in b['stable'] if x not in set(a['passed'])]
print('tests: not passing', f[:8], len(f))
P
fi
