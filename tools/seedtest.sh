#!/bin/bash
# tools/seedtest.sh <seed id> [check ids...]: confirm a planted bug in a scratch copy of /repo (HEAD + patch):
# builds, stable tests pass, demo fails with and passes without, and which checks report it.
id=$1; shift
S=/verif/seeded/$id; C=/tmp/sc_$id
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
rm -rf "/tmp/sc_$id"; cp -a "${SEED_BASE:-/repo}" "$C"; cd "$C" || exit 1
git checkout -q -- . ; git clean -fdq src
for s in build test; do sed "s#/repo#$C#g; s#/opt/vp/build.sh#$C.build.sh#g" /opt/vp/$s.sh > $C.$s.sh; done
out="$id:"
if [ -z "$SKIP_TESTS" ]; then
bash $C.build.sh >$C.log 2>&1
(bash $S/demo.sh >$C.demo0 2>&1); out="$out demo-clean=$?"
fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$SKIP_TESTS" ]; then
bash $C.build.sh >>$C.log 2>&1 || out="$out BUILD-FAILS"
(bash $S/demo.sh >$C.demo1 2>&1); out="$out demo-bug=$?"
bash $C.test.sh $C.json >>$C.log 2>&1
out="$out $(python3 - <<Q
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$C.json'))
m=sorted(set(b)-set(o['passed'])); print('missing=%d %s' % (len(m), ' '.join(m[:3])))
Q
)"
fi
cd /verif
for p in $P; do
  t=$(date +%s); VERIF_REPO=$C ./run.sh $p >$C.$p.out 2>&1; rc=$?
  out="$out | $p rc=$rc $(grep -c "VIOLATION property=$p" $C.$p.out) $(( $(date +%s)-t ))s"
done
echo "$out"
rm -rf "/tmp/sc_$id"; rm -f $C.*.sh
