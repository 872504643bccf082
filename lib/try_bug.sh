#!/bin/bash
# try_bug.sh ID [CHECK...]: applies seeded/ID to /repo, builds, runs the stable tests, its demo and the checks of its property; undoes it.
id=$1; shift; S=/verif/seeded/$id; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
D=$(mktemp -d); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $D/demo.sh >$D/out0 2>&1; r0=$?
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh $D/t.json >$D/build.log 2>&1
python3 - $D/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(sys.argv[1]))
m=[k for k in b['stable'] if k not in t['passed']]
print('stable tests:', 'all pass' if not m else 'BROKEN %s'%m[:5])
P
timeout 300 bash $D/demo.sh >$D/out1 2>&1; r1=$?
echo "demo: clean=$r0 planted=$r1 $([ $r0 = 0 ] && [ $r1 != 0 ] && echo OK || { echo BAD; tail -5 $D/out0 $D/out1; })"
for c in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  timeout 900 python3 /verif/lib/run.py $c quick >$D/chk 2>&1; r=$?; echo "check $c: exit $r $(grep -c ^VIOLATION $D/chk) violation lines; $(grep -- '^--- ' $D/chk | head -3 | tr '\n' ' ')"
done
git checkout -q -- .; /bin/rm -rf "$D"; bash /opt/vp/build.sh >/dev/null 2>&1
