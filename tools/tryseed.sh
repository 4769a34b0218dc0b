#!/bin/bash
# tryseed.sh ID... : confirms each planted bug (builds, passes tests, demo tells the trees apart) and runs the quick check of its property
cd /repo
for id in "$@"; do
  D=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  rm -rf /tmp/sd_$id; cp -r $D /tmp/sd_$id; rm -f /tmp/sd_$id/patch.diff /tmp/sd_$id/meta.json
  [ -n "$SKIPCLEAN" ] || { bash /opt/vp/build.sh > /tmp/b.log 2>&1; bash /tmp/sd_$id/demo.sh > /tmp/sd_$id.clean 2>&1 && c=ok || c=FAILS-ON-CLEAN; }
  git apply $D/patch.diff || { echo "$id patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/b.log 2>&1 && b=ok || b=NOBUILD
  bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
  t=$(python3 - <<P
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
st=b.get('stable') or b.get('passed') or b.get('tests') or list(b)
st=[x if isinstance(x,str) else x.get('name') for x in (st if isinstance(st,list) else list(st))]
ps=o.get('passed') or [k for k,v in (o.get('tests') or o).items() if v in ('pass','passed',True,'PASS')]
print('ok' if set(st)<=set(ps) else 'TESTS-FAIL %s'%(set(st)-set(ps)))
P
)
  bash /tmp/sd_$id/demo.sh > /tmp/sd_$id.out 2>&1 && m=DEMO-PASSES-WITH-BUG || m=ok
  r=skipped
  if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 ./run.py $prop --tier quick > /tmp/sd_$id.chk 2>&1; echo $? > /tmp/sd_$id.rc); r="rc=$(cat /tmp/sd_$id.rc) $(grep -m1 VIOLATION /tmp/sd_$id.chk)"; fi
  git checkout -- .
  echo "$id $prop clean=$c build=$b tests=$t demo=$m check: $r"
  rm -rf /tmp/sd_$id
done
bash /opt/vp/build.sh > /tmp/b.log 2>&1
