#!/bin/bash
# seedrun.sh <id> [checks...]: validates one planted bug (build, stable tests, demo on
# both trees) and runs checks against it.  Author's tool.
id=$1; shift
d=/verif/seeded/$id
export DEMO_TARGET=/tmp/demotarget
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
log=/tmp/seedlog; mkdir -p $log
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
if [ "$NODEMO" != 1 ]; then
bash $d/demo.sh >$log/$id.clean 2>&1; c=$?
fi
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 9; }
trap 'git -C /repo checkout -- .' EXIT
b=0; t=ok
if [ "$NODEMO" != 1 ]; then
bash /opt/vp/build.sh >$log/$id.build 2>&1; b=$?
bash /opt/vp/test.sh $log/$id.tests.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$log/$id.tests.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('pass','passed',True)])
    return set(x)
m=names(b)-names(o)
print('ok' if not m else 'FAIL:'+','.join(sorted(m))[:200])
P
)
bash $d/demo.sh >$log/$id.bug 2>&1; g=$?
fi
echo "$id prop=$prop build=$b tests=$t demo_clean=$c demo_bug=$g $(grep -h BROKEN $log/$id.bug | head -1)"
for p in ${@:-$prop}; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $p quick >$log/$id.$p 2>&1; r=$?
  echo "   $p exit=$r $(( $(date +%s)-s ))s $(grep -h VIOLATION $log/$id.$p | head -1 | cut -c1-110) $(grep -A1 -h VIOLATION $log/$id.$p | sed -n 2p | cut -c1-160)"
done
