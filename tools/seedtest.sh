#!/bin/bash
# seedtest.sh ID [notest]: tries a planted bug in a scratch copy of /repo: applies, imports, stable tests, demo, the property's check.
ID=$1; HERE=$(cd "$(dirname "$0")/.." && pwd); SEED=$HERE/seeded/$ID
W=$(mktemp -d /tmp/seed-$ID-XXXX); cp -a /repo $W/repo; cp -a $SEED $W/demo
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg SDL_VIDEODRIVER=dummy OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
trap 'rm -rf "$W"' EXIT
cd $W/repo || exit 1
bash $W/demo/demo.sh >$W/demo0.log 2>&1; D0=$?
git apply $SEED/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $W/demo/demo.sh >$W/demo1.log 2>&1; D1=$?
PROP=$(python3 -c "import json;print(json.load(open('$SEED/meta.json'))['property'])")
T=skipped
if [ "$2" != notest ]; then
  PYTHONPATH=/opt/vp/plugin /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p leap_stable_ids -m "not stochastic" --timeout=300 --color=no \
     --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W/r.xml --ignore=tests/jupyter >$W/t.log 2>&1
  python3 /opt/vp/results.py $W/out.json junit:$W/r.xml >/dev/null
  T=$(python3 - $W/out.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
f=d.get('failed') or []
f=[x if isinstance(x,str) else x.get('id') for x in (f if isinstance(f,list) else list(f))]
bad=sorted(s & set(f)); p=d.get('passed'); 
print('stable tests broken: %s'%bad if bad else 'tests ok (%d of %d stable ran)'%(len(s&set(p)),len(s)))
P
)
fi
cd $HERE; MC_REPO=$W/repo ./check $PROP quick >$W/c.log 2>&1; C=$?
V=$(grep -c "^VIOLATION property=$PROP " $W/c.log)
echo "$ID [$PROP] demo clean=$D0 patched=$D1; $T; check exit=$C violations=$V"
[ $D0 -ne 0 ] && tail -5 $W/demo0.log
[ "$C" = 1 ] && grep -m2 -B1 "^VIOLATION" $W/c.log | cut -c1-300
true
