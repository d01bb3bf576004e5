#!/bin/bash
# seedtest.sh ID...: for each planted bug: demo on clean tree, apply, build + tests, demo, check; then revert. Not used by any check.
for id in "$@"; do d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/demo.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?; bash /opt/vp/test.sh /tmp/o.json >/tmp/tt.log 2>&1
m=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def ps(x):
    for k in ('passed','pass','stable'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
    return set(k for k,v in x.items() if v in ('passed','pass',True))
print(len(ps(b)), len(ps(b)-ps(o)))
P
)
bash $d/demo.sh >/tmp/demo2.log 2>&1; c=$?
cd /verif; r=$([ "$NOCHECK" ] || python3 vp.py $p | grep -v ' ok ' | cut -c1-220 | tr '\n' '|')
cd /repo; git checkout -q -- .
echo "$id prop=$p demo_clean=$a build=$b tests(total missing)=$m demo_bug=$c :: $r"
done; bash /opt/vp/build.sh >/dev/null 2>&1
