#!/bin/bash
# trychange.sh ID...: in a scratch copy, is the planted change valid (applies, builds, stable tests pass, demo 0 -> nonzero)?
W=/tmp/seedwt; V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    S=$V/seeded/$id
    git -C $W checkout -q -- .
    (cd $W && bash $S/demo.sh >/tmp/seed_$id.clean 2>&1); c=$?
    git -C $W apply $S/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
    (cd $W && bash $S/demo.sh >/tmp/seed_$id.bad 2>&1); b=$?
    if [ ! -f $W/_b/build.ninja ]; then cmake -S $W -B $W/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ >/dev/null; fi
    t=ok
    ninja -C $W/_b Tecs-tests Tecs-tests-unchecked Tecs-benchmark >/tmp/seed_$id.build 2>&1 || t=BUILD-FAILS
    rm -rf $W/_b/vp-run; mkdir -p $W/_b/vp-run; 
    if [ $t = ok ]; then cd $W/_b/vp-run
    for x in Tecs-tests Tecs-tests-unchecked Tecs-benchmark; do stdbuf -oL timeout -k 5 120 $W/_b/tests/$x > $x.log 2>&1; echo $? > $x.rc; done
    python3 /opt/vp/tecs_lines.py $W/_b/vp-run > result.lines; python3 /opt/vp/results.py /tmp/seed_res.json lines:$W/_b/vp-run/result.lines >/dev/null
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_res.json'))
s=b.get('stable') or b.get('passed') or b
miss=[x for x in s if x not in r['passed']]
print('tests:%d pass, missing %s'%(len(r['passed']),miss[:3]))
P
); fi
    git -C $W checkout -q -- .
    echo "$id demo clean=$c patched=$b  $t"
done
