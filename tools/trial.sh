#!/bin/bash
# trial.sh ID [notest] [PID...]: confirms a planted bug in throw-away overlays of /repo and the build folder,
# then runs the check of its property (or the given ones) on it.
set -u
D=${SEEDED:-/verif/seeded}/$1; shift
T=1; [ "${1-}" = notest ] && { T=0; shift; }
W=$(mktemp -d /tmp/trial.XXXXXX)
P="${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}"
export D W P T
unshare -m bash -c '
mount --make-rprivate /
mount -t tmpfs -o size=14g tmpfs $W
for x in repo opt/nisaba-build verif; do
  n=$(basename $x); mkdir -p $W/$n.up $W/$n.wk
  mount -t overlay overlay -o lowerdir=/$x,upperdir=$W/$n.up,workdir=$W/$n.wk /$x
done
cp -r $D $W/bug
cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || echo "BASE BUILD FAILED"
bash $W/bug/demo.sh > $W/d0.log 2>&1; echo "demo on the base: $?"; tail -3 $W/d0.log
git apply $W/bug/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/b.log 2>&1; echo "build: $?"
bash $W/bug/demo.sh > $W/d.log 2>&1; echo "demo with the bug: $?"; tail -4 $W/d.log
if [ $T = 1 ]; then
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
/opt/venv/bin/python - <<X
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
p=set(t["passed"] if "passed" in t else [k for k,v in t.items() if v=="passed"])
s=b.get("stable") or b.get("passed") or b
s=set(s)
print("tests:",len(s&p),"of",len(s),"stable ones pass; broken:",sorted(s-p)[:5])
X
fi
cd /verif
for p in $P; do timeout 900 ./check.py $p > $W/c.log 2>&1; echo "check $p: $?"; grep -v ^proved $W/c.log | cut -c1-300 | tail -6; done
'
rm -rf "$W"
