#!/bin/bash
# try.sh ID : confirm a planted bug: tests pass with it, the demo passes without and fails with it; then the check.
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
cp /verif/tools/seed/demo.sh $d/demo.sh
cd /repo
bash $d/demo.sh >/tmp/x/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "BUILD FAILS"; exit 2; }
bash $d/demo.sh >/tmp/x/demo1.log 2>&1; r1=$?
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh /tmp/x/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/x/t.json'))
def ok(d):
    s=set()
    def w(x):
        if isinstance(x,dict):
            for k in ('passed','pass','stable'):
                if k in x and isinstance(x[k],list): s.update(map(str,x[k]))
            for v in x.values(): w(v)
    w(d); return s
print("baseline",len(ok(b)),"passing now",len(ok(t)),"lost",sorted(ok(b)-ok(t))[:5])
P
fi
echo "demo clean=$r0 patched=$r1"
if [ -z "${NOCHECK:-}" ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; time ./check.sh ${2:-$p} 2>&1 | grep -v KNOWN | tail -8; echo "exit ${PIPESTATUS[0]}"
fi
