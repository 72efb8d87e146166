#!/bin/bash
# seed.sh ID [notest]: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in namespaces of its own):
# demo passes without the patch, patch builds and passes the stable tests, demo fails with it
id=$1; s=/verif/seeded/$id; d=$(mktemp -d /var/tmp/seed.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir $d/tmp $d/demo; cp -a /repo $d/repo; for f in $s/*; do case $f in *.diff|*.patch|*meta.json);; *) cp $f $d/demo/;; esac; done
cp /opt/vp/BASELINE.json $d/ 2>/dev/null; cp $s/patch.diff $d/p.diff
cat > $d/run.sh <<X
ip link set lo up; mount --bind $d/repo /repo; mount --bind $d/tmp /tmp; cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh > $d/b0.log 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
timeout 300 bash $d/demo/demo.sh > $d/d0.log 2>&1; r0=\$?
git apply $d/p.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $d/b1.log 2>&1 || { echo "BUILD FAILED"; tail -20 $d/b1.log; exit 1; }
timeout 300 bash $d/demo/demo.sh > $d/d1.log 2>&1; r1=\$?
if [ -z "$2" ]; then bash /opt/vp/test.sh $d/t.json > $d/t.log 2>&1; python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$d/t.json"))
st=b.get("passed") or b.get("stable") or b.get("tests") or b
miss=[x for x in st if x not in t["passed"]]
print("tests: %d stable, missing %s"%(len(st),miss))
P
fi
echo "$id: demo unpatched \$r0 patched \$r1"; tail -3 $d/d0.log; echo --; tail -3 $d/d1.log
X
unshare -Urmn bash $d/run.sh
