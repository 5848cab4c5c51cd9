#!/bin/bash
# seedmk.sh <id>: takes /repo's uncommitted change as the seed's patch (after demo.cpp and meta.json were written), verifies it, then reverts it.
set -u; id=$1; S=/verif/seeded/$id; mkdir -p $S
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0 when the guarantee holds, nonzero otherwise; run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w -I. -Iinclude "$D/demo.cpp" _build/bin/libsrl.a -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
D
chmod +x $S/demo.sh
cd /repo
git diff --quiet || git diff > $S/patch.diff
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh > /tmp/d0 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/b 2>&1 || { echo "$id: build fails"; tail -3 /tmp/b; git checkout -q -- .; exit 1; }
timeout 120 bash $S/demo.sh > /tmp/d1 2>&1; b=$?
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(x): return x
s=json.dumps(o)
p=o.get('passed') or [k for k,v in o.get('tests',{}).items() if v in('pass','passed',True)]
bb=b.get('stable') or b.get('tests') or b.get('passed')
m=[x for x in bb if x not in p]
print(len(m),m[:3])
P
)
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id: demo clean=$a patched=$b  baseline tests missing: $t"; [ $a = 0 ] || cat /tmp/d0 | head -5; head -2 /tmp/d1
