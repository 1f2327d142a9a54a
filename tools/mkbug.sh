#!/bin/bash
# mkbug ID PROP "needs" "breaks"  : takes the current diff of /repo as the bug, demo from /tmp/demo/<ID>/ (demo_test.go + pkg file)
# demo: /tmp/demo/ID/demo_test.go, first line "// pkg: xls/cfb"
id=$1; prop=$2; needs=$3; breaks=$4
d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff
cp /tmp/demo/$id/demo_test.go $d/demo_test.go
pkg=$(head -1 $d/demo_test.go | sed 's/.*pkg: //')
cat > $d/demo.sh <<D
#!/bin/bash
# demonstration: an in-package test laid over the tree; exit 0 when the property holds
here=\$(cd "\$(dirname "\$0")" && pwd)
root=\$PWD
tmp=\$(mktemp -d) || exit 1
trap '/bin/rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$root" "\$here" > "\$tmp/ov.json"
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
go test -overlay "\$tmp/ov.json" -vet=off -count=1 -timeout 60s -run '^TestDemo\$' ./$pkg
D
chmod +x $d/demo.sh
python3 - "$id" "$prop" "$needs" "$breaks" > $d/meta.json <<'P'
import sys,json
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('baseline keys', list(b)[:5]) if 0 else None
def passed(x):
    for k in ('passed','pass'): 
        if k in x: return set(x[k])
    return set()
bp=passed(b) or set(b.get('stable',[]) or b.get('tests',[]))
print('tests lost:', bp-passed(t))
P
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1 && echo "DEMO PASSES WITH BUG (bad)" || echo "demo fails with bug (good)")
git -C /repo checkout -- .
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1 && echo "demo ok on clean" || { echo "DEMO FAILS CLEAN (bad)"; tail -20 /tmp/demo.out; })
