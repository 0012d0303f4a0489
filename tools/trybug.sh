#!/bin/bash
# usage: trybug.sh SEEDED_ID [CHECKS...]: in a private copy of /repo (bound over /repo in a mount namespace), confirms
# that the planted bug builds, passes the stable tests, is revealed by its demo, and shows what the checks say.
id=$1; shift
d=/verif/seeded/$id
checks="${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}"
w=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/demo"; cp -a $d/. "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
unshare -Urm bash -s "$w" "$d" "$checks" <<'X'
w=$1; d=$2; checks=$3
mount --bind "$w/repo" /repo || exit 1
cd /repo
bash /opt/vp/build.sh >"$w/log" 2>&1 || echo "CLEAN BUILD FAILED"
timeout 300 bash "$w/demo/demo.sh" >"$w/demolog" 2>&1; echo "demo on the unchanged tree: $?"
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/test.sh "$w/o.json" >"$w/log" 2>&1 || true
python3 - "$w/o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def flat(x):
    return x if isinstance(x,list) else []
base=set(next((v for k,v in b.items() if isinstance(v,list)), [])) if isinstance(b,dict) else set(b)
p=set(o['passed'])
print('tests passed', len(p), 'failed', len(o['failed']), 'missing from baseline', sorted(base-p)[:5] if base and all(isinstance(x,str) for x in base) else '?')
P
timeout 300 bash "$w/demo/demo.sh" >"$w/demolog" 2>&1; echo "demo with the bug: $?"; tail -3 "$w/demolog"
cd /verif
for c in $checks; do python3 check $c quick 2>&1 | cut -c1-240 | tail -3; echo "check $c: ${PIPESTATUS[0]}"; done
X
rm -rf "$w"
