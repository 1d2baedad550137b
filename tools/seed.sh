#!/bin/bash
# Confirms planted bugs in a scratch copy bind-mounted over /repo: seed.sh ID... (runs as root; scratch in /tmp/sw)
S=/tmp/sw/repo
if [ -z "$SEED_NS" ]; then
  mkdir -p /tmp/sw; rsync -a --delete /repo/ $S/ 2>/dev/null || { rm -rf /tmp/sw/repo; cp -a /repo $S; }
  SEED_NS=1 exec unshare -m bash "$0" "$@"
fi
mount --bind $S /repo
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/tmp/sw/b.log 2>&1 || { echo clean build fails; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/sw/demo; cp -a $d /tmp/sw/demo; rm -f /tmp/sw/demo/*.diff /tmp/sw/demo/meta.json
  (cd /repo; timeout 300 bash /tmp/sw/demo/demo.sh >/tmp/sw/d0.log 2>&1); d0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/test.sh /tmp/sw/t.json >/tmp/sw/b.log 2>&1; then :; fi
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sw/t.json'))
bp=b['stable']
print(len(set(t['passed'])&set(bp)),'/',len(bp))
P
)
  (cd /repo; timeout 300 bash /tmp/sw/demo/demo.sh >/tmp/sw/d1.log 2>&1); d1=$?
  (cd /verif; timeout 900 python3 check.py $p quick >/tmp/sw/c.log 2>&1); c=$?
  echo "$id [$p]: demo clean=$d0 patched=$d1 tests=$t check=$c $(grep VIOLATION /tmp/sw/c.log | sed 's/replay=[^ ]*//') $(grep -o 'FAILED obligation.*' /tmp/sw/c.log | head -2 | cut -c1-120 | tr '\n' ';') $(tail -1 /tmp/sw/c.log | cut -c1-80)"
  git checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/sw/b.log 2>&1
