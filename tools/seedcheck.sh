#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in scratch copies: the patch applies,
# touches only lines of the original repository's non-test files, builds, passes
# the stable tests; the demo passes without it and fails with it.
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
for id in "$@"; do
  s=/verif/seeded/$id
  d=$(mktemp -d /tmp/seed.XXXXXX)
  mkdir $d/repo $d/demo
  git -C /repo archive HEAD | tar x -C $d/repo
  find $s -maxdepth 1 -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp {} $d/demo/ \;
  r=""
  (cd $d/repo && timeout 300 bash $d/demo/demo.sh) >$d/o1 2>&1 || r="$r demo-fails-unpatched"
  (cd $d/repo && git init -q . && git apply $s/patch.diff) || r="$r no-apply"
  (cd $d/repo && go build ./... ) >$d/o2 2>&1 || r="$r no-build"
  (cd $d/repo && go test -json -vet=off -count=1 ./... >$d/t.log 2>/dev/null)
  python3 - $d/t.log <<'P' || r="$r tests-fail"
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
m=st-ok
if m: print('failing:',m); sys.exit(1)
P
  (cd $d/repo && timeout 300 bash $d/demo/demo.sh) >$d/o3 2>&1 && r="$r demo-passes-patched"
  # lines removed or changed must be original
  orig=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1)
  base=$(git -C /repo log --format=%H --grep='^fix:' --reverse | head -1)^
  python3 - $s/patch.diff $base <<'P' || r="$r touches-own-lines"
import re,subprocess,sys
base=sys.argv[2]; bad=0; f=None
for l in open(sys.argv[1],errors='replace'):
    if l.startswith('--- a/'): f=l[6:].strip(); ln=0; own=None
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m.group(1))-1; continue
    if f is None or l.startswith(('+++','---','diff','index')): continue
    if l.startswith(' '): ln+=1
    elif l.startswith('-'):
        ln+=1
        b=subprocess.run(['git','-C','/repo','blame','-s','-L%d,%d'%(ln,ln),base+'..HEAD','--',f],capture_output=True,text=True).stdout
        if b and not b.startswith('^'): print('own line:',f,ln,l.strip()); bad=1
sys.exit(bad)
P
  if [ -z "$r" ]; then echo "$id ok ($(tail -1 $d/o3 | cut -c1-150))"; else echo "$id BAD:$r"; tail -qn5 $d/o1 $d/o2 $d/o3; fi
  rm -rf "$d"
done
