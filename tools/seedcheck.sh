#!/bin/bash
# seedcheck.sh BUG... : confirms planted bugs in scratch worktrees: the patch applies and touches original lines,
# it builds, the stable tests pass, the demonstration passes without and fails with it; then tries the property's check.
v=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh; export GOSUMDB=off
one() {
  b=$1; d=$v/seeded/$b; w=/tmp/seedtree.$b
  git -C /repo worktree add -q --detach $w HEAD 2>/dev/null || { echo "$b: no worktree"; return; }
  dd=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -r $d/. $dd/; rm -f $dd/*.diff $dd/meta.json
  msg=""
  (cd $w && timeout 300 bash $dd/demo.sh > /tmp/seedout.$b.0 2>&1) || msg="$msg DEMO-FAILS-CLEAN"
  git -C $w apply $d/patch.diff || msg="$msg NO-APPLY"
  python3 $v/tools/original.py $w || msg="$msg NOT-ORIGINAL-LINES"
  (cd $w && go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's#^#./#')) > /tmp/seedout.$b.b 2>&1 || msg="$msg NO-BUILD"
  (cd $w && go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v /tests/interop/) > /tmp/seedout.$b.t 2>/dev/null)
  python3 - /tmp/seedout.$b.t <<'P' || msg="$msg TESTS"
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
miss=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
if miss: print(miss[:3]); sys.exit(1)
P
  (cd $w && timeout 300 bash $dd/demo.sh > /tmp/seedout.$b.1 2>&1) && msg="$msg DEMO-PASSES-PATCHED"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=$(bash $v/tools/try.sh $w $p)
  echo "$b:${msg:- valid} | $r"
  git -C /repo worktree remove --force $w
  rm -rf "$dd"
}
j=${JOBS:-4}; export -f one; export v; printf "%s\n" "$@" | xargs -P $j -I{} bash -c "one {}"
