#!/bin/bash
# seed.sh NAME: in a scratch copy of /repo, confirms seeded/NAME (patch builds,
# stable tests pass, demo passes before and fails after). With -c also runs the
# property's check on the patched copy.
n=$1; d=/verif/seeded/$n
s=/tmp/seedwork; mkdir -p $s
[ -d $s/repo ] || cp -a /repo $s/repo
cd $s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
. /opt/vp/env.sh
run() { (cd $s/repo && DEMO_REPO=$s/repo timeout 300 bash $d/demo.sh >$s/demo.log 2>&1); echo $?; }
a=$(run); [ "$a" = 0 ] || { echo "$n: demo fails on clean ($a)"; tail -20 $s/demo.log; exit 1; }
git apply $d/patch.diff || { echo "$n: patch does not apply"; exit 1; }
go build ./... || { echo "$n: does not build"; exit 1; }
go vet ./internal/... >/dev/null 2>&1
t=$(go test ./... 2>&1 | grep -c '^FAIL\|^--- FAIL')
b=$(run)
echo "$n: test failures=$t demo patched=$b"
if [ "$2" = -c ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  /verif/build.sh
  mkdir -p $s/verif; cp -a /verif/. $s/verif/ 2>/dev/null
  $s/verif/build/gosym -repo $s/repo -verif $s/verif -check $p -tier quick 2>&1 | tail -4
fi
git checkout -q -- .
