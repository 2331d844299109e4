#!/bin/bash
# tools/seed.sh ID [checks...]: plants /verif/seeded/ID in /repo, builds, tests, runs its demo and the named checks, and undoes it.
S=/verif/seeded/$1; id=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
D=/tmp/seedrun; rm -rf /tmp/seedrun; mkdir -p $D; cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
if [ -z "$SKIP_DEMO" ]; then
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/seed-build.log; exit 2; }
  (timeout 300 bash $D/demo.sh > /tmp/seed-demo.log 2>&1); echo "$id demo with patch: $? $(tail -1 /tmp/seed-demo.log | cut -c1-200)"
  if [ -z "$SKIP_TEST" ]; then
    bash /opt/vp/test.sh /tmp/t.json > /tmp/tt.log 2>&1; echo "$id tests: $(python3 /verif/tools/cmpt.py | cut -c1-300)"
  fi
fi
for c in "$@"; do
  (cd /verif; timeout 900 python3 run_check.py $c quick > /tmp/seed-check-$c.log 2>&1); rc=$?
  echo "$id check $c: $rc $(grep -m1 VIOLATION /tmp/seed-check-$c.log | cut -c1-150)"
done
git -C /repo checkout -q -- .
