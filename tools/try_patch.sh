#!/bin/bash
# try_patch.sh SLOT PATCH ID...: applies PATCH to a scratch copy of /repo and runs the checks ID...
# of a scratch copy of /verif against it.  Scratch lives in /tmp/try-SLOT (remove it when done).
# Prints per check: exit code and the VIOLATION line.  SKIP_TESTS=1 skips the repository's tests.
# SEARCH=SECONDS [JOBS=N] runs the coverage-guided search instead of the check.
slot=$1; patch=$2; shift 2
d=/tmp/try-$slot
mkdir -p $d/repo $d/verif
rsync -a --delete --exclude target /repo/ $d/repo/ 2>/dev/null || { find $d/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -r {} +; cp -a /repo/. $d/repo/; }
for x in tools harness fuzz; do mkdir -p $d/verif/$x; done
rsync -a --exclude target --exclude work /verif/tools /verif/harness /verif/probes /verif/fuzz $d/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude target --exclude work tools harness probes fuzz 2>/dev/null) | tar xf - -C $d/verif
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $d/verif/harness/Cargo.toml $d/verif/fuzz/Cargo.toml
for f in $d/verif/probes/*/Cargo.toml; do [ -f $f ] && sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $f; done
cp /verif/known_findings.json $d/verif/
cd $d/repo && git checkout -q -- . 
if [ "$patch" != none ]; then git apply $patch || { echo "PATCH DOES NOT APPLY"; exit 9; }; fi
if [ -z "$SKIP_TESTS" ]; then
  (cargo test --offline --all-features 2>&1 || true) >$d/test.log
  if grep -q "^error" $d/test.log || grep -q "test result: FAILED" $d/test.log; then echo "TESTS FAIL: $(grep -E '^test .*FAILED' $d/test.log | head -3 | tr '\n' ' ') $(grep '^error' $d/test.log | head -2)"; fi
fi
export SDP_REPO=$d/repo
for id in "$@"; do
  if [ -n "$SEARCH" ]; then c="search.sh $id $SEARCH ${JOBS:-3}"; else c="run.sh check $id"; fi
  timeout 900 bash $d/verif/tools/$c >$d/out.$id 2>&1; rc=$?
  echo "$id rc=$rc $(grep -a VIOLATION $d/out.$id | head -1)"
  [ -n "$SHOW" ] && tail -n ${SHOW} $d/out.$id | cut -c1-400
done
