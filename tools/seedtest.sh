#!/bin/bash
# seedtest.sh SLOT ID...: for each planted bug: does it apply, compile, pass the repository's tests, does
# its demonstration tell it from the unchanged tree, and does its property's check (ALL=1: every check)
# catch it?  Works in /tmp/seed-SLOT; appends one line per bug to /tmp/seed-results.SLOT.
slot=$1; shift
here=${SEED_FROM:-$(cd "$(dirname "$0")/.." && pwd)}
d=/tmp/seed-$slot
mkdir -p $d/repo $d/verif $d/demo
res=/tmp/seed-results.$slot
for id in "$@"; do
  rsync -a --delete --exclude target --exclude .git /repo/ $d/repo/
  [ -d $d/repo/.git ] || git -C $d/repo init -q
  rsync -a --delete --exclude target $here/tools $here/harness $here/probes $d/verif/; cp $here/known_findings.json $d/verif/
  sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $d/verif/harness/Cargo.toml
  for f in $d/verif/probes/*/Cargo.toml; do [ -f $f ] && sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" $f; done
  rm -rf $d/demo/x; cp -r $here/seeded/$id $d/demo/x; rm -f $d/demo/x/patch.diff $d/demo/x/meta.json
  line="$id"
  if [ -z "$SKIP_CLEAN" ]; then (cd $d/repo && bash $d/demo/x/demo.sh >$d/clean.log 2>&1) && line="$line clean-ok" || line="$line CLEAN-FAILS"; fi
  (cd $d/repo && patch -p1 -s --dry-run <$here/seeded/$id/patch.diff >/dev/null && patch -p1 -s <$here/seeded/$id/patch.diff) || line="$line NOT-APPLIED"
  find $d/repo -name '*.orig' -delete
  (cd $d/repo && CARGO_TARGET_DIR=$d/target timeout 600 cargo test --offline --all-features >$d/test.log 2>&1); trc=$?
  (cd $d/repo && CARGO_TARGET_DIR=$d/target timeout 600 cargo test --offline >>$d/test.log 2>&1) || trc=1
  if [ $trc -ne 0 ]; then line="$line TESTS-FAIL($(grep -aE '^test .*FAILED|^error' $d/test.log | head -3 | tr '\n' ' '))"; else line="$line tests-ok"; fi
  (cd $d/repo && bash $d/demo/x/demo.sh >$d/bug.log 2>&1) && line="$line DEMO-MISSES" || line="$line demo-ok"
  prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  list=$prop
  [ -n "$ALL" ] && list="$(seq -f 'C%02g' 1 29)"
  [ -n "$NOCHECK" ] && list=""
  for c in $list; do
    SDP_REPO=$d/repo SDP_VERIF=$d/verif VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash $d/verif/tools/run.sh check $c >$d/out.$c 2>&1; rc=$?
    if [ $rc -eq 1 ] && grep -qa "^VIOLATION property=$c" $d/out.$c; then line="$line $c"; [ "$c" = "$prop" ] && line="$line!"; 
    elif [ $rc -ne 0 ]; then line="$line $c(rc=$rc)"; 
    elif [ "$c" = "$prop" ]; then line="$line MISSED-BY-$c"; fi
  done
  echo "$line" | tee -a $res
done
