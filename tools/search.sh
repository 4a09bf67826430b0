#!/bin/bash
# search.sh ID SECONDS [JOBS]: coverage-guided search (libFuzzer) over the choices of the generators of property ID,
# and over raw text where the property has relations that need no record of how the text was made.  Only the crate
# under test is instrumented.  A failing input is minimised and reported like that of any other case.
here="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; secs=$2; jobs=${3:-8}
export SDP_VERIF="$here" CARGO_NET_OFFLINE=true
w="$here/fuzz/work"
mkdir -p "$w" "$here/evidence" "$here/replays"
ulimit -c 0
bash "$here/tools/run.sh" build || exit 2
h="$here/harness/target/release/sdp-harness"
subs=$($h subs "$id")
[ -z "$subs" ] && { echo "$id: no coverage-guided search"; exit 0; }
cat >"$w/wrap.sh" <<'W'
#!/bin/bash
case " $* " in
  *" --crate-name webrtc_sdp "*) exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=4 -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table -C llvm-args=-sanitizer-coverage-trace-compares -C codegen-units=1 ;;
  *) exec "$@" ;;
esac
W
chmod +x "$w/wrap.sh"
(cd "$here/fuzz" && RUSTC_WRAPPER="$w/wrap.sh" cargo build --release --offline) >"$w/build.log" 2>&1 || { tail -n 40 "$w/build.log" >&2; exit 2; }
clang++ -fsanitize=fuzzer -o "$w/fuzz-$id" "$here/fuzz/target/release/libsdp_fuzz.a" -lpthread -ldl -lm || exit 2
n=$(wc -l <<<"$subs")
each=$((secs / n)); [ $each -lt 10 ] && each=10
ulimit -s unlimited
notes=""
while IFS= read -r sub <&3; do
  x=${sub// /_}
  c="$w/$id-$x"
  mkdir -p "$c"
  [ -z "$(ls "$c")" ] && "$h" seeds "$id" "$sub" "$c" 2000
  out="$w/out-$id-$x"; mkdir -p "$out"; find "$out" -type f -delete
  (cd "$out" && SDP_FUZZ="$id/$sub" "$w/fuzz-$id" -max_total_time=$each -fork=$jobs -ignore_crashes=0 -max_len=4000 -len_control=0 -timeout=30 -rss_limit_mb=3000 "$c") >"$w/log-$id-$x" 2>&1
  for f in "$out"/crash-* "$out"/timeout-* "$out"/oom-* "$out"/leak-*; do
    [ -f "$f" ] || continue
    "$h" judge "$id" "$sub" "$f" || exit 1
  done
  last=$(grep -a '^#[0-9].*cov:' "$w/log-$id-$x" | tail -1)
  echo "$id/$sub: ${last:-no statistics}"
  notes="$notes$sub: ${last%% exec/s*}; "
done 3<<<"$subs"
python3 - "$here/evidence/$id.json" "$notes" <<'P'
import json, sys
try:
    d = json.load(open(sys.argv[1]))
    d['coverage'].setdefault('notes', {})['coverage-guided search (executions, edges, features, corpus)'] = sys.argv[2]
    json.dump(d, open(sys.argv[1], 'w'), indent=1)
except FileNotFoundError:
    pass
P
