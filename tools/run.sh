#!/bin/bash
# run.sh check ID | replay FILE | build
# Builds the harness against /repo's current working tree, then runs it.
here="$(cd "$(dirname "$0")/.." && pwd)"
export SDP_VERIF="$here" CARGO_NET_OFFLINE=true
log="$here/harness/target/build.log"
mkdir -p "$here/harness/target" "$here/evidence" "$here/replays"
ulimit -c 0
build() { (cd "$here/harness" && cargo build --release --offline) >"$log" 2>&1; }
if ! build; then
    echo "ERROR: the harness does not build against /repo" >&2
    tail -n 40 "$log" >&2
    exit 2
fi
[ "${1:-}" = build ] && exit 0
# memory is bounded so that a runaway allocation ends this run and nothing else
ulimit -v $((24 * 1024 * 1024))
exec "$here/harness/target/release/sdp-harness" "$@"
