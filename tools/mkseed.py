#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)builds /verif/seeded/<ID> from the descriptions in tools/seeds/*.py against
/repo's HEAD.  A description is a call S(id, prop, edits, needs, breaks, demo, ...)."""
import sys, os, glob, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SDP_REPO', '/repo')
SEEDS = {}
PRE = '''#![allow(unused_imports, dead_code)]
extern crate webrtc_sdp;
use std::collections::*;
use std::convert::TryFrom;
use std::error::Error;
use std::net::*;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::network::*;
use webrtc_sdp::*;

const HEAD: &str = "v=0\\r\\no=mozilla 7 3 IN IP4 192.0.2.1\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 192.0.2.2\\r\\n";
const AUDIO: &str = "m=audio 9 UDP/TLS/RTP/SAVPF 0 96 97\\r\\n";

/// A description with the given session lines and media lines.
fn sdp(session: &[&str], media: &[&str]) -> String {
    let mut s = HEAD.to_string();
    for l in session {
        s += l;
        s += "\\r\\n";
    }
    s += AUDIO;
    for l in media {
        s += l;
        s += "\\r\\n";
    }
    s
}
fn attr(text: &str) -> SdpAttribute {
    match parse_attribute(text).unwrap_or_else(|e| panic!("{text}: {e}")) {
        SdpType::Attribute(a) => a,
        _ => unreachable!(),
    }
}
fn ok(text: &str) -> SdpSession {
    parse_sdp(text, true).unwrap_or_else(|e| panic!("{text:?}: {e}"))
}
fn lenient(text: &str) -> SdpSession {
    parse_sdp(text, false).unwrap_or_else(|e| panic!("{text:?}: {e}"))
}
fn err(text: &str) -> SdpParserError {
    match parse_sdp(text, true) {
        Ok(s) => panic!("{text:?} was accepted as {s}"),
        Err(e) => e,
    }
}
fn line_no(e: &SdpParserError) -> usize {
    match e {
        SdpParserError::Line { line_number, .. }
        | SdpParserError::Unsupported { line_number, .. }
        | SdpParserError::Sequence { line_number, .. } => *line_number,
    }
}
fn line_text(e: &SdpParserError) -> String {
    match e {
        SdpParserError::Line { line, .. } | SdpParserError::Unsupported { line, .. } => line.clone(),
        SdpParserError::Sequence { .. } => String::new(),
    }
}
'''
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: 0 when the property holds.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/sdp-demo.XXXXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
webrtc-sdp = { path = "$repo"%(feat)s }
%(deps)s
[profile.dev]
%(prof)s
END
cd "$work"
CARGO_TARGET_DIR="$work/target" timeout 250 cargo run --offline --quiet
'''
DEMO2 = '''#!/bin/bash
# Builds demo.rs twice against the crate in the current directory, with different optional features,
# and compares what the two programs print: 0 when they print the same.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/sdp-demo.XXXXXXXX)
trap 'rm -rf "$work"' EXIT
for feat in %(feats)s; do
  mkdir -p "$work/$feat/src"
  cp "$here/demo.rs" "$work/$feat/src/main.rs"
  list=""
  case $feat in
    debug) list='"enhanced_debug"' ;;
    serialize) list='"serialize"' ;;
    both) list='"enhanced_debug", "serialize"' ;;
  esac
  cat >"$work/$feat/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
webrtc-sdp = { path = "$repo", default-features = false, features = [$list] }
END
  (cd "$work/$feat" && CARGO_TARGET_DIR="$work/target-$feat" timeout 120 cargo run --offline --quiet) >"$work/out.$feat"
done
for feat in %(feats)s; do
  cmp "$work/out.none" "$work/out.$feat"
done
'''

def S(id, prop, edits, needs, breaks, demo, features=(), json_dep=False, release=False, feats=None):
    assert id not in SEEDS, id
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, features=features,
                     json_dep=json_dep, release=release, feats=feats)

for f in sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.py'))):
    exec(compile(open(f).read(), f, 'exec'))

def make(id, s):
    out = os.path.join(ROOT, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp()
    files = sorted({e[0] for e in s['edits']})
    for side in 'ab':
        for f in files:
            os.makedirs(os.path.dirname(f'{t}/{side}/{f}'), exist_ok=True)
            txt = subprocess.run(['git', '-C', REPO, 'show', f'HEAD:{f}'], capture_output=True, text=True, check=True).stdout
            if side == 'b':
                for e in s['edits']:
                    if e[0] != f:
                        continue
                    n = txt.count(e[1])
                    if n != 1:
                        print(f'{id}: {n} occurrences of {e[1]!r}')
                        return False
                    txt = txt.replace(e[1], e[2])
            open(f'{t}/{side}/{f}', 'w').write(txt)
    d = subprocess.run(['git', 'diff', '--no-index', '--no-color', '--src-prefix=', '--dst-prefix=', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
    open(f'{out}/patch.diff', 'w').write(d)
    shutil.rmtree(t)
    if s['feats']:
        sh = DEMO2 % dict(feats=s['feats'])
    else:
        feat = ''
        if s['features']:
            feat = ', features = [%s]' % ', '.join('"%s"' % x for x in s['features'])
        sh = DEMO % dict(feat=feat, deps='serde_json = "1.0"\n' if s['json_dep'] else ('log = "0.4"\n' if 'extern crate log' in s['demo'] else ''),
                         prof='opt-level = 2' if s['release'] else 'debug = false')
    open(f'{out}/demo.sh', 'w').write(sh)
    os.chmod(f'{out}/demo.sh', 0o755)
    demo = PRE + s['demo'].rstrip() + '\n'
    open(f'{out}/demo.rs', 'w').write(demo)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
    open(f'{out}/meta.json', 'a').write('\n')
    return True

if __name__ == '__main__':
    want = sys.argv[1:] or list(SEEDS)
    bad = [i for i in want if not make(i, SEEDS[i])]
    print(f'{len(want)-len(bad)} built', bad or '')
