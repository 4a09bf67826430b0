#!/usr/bin/env python3
"""mutate.py gen DIR COUNT [SEED]: writes COUNT random one-place changes of /repo's sources to DIR/NNNN.diff
   mutate.py run DIR WORKERS: for each, in scratch copies: build and test as /opt/vp does; those that pass all
   tests are given to all checks, at a small scale first, and the outcome goes to DIR/results.jsonl.
How the checks do on changes that nobody chose.  Not part of any check."""
import json, os, random, re, subprocess, sys, difflib, threading, shutil, signal

REPO = '/repo'
FILES = ['address', 'anonymizer', 'attribute_type', 'error', 'lib', 'media_type', 'network']
SUBS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' < ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '),
    (r'\bif (?!let\b)(?!!)([^{]+?) \{', r'if !(\1) {'), (r'\bif (?!let\b)([^{]+?) \{', 'if true {'), (r'\bif (?!let\b)([^{]+?) \{', 'if false {'),
    (r' \+ ', ' - '), (r' - ', ' + '), (r'\.trim\(\)', ''), (r'\.trim_start\(\)', ''), (r'\.trim_end\(\)', ''),
    (r'\.trim\(\)', '.trim_start()'), (r'\.trim\(\)', '.trim_end()'),
    (r'\.to_lowercase\(\)', '.to_string()'), (r'\.to_uppercase\(\)', '.to_string()'), (r'\.to_lowercase\(\)', '.to_uppercase()'),
    (r'eq_ignore_ascii_case\(([^)]*)\)', r'eq(\1)'), (r'splitn\((\d)', lambda m: f'splitn({int(m[1])+1}'), (r'splitn\((\d)', lambda m: f'splitn({int(m[1])-1}'),
    (r'\.splitn\((\d)', r'.rsplitn(\1'), (r'\.split\(', '.rsplit('), (r'\.find\(', '.rfind('), (r'\.split_once\(', '.rsplit_once('), (r'\.rsplit_once\(', '.split_once('),
    (r'split_whitespace\(\)', "split(' ')"), (r'\.starts_with\(', '.contains('), (r'\.starts_with\(', '.ends_with('), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'),
    (r'\.pop\(\)', '.first().cloned()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
    (r'([\w.\[\]]+)\.is_empty\(\)', r'(\1.len() == 1)'), (r'!([\w.\[\]]+)\.is_empty\(\)', r'(\1.len() > 1)'),
    (r'\.next\(\)', '.nth(1)'), (r'\.skip\(1\)', ''), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().take(8)'),
    (r'\.into_iter\(\)', '.into_iter().rev()'), (r'\.drain\(\.\.\)', '.drain(1..)'), (r'\.enumerate\(\)', '.enumerate().skip(1)'), (r'\.\.=', '..'), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
    (r'\.filter\(\|[^|]*\|[^)]*\)+', ''), (r'\.map\(str::trim\)', ''), (r'\.push\(', '.insert(0, '), (r'\.extend\(', '.splice(0..0, '),
    (r'u8>', 'u16>'), (r'u16>', 'u32>'), (r'u32>', 'u64>'), (r'u64>', 'u32>'), (r'u32>', 'u16>'), (r'u16>', 'u8>'), (r'i32>', 'u32>'), (r'f32>', 'f64>'),
    (r'Some\(([\w.]+)\)', 'None'), (r'Ok\(([^()]*)\)$', r'Ok(\1)'), (r'\.unwrap_or\(([^()]*)\)', '.unwrap_or_default()'), (r'\.cloned\(\)', '.cloned()'),
    (r"' '", r"'\\t'"), (r"','", "';'"), (r"';'", "','"), (r"':'", "'='"), (r"'='", "':'"), (r"'/'", "','"), (r"'-'", "'/'"),
    (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'insert\(', 'remove(&'), (r'wrapping_add', 'saturating_add'), (r'checked_add', 'checked_sub'),
    (r'IpV4', 'IpV6'), (r'IpV6', 'IpV4'), (r'V4\(', 'V6('), (r'Integers', 'Strings'), (r'allowed_at_media_level', 'allowed_at_session_level'), (r'allowed_at_session_level', 'allowed_at_media_level'),
    (r'Unsupported\(', 'Generic('), (r'Generic\(', 'Unsupported('), (r'fail_on_warning', '!fail_on_warning'),
]

def code_lines(t):
    """(index, line) of lines of code"""
    out = []
    comment = False
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            comment = '*/' not in s
            continue
        if re.match(r'(trace|debug|warn|info)!', s):
            continue
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or 'cfg(test)' in l or s.startswith('mod tests') or s.startswith('#[path'):
            continue
        out.append(i)
    return out

def candidates(t):
    c = []
    idx = code_lines(t)
    for i in idx:
        l = t[i]
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():] if isinstance(rep, str) else l[:m.start()] + rep(m) + l[m.end():]
                c.append((i, i + 1, [new], pat))
        for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.]*\w)', l):
            n = int(m[1])
            for k in ({n + 1, n - 1, n * 2, 0} - {n}):
                if k >= 0:
                    c.append((i, i + 1, [l[:m.start()] + str(k) + l[m.end():]], 'int'))
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', l):
            w = m[1]
            alts = {w[:-1], w[1:], w + ' ', w.replace(' ', ''), w.upper(), w.swapcase(), w.replace(';', ','), w.replace('\\r\\n', '\\n'), w.replace('-', '_')} - {w}
            for a in alts:
                if a.endswith('\\'):
                    continue
                c.append((i, i + 1, [l[:m.start(1)] + a + l[m.end(1):]], 'str'))
        s = l.strip()
        if s.endswith(';') and not re.match(r'(let|return|use|pub|const|static|break|continue|type)\b', s) and re.match(r'[a-z_*(]', s) and '{' not in s:
            for _ in range(6):
                c.append((i, i + 1, [], 'delete'))
        # a match arm
        if re.match(r'\s+("[^"]*"|[A-Z]\w*(::\w+)+(\([^)]*\))?)( \| [^=]*)? => .*,\s*$', l):
            for _ in range(4):
                c.append((i, i + 1, [], 'arm'))
            if i + 1 < len(t) and re.match(r'\s+("[^"]*"|[A-Z]\w*(::\w+)+(\([^)]*\))?)( \| [^=]*)? => .*,\s*$', t[i + 1]):
                a, b = l.split(' => ', 1), t[i + 1].split(' => ', 1)
                for _ in range(3):
                    c.append((i, i + 2, [a[0] + ' => ' + b[1], b[0] + ' => ' + a[1]], 'swap arms'))
        # two fields given in a row
        m = re.match(r'(\s+)(\w+): (.+),\s*$', l)
        if m and i + 1 < len(t):
            n = re.match(r'(\s+)(\w+): (.+),\s*$', t[i + 1])
            if n:
                for _ in range(2):
                    c.append((i, i + 2, [f'{m[1]}{m[2]}: {n[3]},\n', f'{n[1]}{n[2]}: {m[3]},\n'], 'swap fields'))
        # two statements in a row
        if s.endswith(';') and i + 1 < len(t) and t[i + 1].strip().endswith(';') and not s.startswith('}'):
            c.append((i, i + 2, [t[i + 1], l], 'swap statements'))
    return c

def gen(d, count, seed):
    os.makedirs(d, exist_ok=True)
    r = random.Random(seed)
    allc = []
    for f in FILES:
        p = f'src/{f}.rs'
        t = open(f'{REPO}/{p}').read().splitlines(keepends=True)
        by = {}
        for x in candidates(t):
            by.setdefault(x[0], []).append(x)
        for i, xs in by.items():
            r.shuffle(xs)
            # a line counts as often as it has candidates, within limits
            for x in xs[:3]:
                allc.append((p, x))
    r.shuffle(allc)
    seen = set()
    n = 0
    for p, (i, j, new, kind) in allc:
        t = open(f'{REPO}/{p}').read().splitlines(keepends=True)
        u = t[:i] + new + t[j:]
        diff = ''.join(difflib.unified_diff(t, u, 'a/' + p, 'b/' + p))
        if not diff or diff in seen:
            continue
        seen.add(diff)
        open(f'{d}/{n:04}.diff', 'w').write(diff)
        n += 1
        if n == count:
            break
    print(len(allc), 'candidates,', n, 'written')

PROPS = [f'C{n:02}' for n in (3, 5, 7, 4, 6, 2, 14, 10, 12, 13, 9, 8, 11, 16, 15, 18, 17, 19, 20, 21, 1, 23, 24, 25, 26, 27, 28, 29, 22)]

def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e, start_new_session=True)
    try:
        o, _ = r.communicate(timeout=timeout)
        return r.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, signal.SIGKILL)
        r.communicate()
        return 124, 'timeout'

def setup(w):
    b = f'/tmp/mut/w{w}'
    sh(f'mkdir -p {b}/repo {b}/verif; cd /repo && tar cf - --exclude target . | tar xf - -C {b}/repo; cd /verif && tar cf - --exclude target tools harness probes known_findings.json | tar xf - -C {b}/verif')
    sh(f"sed -i 's#path = \"/repo\"#path = \"{b}/repo\"#' {b}/verif/harness/Cargo.toml {b}/verif/probes/*/Cargo.toml")
    return b

def one(b, patch, threads):
    repo = f'{b}/repo'
    sh('git checkout -q -- .', repo)
    rc, o = sh(f'git apply {patch}', repo)
    if rc:
        return {'state': 'no apply'}
    rc, o = sh('cargo test --workspace --all-features --no-run --offline && cargo build --offline --lib', repo)
    if rc:
        return {'state': 'no build'}
    rc, o = sh('cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 2', repo, 120)
    if rc:
        return {'state': 'tests fail'}
    rc, o = sh('''cargo build --example file_parser --all-features --offline || exit 1
sed -n 's/^ *- run: cargo run --example file_parser //p' .circleci/config.yml | while read -r f x; do timeout 30 target/debug/examples/file_parser "$f" $x >/dev/null 2>&1 </dev/null || { echo FAIL; exit 1; }; done''', repo, 200)
    if rc:
        return {'state': 'tests fail'}
    rc, o = sh('bash tools/run.sh build', f'{b}/verif')
    if rc:
        return {'state': 'harness no build', 'why': o[-600:]}
    for scale in ('0.03', '0.3'):
        for p in PROPS:
            if p == 'C22' and (scale == '0.03' or os.environ.get('NO_COST')):
                continue
            env = {'SDP_VERIF': f'{b}/verif', 'SDP_THREADS': str(threads), 'SDP_SCALE': scale, 'VERIF_SEED': '1', 'SDP_REPO': repo, 'SDP_SHRINK_S': '1', 'CARGO_NET_OFFLINE': 'true'}
            rc, o = sh(f'{b}/verif/harness/target/release/sdp-harness check {p}', f'{b}/verif', 900, env)
            if rc == 1 and 'VIOLATION' in o:
                return {'state': 'caught', 'by': p, 'scale': scale}
            if rc != 0:
                return {'state': 'no answer', 'by': p, 'why': o[-600:]}
    return {'state': 'missed'}

def run(d, workers):
    done = set()
    res = f'{d}/results.jsonl'
    if os.path.exists(res):
        done = {json.loads(l)['id'] for l in open(res)}
    todo = [f for f in sorted(os.listdir(d)) if f.endswith('.diff') and f[:-5] not in done]
    lock = threading.Lock()
    it = iter(todo)
    def work(w):
        b = setup(w)
        while True:
            with lock:
                f = next(it, None)
            if f is None:
                return
            r = one(b, f'{d}/{f}', max(1, 8 // workers))
            r['id'] = f[:-5]
            with lock:
                open(res, 'a').write(json.dumps(r) + '\n')
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]

if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    else:
        run(sys.argv[2], int(sys.argv[3]))
