//! Whole descriptions: generator, rendering in any presentation, respelling, mutation, and lines
//! that are unsupported or broken.

use crate::dict;
use crate::engine::Src;
use crate::gen::{self, Env, GAttr, Meta};

#[derive(Clone, Debug)]
pub struct L {
    pub ty: char,
    pub val: String,
    /// the projection of the value
    pub canon: String,
    /// kind of attribute, "" for another line
    pub kind: &'static str,
    pub printed: bool,
    /// 0 for the session part, else number of the media section
    pub sec: usize,
    pub meta: Meta,
}
impl L {
    pub fn new(ty: char, val: String, canon: String) -> L {
        L { ty, val, canon, kind: "", printed: true, sec: 0, meta: Meta::None }
    }
    pub fn attr(s: &mut Src, g: &GAttr) -> L {
        L { ty: 'a', val: g.spelled(s), canon: format!("a {}", g.canon), kind: g.kind, printed: g.printed, sec: 0, meta: g.meta.clone() }
    }
    pub fn raw(text: &str) -> L {
        let (t, v) = text.split_once('=').unwrap();
        L::new(t.chars().next().unwrap(), v.to_string(), String::new())
    }
    pub fn text(&self) -> String {
        format!("{}={}", self.ty, self.val)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sess {
    pub lines: Vec<L>,
    pub media: usize,
}

#[derive(Clone)]
pub struct Opt {
    pub max_media: u64,
    pub max_attrs: u64,
    /// only attributes the kind filter accepts
    pub kinds: Option<fn(&str) -> bool>,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { max_media: 30, max_attrs: 120, kinds: None }
    }
}

fn session_name(s: &mut Src) -> (String, String) {
    match s.below(6) {
        0 | 1 => ("-".into(), "s Some(\"-\")".into()),
        2 => {
            let w = (*s.pick(&["", " ", "  ", "\t"])).to_string();
            (w, "s None".into())
        }
        _ => {
            let t = gen::text(s);
            let w = match s.below(6) {
                0 => format!(" {t}"),
                1 => format!("{t} "),
                _ => t.clone(),
            };
            (w, format!("s Some({t:?})"))
        }
    }
}

pub fn session(s: &mut Src, opt: &Opt) -> Sess {
    let mut lines: Vec<L> = vec![L::new('v', "0".into(), "v 0".into())];
    let (w, c) = gen::origin(s);
    lines.push(L::new('o', w, format!("o {c}")));
    let (w, c) = session_name(s);
    lines.push(L::new('s', w, c));
    let n_media = if s.pct(10) { 0 } else { gen::count(s, 1, 3, opt.max_media) };
    // where extmap may stand
    let ext_media = s.flip();
    let all_media_conn = n_media == 0 || s.pct(35);
    let mut body: Vec<L> = vec![];
    let (a, b) = (gen::u64v(s), gen::u64v(s));
    body.push(L::new('t', if s.pct(15) { format!("{a}  {b}") } else { format!("{a} {b}") }, format!("t {a} {b}")));
    if !all_media_conn || s.pct(30) {
        let (w, c) = gen::connection(s);
        body.push(L::new('c', w, format!("c {c}")));
    }
    for _ in 0..(if s.pct(60) { 0 } else { gen::count(s, 1, 3, 40) }) {
        let (w, c) = gen::bandwidth(s);
        body.push(L::new('b', w, format!("b {c}")));
    }
    let kinds: Vec<&'static str> = gen::all_kinds()
        .into_iter()
        .filter(|k| gen::session_ok(k) && (*k != "extmap" || !ext_media) && opt.kinds.map_or(true, |f| f(k)))
        .collect();
    if !kinds.is_empty() {
        for _ in 0..gen::count(s, 0, 4, opt.max_attrs) {
            let l = s.part(8, |s| {
                let k = *s.pick(&kinds);
                let g = gen::attr(s, k, &Env::default());
                L::attr(s, &g)
            });
            body.push(l);
        }
    }
    s.shuffle(&mut body);
    lines.extend(body);
    for m in 1..=n_media {
        let mut v = media(s, opt, ext_media, all_media_conn);
        for l in v.iter_mut() {
            l.sec = m;
        }
        lines.extend(v);
    }
    let mut x = Sess { lines, media: n_media };
    if s.pct(20) {
        repeat(s, opt, &mut x);
    }
    x
}

/// lines that stand in the description once more, in the same section or another, or a whole section again
fn repeat(s: &mut Src, opt: &Opt, x: &mut Sess) {
    if x.media > 0 && (x.media as u64) < opt.max_media && s.pct(20) {
        let from = s.range(1, x.media as u64) as usize;
        let to = s.range(1, x.media as u64 + 1) as usize;
        let copy: Vec<L> = x.lines.iter().filter(|l| l.sec == from).cloned().collect();
        for l in x.lines.iter_mut().filter(|l| l.sec >= to) {
            l.sec += 1;
        }
        let at = x.lines.iter().position(|l| l.sec > to).unwrap_or(x.lines.len());
        x.media += 1;
        x.lines.splice(at..at, copy.into_iter().map(|mut l| {
            l.sec = to;
            l
        }));
    }
    let ext_media = x.lines.iter().any(|l| l.kind == "extmap" && l.sec > 0);
    let ext_session = x.lines.iter().any(|l| l.kind == "extmap" && l.sec == 0);
    for _ in 0..s.range(1, 3) {
        let attrs: Vec<usize> = (0..x.lines.len()).filter(|i| x.lines[*i].ty == 'a').collect();
        if attrs.is_empty() {
            return;
        }
        let mut l = x.lines[*s.pick(&attrs)].clone();
        let same = x.media == 0 || s.flip();
        let to = if same { l.sec } else { s.below(x.media as u64 + 1) as usize };
        let fits = to == l.sec
            || match l.kind {
                "rid" | "simulcast" | "rtcp-mux-only" => false,
                "extmap" => if to == 0 { !ext_media } else { !ext_session },
                k => if to == 0 { gen::session_ok(k) } else { gen::media_ok(k) },
            };
        if !fits {
            continue;
        }
        l.sec = to;
        // anywhere behind the lines that must come first
        let first = x.lines.iter().position(|y| y.sec == to).unwrap_or(0) + if to == 0 { 3 } else { 1 };
        let last = x.lines.iter().position(|y| y.sec > to).unwrap_or(x.lines.len());
        let at = s.range(first as u64, last as u64) as usize;
        x.lines.insert(at, l);
    }
}

pub fn media(s: &mut Src, opt: &Opt, ext_media: bool, need_conn: bool) -> Vec<L> {
    let m = gen::mline(s);
    let mut env = Env { rid_pts: Some(m.rid_pts.clone()), pts: m.pts.clone(), ctx: true, ..Env::default() };
    let mut body: Vec<L> = vec![];
    if need_conn || s.pct(40) {
        let (w, c) = gen::connection(s);
        body.push(L::new('c', w, format!("c {c}")));
    }
    for _ in 0..(if s.pct(60) { 0 } else { gen::count(s, 1, 3, 40) }) {
        let (w, c) = gen::bandwidth(s);
        body.push(L::new('b', w, format!("b {c}")));
    }
    let ok = |k: &str| opt.kinds.map_or(true, |f| f(k));
    let n_rid = if s.pct(65) || !ok("rid") { 0 } else { gen::count(s, 1, 3, 20) };
    for _ in 0..n_rid {
        let id = gen::rid_id(s);
        let dir = *s.pick(&["send", "recv"]);
        let g = gen::rid_with(s, &env, &id, Some(dir));
        let l = L::attr(s, &g);
        body.push(l);
        if dir == "send" {
            env.send_rids.push(id);
        } else {
            env.recv_rids.push(id);
        }
    }
    if n_rid > 0 && s.pct(60) && ok("simulcast") {
        let n = if s.pct(85) { 1 } else { 2 };
        for _ in 0..n {
            let g = gen::simulcast(s, &env);
            let l = L::attr(s, &g);
            body.push(l);
        }
    }
    let kinds: Vec<&'static str> = gen::all_kinds()
        .into_iter()
        .filter(|k| gen::media_ok(k) && *k != "rid" && *k != "simulcast" && (*k != "extmap" || ext_media) && ok(k))
        .collect();
    if !kinds.is_empty() {
        for _ in 0..gen::count(s, 0, 8, opt.max_attrs) {
            let l = s.part(8, |s| {
                let k = *s.pick(&kinds);
                let g = gen::attr(s, k, &env);
                L::attr(s, &g)
            });
            body.push(l);
        }
    }
    if body.iter().any(|l| l.kind == "rtcp-mux-only") && !body.iter().any(|l| l.kind == "rtcp-mux") {
        let l = L::attr(s, &gen::flag("rtcp-mux"));
        body.push(l);
    }
    s.shuffle(&mut body);
    let mut v = vec![mline_l(m)];
    v.extend(body);
    v
}

pub fn mline_l(m: gen::GMline) -> L {
    let mut l = L::new('m', m.wire, format!("M {}", m.canon));
    l.meta = Meta::Media { formats: m.formats };
    l
}

impl Sess {
    /// what parsing must give, as `proj::session`
    pub fn canon(&self, norm: bool) -> Vec<String> {
        let mut out = vec![];
        let mut secs: Vec<Vec<&L>> = vec![vec![]; self.media + 1];
        for l in &self.lines {
            secs[l.sec].push(l);
        }
        for ls in secs {
            for t in ['v', 'o', 's', 't', 'm', 'c', 'b', 'a'] {
                for l in ls.iter().filter(|l| l.ty == t) {
                    if norm && !l.printed {
                        continue;
                    }
                    out.push(l.canon.clone());
                }
            }
        }
        out
    }
    pub fn texts(&self) -> Vec<String> {
        self.lines.iter().map(|l| l.text()).collect()
    }
    pub fn plain(&self) -> String {
        plain(&self.texts())
    }
    /// first line of the media part
    pub fn first_media(&self) -> usize {
        self.lines.iter().position(|l| l.ty == 'm').unwrap_or(self.lines.len())
    }
}

pub fn plain(v: &[String]) -> String {
    let mut r = String::new();
    for l in v {
        r.push_str(l);
        r.push_str("\r\n");
    }
    r
}

/// renders lines with random line endings, blank lines and padding; gives the text and the
/// zero-based number and the exact text of every line
pub fn present(s: &mut Src, v: &[String]) -> (String, Vec<(usize, String)>) {
    let mut out = String::new();
    let mut at = vec![];
    let mut n = 0;
    let eol_mode = s.below(3);
    let blanks = s.below(3);
    let pads = s.below(3);
    let eol = |s: &mut Src| match eol_mode {
        0 => "\r\n",
        1 => "\n",
        _ => *s.pick(&["\r\n", "\n"]),
    };
    let blank = |s: &mut Src, out: &mut String, n: &mut usize| {
        if blanks > 0 && s.pct(if blanks == 1 { 8 } else { 35 }) {
            for _ in 0..s.range(1, 3) {
                out.push_str(s.pick(&["", "", " ", "\t", "  \t"]));
                out.push_str(eol(s));
                *n += 1;
            }
        }
    };
    for (i, l) in v.iter().enumerate() {
        blank(s, &mut out, &mut n);
        let t = if pads > 0 && s.pct(if pads == 1 { 15 } else { 50 }) { pad(s, l) } else { l.clone() };
        out.push_str(&t);
        at.push((n, t));
        n += 1;
        if i + 1 < v.len() || s.pct(70) {
            out.push_str(eol(s));
            if i + 1 == v.len() {
                blank(s, &mut out, &mut n);
            }
        }
    }
    (out, at)
}

/// blanks around the line, its type letter and its value; other letter case of the type
pub fn pad(s: &mut Src, l: &str) -> String {
    const P: &[&str] = &["", "", " ", "  ", "\t"];
    match l.split_once('=') {
        Some((t, v)) if t.len() == 1 => {
            let t = if s.pct(30) { t.to_uppercase() } else { t.to_string() };
            format!("{}{}{}={}{}{}", s.pick(P), t, s.pick(P), s.pick(P), v, s.pick(P))
        }
        _ => l.to_string(),
    }
}

/// another spelling of the words of a line that are documented to be case-insensitive
pub fn respell(s: &mut Src, l: &str) -> String {
    let (t, v) = match l.split_once('=') {
        Some(x) => x,
        None => return l.to_string(),
    };
    if t.trim().chars().count() != 1 {
        return l.to_string();
    }
    let t2 = gen::rcase(s, t);
    let tl = t.trim().to_ascii_lowercase();
    let nv = match tl.as_str() {
        "o" => words(s, v, &[3, 4], 5),
        "c" => words(s, v, &[0, 1], 2),
        "m" => words(s, v, &[0, 2], usize::MAX),
        "b" => match v.split_once(':') {
            Some((a, b)) if ["AS", "CT", "TIAS"].contains(&a.trim().to_ascii_uppercase().as_str()) => format!("{}:{b}", gen::rcase(s, a)),
            _ => v.to_string(),
        },
        "a" => match v.split_once(':') {
            None => gen::rcase(s, v),
            Some((n, val)) => {
                let key = n.trim().to_ascii_lowercase();
                let n2 = gen::rcase(s, n);
                let val = match key.as_str() {
                    "candidate" => {
                        let k = val.split_whitespace().count();
                        let mut idx = vec![2, 6, 7];
                        let toks: Vec<String> = val.split_whitespace().map(|x| x.to_ascii_lowercase()).collect();
                        let mut i = 8;
                        while i + 1 < k {
                            if gen::CAND_EXT.contains(&toks[i].as_str()) {
                                idx.push(i);
                                if toks[i] == "tcptype" {
                                    idx.push(i + 1);
                                }
                            }
                            i += 2;
                        }
                        words(s, val, &idx, 4)
                    }
                    "rtcp" => words(s, val, &[1, 2], 3),
                    "group" | "ssrc-group" | "setup" => words(s, val, &[0], usize::MAX),
                    "sctpmap" => words(s, val, &[1], usize::MAX),
                    "fingerprint" => words(s, val, &[1], usize::MAX),
                    "extmap" => words(s, val, &[0], usize::MAX),
                    "fmtp" => match val.trim_start().split_once(' ') {
                        Some((pt, ps)) if ps.contains('=') => {
                            let v: Vec<String> = ps
                                .split(';')
                                .map(|p| match p.split_once('=') {
                                    Some((n, x)) if gen::FMTP.iter().any(|f| f.0.eq_ignore_ascii_case(n.trim_start())) => format!("{}={x}", gen::rcase(s, n)),
                                    _ => p.to_string(),
                                })
                                .collect();
                            format!("{pt} {}", v.join(";"))
                        }
                        _ => val.to_string(),
                    },
                    _ => val.to_string(),
                };
                format!("{n2}:{val}")
            }
        },
        _ => v.to_string(),
    };
    format!("{t2}={nv}")
}
/// changes the case of the words with these numbers, and of host names at word `host`
fn words(s: &mut Src, v: &str, idx: &[usize], host: usize) -> String {
    let mut out = String::new();
    let mut n = 0;
    let mut rest = v;
    while !rest.is_empty() {
        let ws = rest.len() - rest.trim_start_matches([' ', '\t']).len();
        out.push_str(&rest[..ws]);
        rest = &rest[ws..];
        let e = rest.find([' ', '\t']).unwrap_or(rest.len());
        let w = &rest[..e];
        if idx.contains(&n) || (n == host && w.is_ascii()) {
            out.push_str(&gen::rcase(s, w));
        } else {
            out.push_str(w);
        }
        rest = &rest[e..];
        n += 1;
    }
    out
}

// ---------------------------------------------------------------------------------------------
// unsupported lines: (text, class)

pub fn unsupported(s: &mut Src) -> (String, &'static str) {
    let known: Vec<&str> = gen::all_kinds();
    match s.below(12) {
        0..=3 => {
            let mut n = match s.below(4) {
                0 => (*s.pick(&["rtcp-xr", "crypto", "ssrc-foo", "x-google-flag", "conference", "quality", "tool", "charset", "sdplang", "cat", "msid2", "rtcpmux"])).to_string(),
                // near misses of known names
                1 => {
                    let k = *s.pick(&known);
                    match s.below(4) {
                        0 => format!("{k}x"),
                        1 => k[..k.len() - 1].to_string(),
                        2 => k.replace('-', "_") + "_",
                        _ => format!("x-{k}"),
                    }
                }
                _ => gen::token_of(s, &|c| c != ':'),
            };
            if known.contains(&n.to_lowercase().as_str()) {
                n.push('x');
                if known.contains(&n.to_lowercase().as_str()) {
                    n.push('y');
                }
            }
            let l = if s.flip() { format!("a={n}") } else { format!("a={n}:{}", gen::text(s)) };
            (l, "unknown attribute")
        }
        4 => {
            let m = match s.below(3) {
                0 => near(s, &["audio", "video", "application"]),
                _ => (*s.pick(&["text", "message", "image", "audiox", "vide", "data", "control", "*"])).to_string(),
            };
            // what follows an unknown type is not known either, but its port and protocol are right
            let f = if s.flip() { "0".to_string() } else { tail(s, 1) };
            (format!("m={m} {} {} {f}", gen::port(s), s.pick(gen::PROTOS)), "unknown media type")
        }
        5 => {
            let p = match s.below(3) {
                0 => near(s, gen::PROTOS),
                _ => (*s.pick(&["udp", "RTP/AVPX", "RTP", "UDP/TLS", "TCP/MSRP", "SCTP", "DTLS/SCTP/X", "RTP/SAVPF/", "udptl", "UDP/TLS/RTP/AVP"])).to_string(),
            };
            let m = *s.pick(&["audio", "video", "application"]);
            let m = gen::rcase(s, m);
            let c = if s.pct(15) { format!("/{}", gen::u32v(s)) } else { String::new() };
            let f = if m.eq_ignore_ascii_case("application") && s.flip() { tail(s, 1) } else { "0".to_string() };
            (format!("m={m} {}{c} {p} {f}", gen::port(s)), "unknown protocol")
        }
        6 => {
            let g = match s.below(3) {
                0 => near(s, &["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"]),
                _ => (*s.pick(&["CS", "LSX", "FEC-FR", "DUP", "X", "BUNDLES", "SIM"])).to_string(),
            };
            let t = if s.flip() { "a b".to_string() } else { tail(s, 0) };
            (format!("a=group:{g} {t}").trim_end().to_string(), "unknown group semantic")
        }
        7 => {
            let g = match s.below(3) {
                0 => near(s, &["DUP", "FID", "FEC", "FEC-FR", "SIM"]),
                _ => (*s.pick(&["LS", "X", "FIDX", "BUNDLE", "FEC_FR", "FECFR"])).to_string(),
            };
            let n = gen::count(s, 1, 3, 20);
            let t: Vec<String> = (0..n).map(|_| gen::u32v(s).to_string()).collect();
            (format!("a=ssrc-group:{g} {}", t.join(" ")), "unknown ssrc-group semantic")
        }
        8 => {
            let pt = if s.flip() { "*".to_string() } else { s.below(256).to_string() };
            let f = match s.below(4) {
                0 => (*s.pick(&["ack", "ack sli", "ack pli", "nack fir", "nack x", "ccm pli", "ccm x", "goog-remb x", "transport-cc 1", "x", "google", "NACK", "nackx", "goog-lntf"])).to_string(),
                // another type, with or without parameters
                1 => {
                    let ty = near_exact(s, &["ack", "ccm", "nack", "trr-int", "goog-remb", "transport-cc"]);
                    let t = tail(s, 0);
                    format!("{ty} {t}").trim_end().to_string()
                }
                // another parameter of a known type
                _ => {
                    let (ty, known): (&str, &[&str]) =
                        *s.pick(&[("ack", &["rpsi", "app"] as &[&str]), ("ccm", &["fir", "tmmbr", "tstr", "vbcm"]), ("nack", &["sli", "pli", "rpsi", "app"])]);
                    let p = near_exact(s, known);
                    let t = tail(s, 0);
                    format!("{ty} {p} {t}").trim_end().to_string()
                }
            };
            (format!("a=rtcp-fb:{pt} {f}"), "unknown rtcp-fb")
        }
        9 => {
            const H: &[&str] = &["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"];
            let h = match s.below(3) {
                0 => near(s, H),
                _ => (*s.pick(&["md5", "md2", "sha-3", "sha256", "sha-2", "sha-512/256", "sha-1x", "x"])).to_string(),
            };
            // how an unknown hash is written is not known
            let v = match s.below(4) {
                0 => "00:11:22".to_string(),
                1 => {
                    let n = gen::count(s, 1, 32, 100);
                    let sep = *s.pick(&[":", ":", "", "-"]);
                    gen::fp_bytes(s, n).iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(sep)
                }
                _ => gen::token(s),
            };
            (format!("a=fingerprint:{h} {v}"), "unknown hash")
        }
        10 => {
            let x = match s.below(3) {
                0 => (*s.pick(&["raddr", "generation", "foo", "rport", "foo 1 bar", "ufrag", "tcptype"])).to_string(),
                1 => gen::rcase(s, "generation"),
                _ => gen::token(s),
            };
            let c = if s.flip() { "1 1 UDP 1 10.0.0.1 9 typ host".to_string() } else { gen::attr(s, "candidate", &Env::default()).val.unwrap_or_default() };
            (format!("a=candidate:{c} {x}"), "candidate extension without value")
        }
        _ => (format!("a=fmtp:{}", s.below(256)), "fmtp without parameters"),
    }
}

/// a token that is none of the words but at times nearly one of them, in any letter case
fn near(s: &mut Src, words: &[&str]) -> String {
    let t = near_exact(s, words);
    if words.iter().any(|w| w.to_lowercase() == t.to_lowercase() || w.to_uppercase() == t.to_uppercase()) {
        t + "x"
    } else {
        t
    }
}
/// the same where the letter case of the words counts
fn near_exact(s: &mut Src, words: &[&str]) -> String {
    let w = *s.pick(words);
    let t = match s.below(6) {
        0 => format!("{w}{}", s.pick(&["x", "1", "-", "/", ".", "\u{e9}"])),
        1 => w[..w.len() - 1].to_string(),
        2 => format!("x{w}"),
        3 => w.replace('-', "_") + "_",
        4 => gen::rcase(s, w),
        _ => gen::token(s),
    };
    if t.is_empty() || words.contains(&t.as_str()) {
        t + "x"
    } else {
        t
    }
}
/// at least `min` tokens
fn tail(s: &mut Src, min: u64) -> String {
    let n = gen::count(s, min, 3, 40);
    let v: Vec<String> = (0..n).map(|_| gen::token(s)).collect();
    v.join(" ")
}

// ---------------------------------------------------------------------------------------------
// mutation

fn boundary(s: &mut Src, t: &str) -> usize {
    let mut i = s.idx(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

const NASTY: &[&str] = &[
    "", " ", "  ", "\t", "\r", "\0", "=", ":", "::", ";", ",", ",,", "/", "//", "[", "]", "[]", "[[", "]]", "~", "*", "-", "--", "+1", "-1", "0", "00", "1.", ".5",
    "1e9", "NaN", "inf", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "65535", "65536", "255", "256",
    "99999999999999999999999999", "0x1", "é", "İ", "ß", "\u{212a}", "\u{2028}", "\u{a0}", "🙂", "\u{feff}", "\u{0}", "\u{7f}", "pt=", "rid=", "x=", "q=",
];

/// changes `t` in one place
pub fn mutate_once(s: &mut Src, t: &mut String) {
    match s.below(15) {
        14 => separators(s, t),
        // lines
        0..=3 => {
            let mut v: Vec<String> = t.lines().map(|x| x.to_string()).collect();
            if v.is_empty() {
                return;
            }
            let i = s.idx(v.len());
            match s.below(6) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    let j = s.idx(v.len() + 1);
                    v.insert(j, x);
                }
                2 => {
                    let j = s.idx(v.len());
                    v.swap(i, j);
                }
                3 => {
                    let x = some_line(s);
                    v.insert(i, x);
                }
                4 => {
                    let x = some_line(s);
                    v[i] = x;
                }
                _ => {
                    v.truncate(i);
                }
            }
            *t = plain(&v);
        }
        // tokens of a line
        4..=8 => {
            let mut v: Vec<String> = t.lines().map(|x| x.to_string()).collect();
            if v.is_empty() {
                return;
            }
            let i = s.idx(v.len());
            let seps: &[char] = *s.pick(&[&[' '] as &[char], &[' '], &[':', ' '], &[' ', ';', ',', '/', '=', ':', '[', ']']]);
            // split keeping the separators
            let mut toks: Vec<String> = vec![String::new()];
            for c in v[i].chars() {
                if seps.contains(&c) {
                    toks.push(c.to_string());
                    toks.push(String::new());
                } else {
                    toks.last_mut().unwrap().push(c);
                }
            }
            let k = s.idx(toks.len());
            match s.below(6) {
                0 => {
                    toks.remove(k);
                }
                1 => {
                    let x = toks[k].clone();
                    toks.insert(k, x);
                }
                2 => {
                    let j = s.idx(toks.len());
                    toks.swap(k, j);
                }
                3 => toks[k] = (*s.pick(NASTY)).to_string(),
                4 => toks[k] = gen::token(s),
                _ => toks.truncate(k),
            }
            v[i] = toks.concat();
            *t = plain(&v);
        }
        // digits
        12 | 13 => {
            let at: Vec<usize> = t.bytes().enumerate().filter(|x| x.1.is_ascii_digit()).map(|x| x.0).collect();
            if at.is_empty() {
                return;
            }
            let i = *s.pick(&at);
            let n = s.range(1, 6);
            let d: String = (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            match s.below(4) {
                0 => t.replace_range(i..=i, &d),
                1 => t.insert_str(i, &d),
                2 => t.insert_str(i + 1, &format!(".{d}")),
                _ => t.insert_str(i + 1, &d),
            }
        }
        // characters
        9 => {
            let i = boundary(s, t);
            let x = *s.pick(NASTY);
            t.insert_str(i, x);
        }
        10 => {
            let i = boundary(s, t);
            let mut j = (i + s.range(1, 4) as usize).min(t.len());
            while !t.is_char_boundary(j) {
                j += 1;
            }
            t.replace_range(i..j, "");
        }
        _ => {
            let d = dict::dict();
            let i = boundary(s, t);
            if !d.strings.is_empty() {
                let x = s.pick(&d.strings).clone();
                t.insert_str(i, &x);
            }
        }
    }
}

/// blanks around a separator, a separator twice, an empty or blank element beside it
pub fn separators(s: &mut Src, t: &mut String) {
    let at: Vec<usize> = t.bytes().enumerate().filter(|x| b",;:/=~ []-".contains(&x.1)).map(|x| x.0).collect();
    if at.is_empty() {
        return;
    }
    let i = *s.pick(&at);
    let c = t.as_bytes()[i] as char;
    let b = *s.pick(&[" ", "\t", "  ", " \t", "\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\u{85}"]);
    match s.below(9) {
        0 => t.insert_str(i, b),
        1 => t.insert_str(i + 1, b),
        2 => t.insert_str(i, &format!("{b}{c}")),
        3 => t.insert_str(i, &format!("{c}{b}")),
        4 => t.insert(i, c),
        5 => t.replace_range(i..=i, b),
        // at the end of the line
        n => {
            let e = t[i..].find(['\r', '\n']).map(|x| x + i).unwrap_or(t.len());
            match n {
                6 => t.insert(e, c),
                7 => t.insert_str(e, &format!("{b}{c}")),
                _ => t.insert_str(e, &format!("{c}{b}{c}")),
            }
        }
    }
}

/// some line of a description, mostly a valid one
pub fn some_line(s: &mut Src) -> String {
    match s.below(10) {
        0..=4 => {
            let kinds = gen::all_kinds();
            let k = *s.pick(&kinds);
            format!("a={}", gen::attr(s, k, &Env::default()).plain())
        }
        5 => unsupported(s).0,
        6 => match s.below(6) {
            0 => "v=0".into(),
            1 => format!("o={}", gen::origin(s).0),
            2 => format!("s={}", gen::text(s)),
            3 => "t=0 0".into(),
            4 => format!("c={}", gen::connection(s).0),
            _ => format!("b={}", gen::bandwidth(s).0),
        },
        7 => format!("m={}", gen::mline(s).wire),
        8 => {
            let sm = dict::samples();
            if sm.is_empty() {
                return "a=x".into();
            }
            let f = s.pick(sm);
            let ls: Vec<&str> = f.lines().filter(|l| !l.is_empty()).collect();
            if ls.is_empty() {
                "a=y".into()
            } else {
                (*s.pick(&ls)).to_string()
            }
        }
        _ => crate::invalid::line(s).0,
    }
}

/// a description to start mutating from
pub fn base(s: &mut Src) -> String {
    match s.below(10) {
        0 | 1 => {
            let sm = dict::samples();
            if sm.is_empty() {
                String::new()
            } else {
                s.pick(sm).clone()
            }
        }
        2 => {
            // one attribute in the smallest description around it
            let kinds = gen::all_kinds();
            let k = *s.pick(&kinds);
            let a = gen::attr(s, k, &Env::default()).plain();
            minimal(&format!("a={a}"), gen::session_ok(k) && (!gen::media_ok(k) || s.flip()))
        }
        _ => session(s, &Opt { max_media: 6, max_attrs: 40, kinds: None }).plain(),
    }
}

pub const HEAD: &str = "v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n";
/// the line in a small valid description
pub fn minimal(line: &str, at_session: bool) -> String {
    if at_session {
        format!("{HEAD}{line}\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\n")
    } else {
        format!("{HEAD}m=video 9 UDP/TLS/RTP/SAVPF 96\r\n{line}\r\n")
    }
}

/// a text that was a description before a few changes
pub fn mutated(s: &mut Src) -> String {
    let mut t = base(s);
    let n = match s.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => s.range(2, 5),
        _ => s.range(3, 12),
    };
    for _ in 0..n {
        mutate_once(s, &mut t);
    }
    if s.pct(15) {
        let v: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        t = present(s, &v).0;
    }
    t
}

/// any text at all
pub fn garbage(s: &mut Src) -> String {
    let n = gen::count(s, 0, 20, 300);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(8) {
            0 => t.push_str(s.pick(NASTY)),
            1 => t.push('\n'),
            2 => {
                let c = s.below(0x11_0000) as u32;
                t.push(char::from_u32(c).unwrap_or('\u{fffd}'));
            }
            3 => {
                let d = dict::dict();
                if !d.strings.is_empty() {
                    t.push_str(s.pick(&d.strings));
                }
            }
            4 => t.push_str(s.pick(&["a=", "m=", "v=0\n", "o=", "s=", "t=", "c=", "b=", "\na=", ":", " ", "=", "\r\n"])),
            5 => t.push_str(&some_line(s)),
            6 => t.push(s.below(128) as u8 as char),
            _ => t.push_str(&gen::token(s)),
        }
    }
    t
}
