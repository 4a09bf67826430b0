//! Generators of primitive values and of every attribute, each with the canonical projection the
//! parsed value must have.

use crate::dict::dict;
use crate::engine::{keep, Src};

// ---------------------------------------------------------------------------------------------
// primitives

pub fn int(s: &mut Src, lo: u64, hi: u64) -> u64 {
    let v = int_of(s, lo, hi);
    keep(&mut s.echo.ints, v);
    v
}
fn int_of(s: &mut Src, lo: u64, hi: u64) -> u64 {
    match s.below(11) {
        10 => {
            // one that has been used before, or nearly
            let n = s.echo.ints.len();
            if n == 0 {
                return lo;
            }
            let i = s.idx(n);
            let v = s.echo.ints[n - 1 - i];
            let v = match s.below(6) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                _ => v,
            };
            if v >= lo && v <= hi {
                v
            } else {
                lo + v % (hi - lo).saturating_add(1).max(1)
            }
        }
        0..=2 => lo + s.below((hi - lo).min(20).saturating_add(1)),
        3 | 4 => {
            let k = s.below(6);
            match k {
                0 => lo,
                1 => hi,
                2 => lo.saturating_add(1).min(hi),
                3 => hi.saturating_sub(1).max(lo),
                4 => hi - (hi - lo) / 2,
                _ => lo + s.below((hi - lo).saturating_add(1).max(1)),
            }
        }
        5 | 6 => {
            let p = 1u64 << s.below(64);
            let v = match s.below(3) {
                0 => p,
                1 => p.wrapping_sub(1),
                _ => p.wrapping_add(1),
            };
            if v >= lo && v <= hi {
                v
            } else {
                lo + v % (hi - lo).saturating_add(1).max(1)
            }
        }
        7 => {
            let d = dict();
            if d.ints.is_empty() {
                return lo;
            }
            let v = *s.pick(&d.ints);
            let v = match s.below(4) {
                0 => v.wrapping_sub(1),
                1 => v.wrapping_add(1),
                _ => v,
            };
            if v >= lo && v <= hi {
                v
            } else {
                lo + v % (hi - lo).saturating_add(1).max(1)
            }
        }
        8 => {
            // decimal shapes
            let digits = 1 + s.below(20);
            let mut v: u64 = 0;
            for _ in 0..digits {
                v = v.saturating_mul(10).saturating_add(s.below(10));
            }
            v.clamp(lo, hi)
        }
        _ => {
            if hi == u64::MAX && lo == 0 {
                s.full()
            } else {
                lo + s.below(hi - lo + 1)
            }
        }
    }
}
pub fn u8v(s: &mut Src) -> u8 {
    int(s, 0, 255) as u8
}
pub fn u32v(s: &mut Src) -> u32 {
    int(s, 0, u32::MAX as u64) as u32
}
pub fn u64v(s: &mut Src) -> u64 {
    int(s, 0, u64::MAX)
}
pub fn port(s: &mut Src) -> u32 {
    int(s, 0, 65535) as u32
}

/// how many elements a list has: mostly few, at times many, or a number the code mentions
pub fn count(s: &mut Src, min: u64, max_small: u64, max: u64) -> usize {
    let v = match s.below(20) {
        0..=15 => s.range(min, max_small.max(min)),
        16 | 17 => s.range(min, (max_small * 3).max(min).min(max)),
        18 => {
            let m = (s.size * max / 100).max(min).min(max);
            s.range(min, m)
        }
        _ => {
            let d = dict();
            if d.small.is_empty() || s.size < 40 {
                min
            } else {
                let v = *s.pick(&d.small) + s.below(3);
                v.saturating_sub(1)
            }
        }
    };
    v.clamp(min, max) as usize
}

/// changes the letter case of some ASCII letters
pub fn rcase(s: &mut Src, w: &str) -> String {
    match s.below(8) {
        0..=4 => w.to_string(),
        5 => w.to_ascii_uppercase(),
        6 => w.to_ascii_lowercase(),
        _ => w
            .chars()
            .map(|c| if s.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// separation between two tokens where any amount of blanks is allowed
pub fn gap(s: &mut Src) -> &'static str {
    match s.below(12) {
        0..=8 => " ",
        9 => "  ",
        10 => "\t",
        _ => " \t ",
    }
}

pub fn join_gap(s: &mut Src, v: &[String]) -> String {
    let mut r = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            r.push_str(gap(s));
        }
        r.push_str(x);
    }
    r
}

const ALNUM: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const PUNCT: &[char] = &[
    '-', '_', '.', '+', '/', '=', ':', ';', ',', '*', '~', '!', '#', '$', '%', '&', '\'', '(', ')', '<', '>', '?', '@', '[',
    '\\', ']', '^', '`', '{', '|', '}', '"',
];
const UNI: &[char] = &['é', 'ß', 'İ', 'ǆ', 'Ω', 'ж', '中', '文', '𝕊', '🙂', '\u{301}', '\u{200d}', '\u{feff}', '\u{7f}', '\u{1}'];

pub const WORDS: &[&str] = &[
    "a", "0", "1", "audio", "video", "data", "sdparta_0", "host", "udp", "raddr", "rport", "typ", "generation", "ufrag", "cname",
    "msid", "mslabel", "label", "send", "recv", "pt", "rid", "BUNDLE", "FID", "IN", "IP4", "IP6", "WMS", "opus", "VP8", "H264",
    "trickle", "ice2", "renomination", "*", "-", "--", "~", "127.0.0.1", "::1", "webrtc-datachannel", "apt", "sha-256", "0.0.0.0", "x",
    "inactive", "sendrecv", "active", "passive", "so", "tcptype", "client", "server", "paused", "depend", "network-id",
];

fn lengths(s: &mut Src) -> usize {
    match s.below(4) {
        0 => *s.pick(&[16usize, 22, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 512, 1024]),
        1 => {
            let d = dict();
            if d.small.is_empty() {
                40
            } else {
                (*s.pick(&d.small) + s.below(3)) as usize
            }
        }
        _ => s.range(8, 60) as usize,
    }
    .min(2100)
}

/// a non-empty token of characters accepted by `ok`; never holds white space or controls that
/// would end a line
pub fn token_of(s: &mut Src, ok: &dyn Fn(char) -> bool) -> String {
    let good = |c: char| !c.is_whitespace() && c != '\0' && ok(c);
    let t: String = match s.below(22) {
        20 | 21 => {
            // one that has been used before, or nearly
            let n = s.echo.tokens.len();
            if n == 0 {
                "e".into()
            } else {
                let i = s.idx(n);
                let mut t = s.echo.tokens[n - 1 - i].clone();
                match s.below(10) {
                    0 => t = t.to_ascii_uppercase(),
                    1 => t = t.to_ascii_lowercase(),
                    2 => t.push(*s.pick(ALNUM) as char),
                    3 => {
                        t.pop();
                    }
                    4 => t.insert(0, *s.pick(ALNUM) as char),
                    _ => {}
                }
                t
            }
        }
        0..=6 => {
            let n = s.range(1, 8);
            (0..n).map(|_| *s.pick(ALNUM) as char).collect()
        }
        7..=9 => (*s.pick(WORDS)).to_string(),
        10..=12 => {
            let d = dict();
            if d.strings.is_empty() {
                "q".into()
            } else {
                let mut t = s.pick(&d.strings).clone();
                match s.below(6) {
                    0 => t.push('1'),
                    1 => t = t.to_uppercase(),
                    2 => t.insert(0, '1'),
                    _ => {}
                }
                t
            }
        }
        13 => u64v(s).to_string(),
        14 => {
            let n = lengths(s);
            (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
        }
        15 | 16 => {
            let n = s.range(1, 12);
            (0..n).map(|_| if s.pct(30) { *s.pick(UNI) } else { *s.pick(ALNUM) as char }).collect()
        }
        _ => {
            let n = s.range(1, 12);
            (0..n).map(|_| if s.pct(45) { *s.pick(PUNCT) } else { *s.pick(ALNUM) as char }).collect()
        }
    };
    let t: String = t.chars().filter(|&c| good(c)).collect();
    if t.is_empty() {
        "k".into()
    } else {
        if t.len() <= 64 {
            keep(&mut s.echo.tokens, t.clone());
        }
        t
    }
}
pub fn token(s: &mut Src) -> String {
    token_of(s, &|_| true)
}

/// a non-empty text that may hold inner blanks but does not start or end with one
pub fn text_of(s: &mut Src, ok: &dyn Fn(char) -> bool) -> String {
    let n = match s.below(10) {
        0..=6 => 1,
        7 | 8 => 2,
        _ => s.range(2, 5),
    };
    let mut r = token_of(s, ok);
    for _ in 1..n {
        r.push_str(s.pick(&[" ", " ", " ", "  ", "\t"]));
        r.push_str(&token_of(s, ok));
    }
    r
}
pub fn text(s: &mut Src) -> String {
    text_of(s, &|_| true)
}

// ---------------------------------------------------------------------------------------------
// addresses: (wire text, canonical)

pub fn v4_octets(s: &mut Src) -> [u8; 4] {
    match s.below(6) {
        0 => [127, 0, 0, 1],
        1 => [0, 0, 0, s.below(3) as u8],
        2 => [10, s.below(256) as u8, s.below(256) as u8, s.below(256) as u8],
        3 => [255, 255, 255, 255 - s.below(2) as u8],
        _ => {
            let v = s.below(1 << 32) as u32;
            v.to_be_bytes()
        }
    }
}
pub fn v6_segments(s: &mut Src) -> [u16; 8] {
    let mut g = [0u16; 8];
    match s.below(6) {
        0 => g[7] = s.below(3) as u16,
        1 => {
            // v4-mapped and other embedded forms
            g[5] = *s.pick(&[0xffff, 0, 0xfffe]);
            g[6] = s.below(65536) as u16;
            g[7] = s.below(65536) as u16;
        }
        2 => {
            g[0] = *s.pick(&[0xfe80, 0x2001, 0xff02, 0x64]);
            g[1] = *s.pick(&[0, 0xdb8, 0xff9b]);
            g[7] = s.below(65536) as u16;
        }
        _ => {
            for x in g.iter_mut() {
                *x = if s.pct(40) { 0 } else { s.below(65536) as u16 };
            }
        }
    }
    g
}
pub fn v4_canon(o: [u8; 4]) -> String {
    format!("ip4:{}.{}.{}.{}", o[0], o[1], o[2], o[3])
}
pub fn v6_canon(g: [u16; 8]) -> String {
    format!("ip6:{}", g.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(":"))
}
/// one of the RFC 4291 text forms of the address
pub fn v6_text(s: &mut Src, g: [u16; 8]) -> String {
    let hx = |s: &mut Src, v: u16| -> String {
        let t = match s.below(3) {
            0 | 1 => format!("{v:x}"),
            _ => format!("{v:04x}"),
        };
        if s.pct(20) {
            t.to_uppercase()
        } else {
            t
        }
    };
    // zero runs that may be compressed
    let mut runs = vec![];
    let mut i = 0;
    while i < 8 {
        if g[i] == 0 {
            let st = i;
            while i < 8 && g[i] == 0 {
                i += 1;
            }
            runs.push((st, i));
        } else {
            i += 1;
        }
    }
    let embed = s.pct(15);
    let n = if embed { 6 } else { 8 };
    let runs: Vec<_> = runs.into_iter().filter(|r| r.1 <= n).collect();
    let tail = if embed {
        format!("{}.{}.{}.{}", g[6] >> 8, g[6] & 255, g[7] >> 8, g[7] & 255)
    } else {
        String::new()
    };
    if !runs.is_empty() && s.pct(75) {
        let (a, b) = *s.pick(&runs);
        let l: Vec<String> = (0..a).map(|i| hx(s, g[i])).collect();
        let mut r: Vec<String> = (b..n).map(|i| hx(s, g[i])).collect();
        if embed {
            r.push(tail);
        }
        format!("{}::{}", l.join(":"), r.join(":"))
    } else {
        let mut r: Vec<String> = (0..n).map(|i| hx(s, g[i])).collect();
        if embed {
            r.push(tail);
        }
        r.join(":")
    }
}
/// host name: wire text and its canonical (lower-case) form
pub fn host(s: &mut Src) -> (String, String) {
    let labels = match s.below(10) {
        0..=2 => 1,
        3..=7 => 2,
        _ => s.range(3, 6),
    };
    let mut v: Vec<String> = vec![];
    for i in 0..labels {
        let last = i + 1 == labels;
        let w: String = match s.below(8) {
            0 => (*s.pick(&["localhost", "example", "com", "test", "mozilla", "org", "local", "stun", "a", "ip4", "in", "xn--bcher-kva"])).to_string(),
            // digits first, all digits, and service labels, which may not come last
            3 if !last => match s.below(3) {
                0 => int(s, 0, 300).to_string(),
                1 => format!("{}{}", int(s, 0, 99), s.pick(&["com", "g", "-1", "x"])),
                _ => format!("_{}", s.pick(&["tcp", "udp", "stun", "a_b"])),
            },
            1 if !last => {
                // mDNS style
                let mut t = String::new();
                for (k, l) in [8, 4, 4, 4, 12].iter().enumerate() {
                    if k > 0 {
                        t.push('-');
                    }
                    for _ in 0..*l {
                        t.push(*s.pick(b"0123456789abcdef") as char);
                    }
                }
                t
            }
            2 => {
                let n = s.range(1, 60);
                (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
            }
            _ => {
                let n = s.range(1, 10);
                let mut t = String::new();
                for k in 0..n {
                    t.push(if k == 0 || k + 1 == n || s.pct(80) {
                        *s.pick(b"abcdefghijklmnopqrstuvwxyz") as char
                    } else {
                        *s.pick(b"0123456789-") as char
                    });
                }
                // "xn--" and a hyphen in third and fourth place have a meaning of their own
                if t.len() >= 4 && t.as_bytes()[2] == b'-' && t.as_bytes()[3] == b'-' {
                    t = t.replace('-', "h");
                }
                t
            }
        };
        v.push(w);
    }
    let mut canon = v.join(".");
    // the absolute form of a name ends with a dot
    if s.pct(10) {
        canon.push('.');
    }
    (rcase(s, &canon), canon)
}

#[derive(Clone, Debug)]
pub struct GAddr {
    pub wire: String,
    /// canonical as an Address
    pub canon: String,
    /// canonical as an ExplicitlyTypedAddress
    pub typed: String,
    /// "IP4" / "IP6"
    pub ty: &'static str,
    pub is_name: bool,
}
pub fn gaddr(s: &mut Src) -> GAddr {
    match s.below(10) {
        0..=4 => {
            let o = match s.echo.v4.len() {
                n if n > 0 && s.pct(12) => { let i = s.idx(n); s.echo.v4[n - 1 - i] },
                _ => v4_octets(s),
            };
            keep(&mut s.echo.v4, o);
            let c = v4_canon(o);
            GAddr { wire: format!("{}.{}.{}.{}", o[0], o[1], o[2], o[3]), canon: c.clone(), typed: c, ty: "IP4", is_name: false }
        }
        5 | 6 => {
            let g = match s.echo.v6.len() {
                n if n > 0 && s.pct(12) => { let i = s.idx(n); s.echo.v6[n - 1 - i] },
                _ => v6_segments(s),
            };
            keep(&mut s.echo.v6, g);
            let c = v6_canon(g);
            GAddr { wire: v6_text(s, g), canon: c.clone(), typed: c, ty: "IP6", is_name: false }
        }
        _ => {
            let (w, c) = match s.echo.hosts.len() {
                n if n > 0 && s.pct(12) => {
                    let c = { let i = s.idx(n); s.echo.hosts[n - 1 - i].clone() };
                    (rcase(s, &c), c)
                }
                _ => host(s),
            };
            keep(&mut s.echo.hosts, c.clone());
            let six = s.pct(30);
            GAddr {
                wire: w,
                canon: format!("fqdn:{c:?}"),
                typed: format!("fqdn{}:{c:?}", if six { 6 } else { 4 }),
                ty: if six { "IP6" } else { "IP4" },
                is_name: true,
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// attributes

#[derive(Clone, Debug)]
pub struct GAttr {
    pub kind: &'static str,
    /// None for a flag
    pub val: Option<String>,
    pub canon: String,
    /// false when the text form of the value is empty (fmtp with only default values)
    pub printed: bool,
    pub meta: Meta,
}
/// what the rules across lines look at
#[derive(Clone, Debug, Default, PartialEq)]
pub enum Meta {
    #[default]
    None,
    Rid { id: String, send: bool, pts: Vec<u16> },
    Simulcast { send: Vec<String>, recv: Vec<String> },
    Media { formats: Vec<String> },
}
impl GAttr {
    pub fn new(kind: &'static str, val: String, canon: String) -> GAttr {
        GAttr { kind, val: Some(val), canon, printed: true, meta: Meta::None }
    }
    /// the attribute as written after "a="
    pub fn plain(&self) -> String {
        match &self.val {
            Some(v) => format!("{}:{}", self.kind, v),
            None => self.kind.to_string(),
        }
    }
    /// the same with a random spelling of the name
    pub fn spelled(&self, s: &mut Src) -> String {
        let name = rcase(s, self.kind);
        match &self.val {
            Some(v) => format!("{}:{}{}", name, if s.pct(6) { " " } else { "" }, v),
            None => name,
        }
    }
}

pub const FLAGS: &[&str] = &[
    "bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch", "inactive", "recvonly", "rtcp-mux",
    "rtcp-mux-only", "rtcp-rsize", "sendonly", "sendrecv",
];
pub const VALUED: &[&str] = &[
    "candidate", "dtls-message", "extmap", "fingerprint", "fmtp", "framerate", "group", "ice-options", "ice-pacing", "ice-pwd",
    "ice-ufrag", "identity", "imageattr", "label", "max-message-size", "maxptime", "mid", "msid", "msid-semantic", "ptime", "rid",
    "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "sctpmap", "sctp-port", "setup", "simulcast", "ssrc", "ssrc-group",
];
pub const SESSION_ONLY: &[&str] = &["dtls-message", "group", "ice-lite", "ice-pacing", "identity", "msid-semantic"];
pub const MEDIA_ONLY: &[&str] = &[
    "bundle-only", "candidate", "fmtp", "framerate", "ice-mismatch", "imageattr", "label", "max-message-size", "maxptime", "mid",
    "msid", "ptime", "rid", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sctpmap",
    "sctp-port", "simulcast", "ssrc", "ssrc-group",
];
pub fn all_kinds() -> Vec<&'static str> {
    FLAGS.iter().chain(VALUED.iter()).copied().collect()
}
pub fn session_ok(k: &str) -> bool {
    !MEDIA_ONLY.contains(&k)
}
pub fn media_ok(k: &str) -> bool {
    !SESSION_ONLY.contains(&k)
}

pub fn flag(kind: &'static str) -> GAttr {
    GAttr { kind, val: None, canon: kind.to_string(), printed: true, meta: Meta::None }
}

pub fn q(s: &str) -> String {
    format!("{s:?}")
}
pub fn oq(s: &Option<String>) -> String {
    match s {
        None => "None".into(),
        Some(x) => format!("Some({x:?})"),
    }
}
pub fn ql(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "))
}

#[derive(Default, Clone)]
pub struct Env {
    /// payload types a rid may refer to; None when anything goes (no media context)
    pub rid_pts: Option<Vec<u16>>,
    /// payload types to prefer in rtpmap, fmtp and rtcp-fb
    pub pts: Vec<u8>,
    pub send_rids: Vec<String>,
    pub recv_rids: Vec<String>,
    pub ctx: bool,
}

pub fn attr(s: &mut Src, kind: &'static str, env: &Env) -> GAttr {
    if FLAGS.contains(&kind) {
        return flag(kind);
    }
    match kind {
        "candidate" => candidate(s),
        "dtls-message" => {
            let r = *s.pick(&["client", "server"]);
            let t = token(s);
            GAttr::new("dtls-message", format!("{r} {t}"), format!("dtls-message {r} {t:?}"))
        }
        "extmap" => extmap(s),
        "fingerprint" => fingerprint(s),
        "fmtp" => fmtp(s, env),
        "framerate" => framerate(s),
        "group" => {
            let sem = *s.pick(&["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"]);
            let n = count(s, 0, 4, 300);
            let tags: Vec<String> = (0..n).map(|_| token(s)).collect();
            let mut v = vec![rcase(s, sem)];
            v.extend(tags.iter().cloned());
            GAttr::new("group", join_gap(s, &v), format!("group {sem} {}", ql(&tags)))
        }
        "ice-options" => {
            let n = count(s, 1, 4, 200);
            let v: Vec<String> = (0..n).map(|_| token(s)).collect();
            GAttr::new("ice-options", join_gap(s, &v), format!("ice-options {}", ql(&v)))
        }
        "ice-pacing" => {
            let v = int(s, 0, 9_999_999_999);
            GAttr::new("ice-pacing", v.to_string(), format!("ice-pacing {v}"))
        }
        "ice-pwd" | "ice-ufrag" | "identity" | "label" | "mid" => {
            let t = text(s);
            GAttr::new(kind, t.clone(), format!("{kind} {t:?}"))
        }
        "imageattr" => imageattr(s),
        "max-message-size" | "maxptime" | "ptime" => {
            let v = u64v(s);
            GAttr::new(kind, v.to_string(), format!("{kind} {v}"))
        }
        "msid" => {
            let id = token(s);
            let app = if s.pct(60) { Some(token(s)) } else { None };
            let mut v = vec![id.clone()];
            v.extend(app.iter().cloned());
            GAttr::new("msid", join_gap(s, &v), format!("msid {id:?} {}", oq(&app)))
        }
        "msid-semantic" => {
            let sem = if s.flip() { "WMS".to_string() } else { token(s) };
            let n = count(s, 0, 3, 100);
            let ids: Vec<String> = if s.pct(30) { vec!["*".into()] } else { (0..n).map(|_| token(s)).collect() };
            let mut v = vec![sem.clone()];
            v.extend(ids.iter().cloned());
            GAttr::new("msid-semantic", join_gap(s, &v), format!("msid-semantic {sem:?} {}", ql(&ids)))
        }
        "rid" => rid(s, env),
        "remote-candidates" => {
            let (c, a, p) = (u32v(s), gaddr(s), port(s));
            let v = [c.to_string(), a.wire.clone(), p.to_string()];
            GAttr::new("remote-candidates", join_gap(s, &v), format!("remote-candidates {c} {} {p}", a.canon))
        }
        "rtpmap" => {
            let pt = a_pt(s, env, 127);
            let name = if s.pct(50) {
                (*s.pick(&["opus", "VP8", "VP9", "H264", "AV1", "rtx", "red", "ulpfec", "PCMU", "G722", "telephone-event", "CN"])).to_string()
            } else {
                token_of(s, &|c| c != '/')
            };
            let f = if s.pct(50) { *s.pick(&[8000u32, 16000, 48000, 90000]) } else { u32v(s) };
            let ch = if s.pct(40) { Some(if s.flip() { s.range(0, 2) as u32 } else { u32v(s) }) } else { None };
            let v = [
                pt.to_string(),
                match ch {
                    Some(c) => format!("{name}/{f}/{c}"),
                    None => format!("{name}/{f}"),
                },
            ];
            GAttr::new("rtpmap", join_gap(s, &v), format!("rtpmap {pt} {name:?} {f} {ch:?}"))
        }
        "rtcp" => {
            let p = port(s);
            if s.flip() {
                let a = gaddr(s);
                let v = [p.to_string(), rcase(s, "IN"), rcase(s, a.ty), a.wire.clone()];
                GAttr::new("rtcp", join_gap(s, &v), format!("rtcp {p} {}", a.typed))
            } else {
                GAttr::new("rtcp", p.to_string(), format!("rtcp {p} None"))
            }
        }
        "rtcp-fb" => rtcpfb(s, env),
        "sctpmap" => {
            let (p, c) = (port(s), u32v(s));
            let v = [p.to_string(), rcase(s, "webrtc-datachannel"), c.to_string()];
            GAttr::new("sctpmap", join_gap(s, &v), format!("sctpmap {p} {c}"))
        }
        "sctp-port" => {
            let p = port(s);
            GAttr::new("sctp-port", p.to_string(), format!("sctp-port {p}"))
        }
        "setup" => {
            let r = *s.pick(&["active", "passive", "actpass", "holdconn"]);
            GAttr::new("setup", rcase(s, r), format!("setup {r}"))
        }
        "simulcast" => simulcast(s, env),
        "ssrc" => {
            let id = u32v(s);
            let (w, a, v) = match s.below(5) {
                0 => (String::new(), None, None),
                1 => {
                    let a = token_of(s, &|c| c != ':');
                    (format!(" {a}"), Some(a), None)
                }
                2 => {
                    let a = rcase(s, "cname");
                    let v = text(s);
                    (format!(" {a}:{v}"), Some(a), Some(v))
                }
                _ => {
                    let a = token_of(s, &|c| c != ':');
                    let v = if s.pct(5) { String::new() } else { text(s) };
                    (format!(" {a}:{v}"), Some(a), Some(v))
                }
            };
            GAttr::new("ssrc", format!("{id}{w}"), format!("ssrc {id} {} {}", oq(&a), oq(&v)))
        }
        "ssrc-group" => {
            let sem = *s.pick(&["DUP", "FID", "FEC", "FEC-FR", "SIM"]);
            let n = count(s, 1, 3, 200);
            let ids: Vec<u32> = (0..n).map(|_| u32v(s)).collect();
            let mut v = vec![rcase(s, sem)];
            v.extend(ids.iter().map(|i| i.to_string()));
            GAttr::new(
                "ssrc-group",
                join_gap(s, &v),
                format!("ssrc-group {sem} {}", ids.iter().map(|i| format!("{i} None None")).collect::<Vec<_>>().join(", ")),
            )
        }
        other => panic!("no generator for {other}"),
    }
}

fn a_pt(s: &mut Src, env: &Env, max: u64) -> u8 {
    if !env.pts.is_empty() && s.pct(60) {
        *s.pick(&env.pts)
    } else {
        int(s, 0, max) as u8
    }
}

pub const CAND_EXT: &[&str] = &["raddr", "rport", "tcptype", "generation", "ufrag", "network-cost"];

fn candidate(s: &mut Src) -> GAttr {
    let foundation = token(s);
    let component = u32v(s);
    let tr = *s.pick(&["udp", "tcp"]);
    let prio = u64v(s);
    let a = gaddr(s);
    let p = port(s);
    let typ = *s.pick(&["host", "srflx", "prflx", "relay"]);
    let mut head =
        vec![foundation.clone(), component.to_string(), rcase(s, tr), prio.to_string(), a.wire.clone(), p.to_string(), rcase(s, "typ"), rcase(s, typ)];
    let mut known: Vec<(String, String)> = vec![];
    let (mut raddr, mut rport, mut tcp, mut gen, mut uf, mut cost) = ("None".to_string(), None, "None", None, None, None);
    if s.pct(50) {
        let x = gaddr(s);
        known.push(("raddr".into(), x.wire.clone()));
        raddr = x.canon;
    }
    if s.pct(50) {
        let x = port(s);
        known.push(("rport".into(), x.to_string()));
        rport = Some(x);
    }
    if s.pct(40) {
        let t = *s.pick(&["active", "passive", "so"]);
        known.push(("tcptype".into(), rcase(s, t)));
        tcp = t;
    }
    if s.pct(40) {
        let x = u32v(s);
        known.push(("generation".into(), x.to_string()));
        gen = Some(x);
    }
    if s.pct(40) {
        let x = token(s);
        known.push(("ufrag".into(), x.clone()));
        uf = Some(x);
    }
    if s.pct(40) {
        let x = u32v(s);
        known.push(("network-cost".into(), x.to_string()));
        cost = Some(x);
    }
    let nu = if s.pct(60) { 0 } else { count(s, 1, 3, 60) };
    let unk: Vec<(String, String)> = (0..nu)
        .map(|_| {
            let mut n = token(s);
            if CAND_EXT.contains(&n.to_lowercase().as_str()) {
                n.push('x');
            }
            (n, token(s))
        })
        .collect();
    // known extensions in any order and letter case, mixed with the unknown ones, which keep
    // their order among themselves
    for k in known.iter_mut() {
        k.0 = rcase(s, &k.0.clone());
    }
    if s.pct(60) {
        s.shuffle(&mut known);
    }
    let mut all: Vec<(String, String)> = unk.clone();
    for k in known {
        let i = s.idx(all.len() + 1);
        let i = all.len() - i;
        all.insert(i, k);
    }
    for (n, v) in all {
        head.push(n);
        head.push(v);
    }
    GAttr::new(
        "candidate",
        join_gap(s, &head),
        format!(
            "candidate f={foundation:?} c={component} t={tr} p={prio} a={} port={p} typ={typ} raddr={raddr} rport={rport:?} tcp={tcp} gen={gen:?} ufrag={} cost={cost:?} unk={}",
            a.canon,
            oq(&uf),
            unk.iter().map(|(a, b)| format!("({a:?},{b:?})")).collect::<String>()
        ),
    )
}

fn extmap(s: &mut Src) -> GAttr {
    let id = int(s, 0, 65535);
    let dir = if s.pct(50) { Some(*s.pick(&["sendonly", "recvonly", "sendrecv"])) } else { None };
    let url = if s.pct(60) {
        (*s.pick(&["urn:ietf:params:rtp-hdrext:ssrc-audio-level", "urn:ietf:params:rtp-hdrext:sdes:mid", "http://www.webrtc.org/experiments/rtp-hdrext/abs-send-time"])).to_string()
    } else {
        token(s)
    };
    let n = if s.pct(60) { 0 } else { count(s, 1, 3, 60) };
    let ext: Vec<String> = (0..n).map(|_| token(s)).collect();
    let mut v = vec![
        match dir {
            None => id.to_string(),
            Some(d) => format!("{id}/{}", rcase(s, d)),
        },
        url.clone(),
    ];
    v.extend(ext.iter().cloned());
    let e = if ext.is_empty() { None } else { Some(ext.join(" ")) };
    GAttr::new("extmap", join_gap(s, &v), format!("extmap {id} {} {url:?} {}", dir.unwrap_or("None"), oq(&e)))
}

pub const HASHES: &[(&str, usize)] = &[("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)];

pub fn fp_bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let mode = s.below(4);
    let c = s.below(256) as u8;
    (0..n)
        .map(|_| match mode {
            0 => c,
            1 => *s.pick(&[0u8, 1, 9, 10, 15, 16, 127, 128, 159, 160, 240, 254, 255]),
            _ => s.below(256) as u8,
        })
        .collect()
}
fn fingerprint(s: &mut Src) -> GAttr {
    let (h, n) = *s.pick(HASHES);
    let b = fp_bytes(s, n);
    let up = s.below(4);
    let t: Vec<String> = b
        .iter()
        .map(|x| match up {
            0 => format!("{x:02x}"),
            1 => {
                let t = format!("{x:02x}");
                rcase(s, &t)
            }
            _ => format!("{x:02X}"),
        })
        .collect();
    let v = [h.to_string(), t.join(":")];
    GAttr::new(
        "fingerprint",
        join_gap(s, &v),
        format!("fingerprint {h} {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
    )
}

/// (name, low, high, default as printed in the projection, order in the projection)
pub const FMTP: &[(&str, u64, u64, &str)] = &[
    ("packetization-mode", 0, 2, "0"),
    ("level-asymmetry-allowed", 0, 1, "0"),
    ("profile-level-id", 0, 0xff_ffff, "4325386"),
    ("max-fs", 0, u32::MAX as u64, "0"),
    ("max-cpb", 0, u32::MAX as u64, "0"),
    ("max-dpb", 0, u32::MAX as u64, "0"),
    ("max-br", 0, u32::MAX as u64, "0"),
    ("max-mbps", 0, u32::MAX as u64, "0"),
    ("max-fr", 0, u32::MAX as u64, "0"),
    ("profile", 0, 2, "None"),
    ("level-idx", 0, 31, "None"),
    ("tier", 0, 1, "None"),
    ("maxplaybackrate", 0, u32::MAX as u64, "48000"),
    ("maxaveragebitrate", 0, u32::MAX as u64, "0"),
    ("usedtx", 0, 1, "0"),
    ("stereo", 0, 1, "0"),
    ("useinbandfec", 0, 1, "0"),
    ("cbr", 0, 1, "0"),
    ("ptime", 0, u32::MAX as u64, "0"),
    ("minptime", 0, u32::MAX as u64, "0"),
    ("maxptime", 0, u32::MAX as u64, "0"),
    ("apt", 0, 255, "None"),
    ("rtx-time", 0, u32::MAX as u64, "None"),
];

pub fn fmtp_canon(pt: u8, vals: &[String], red: &[u8], dtmf: &str, unk: &[String]) -> String {
    let v: Vec<String> = FMTP.iter().zip(vals).map(|(f, v)| format!("{}={}", f.0, v)).collect();
    format!("fmtp {pt} {} red={red:?} dtmf={dtmf:?} unknown={}", v.join(" "), ql(unk))
}

pub fn fmtp(s: &mut Src, env: &Env) -> GAttr {
    let pt = a_pt(s, env, 255);
    let mut vals: Vec<String> = FMTP.iter().map(|f| f.3.to_string()).collect();
    match s.below(10) {
        0 => {
            let n = count(s, 2, 4, 60);
            let red: Vec<u8> = (0..n).map(|_| int(s, 0, 128) as u8).collect();
            let t = red.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/");
            return GAttr::new("fmtp", format!("{pt} {t}"), fmtp_canon(pt, &vals, &red, "", &[]));
        }
        1 => {
            let n = count(s, 1, 4, 60);
            let t: Vec<String> = (0..n)
                .map(|_| {
                    if s.flip() {
                        int(s, 0, 100).to_string()
                    } else {
                        let l = int(s, 0, 99);
                        let u = s.range(l + 1, 100);
                        format!("{l}-{u}")
                    }
                })
                .collect();
            let t = t.join(",");
            return GAttr::new("fmtp", format!("{pt} {t}"), fmtp_canon(pt, &vals, &[], &t, &[]));
        }
        _ => {}
    }
    let mut chosen: Vec<(usize, String)> = vec![];
    let density = *s.pick(&[8u64, 15, 30, 60, 100]);
    for (i, f) in FMTP.iter().enumerate() {
        let want = s.pct(if i >= 21 { density / 3 } else { density });
        if !want || (f.0 == "rtx-time" && !chosen.iter().any(|c| FMTP[c.0].0 == "apt")) {
            continue;
        }
        let v = int(s, f.1, f.2);
        let w = if f.0 == "profile-level-id" {
            match s.below(3) {
                0 => format!("{v:x}"),
                1 => format!("{v:06X}"),
                _ => format!("{v:06x}"),
            }
        } else {
            v.to_string()
        };
        vals[i] = if f.3 == "None" { format!("Some({v})") } else { v.to_string() };
        chosen.push((i, w));
    }
    let nu = if s.pct(55) && !chosen.is_empty() { 0 } else { count(s, 1, 3, 60) };
    let unk: Vec<String> = (0..nu)
        .map(|_| {
            let mut n = if s.pct(30) {
                (*s.pick(&["sprop-parameter-sets", "x-google-start-bitrate", "bitrate", "mode", "tx-mode", "profile-id", "sprop-stereo", "emphasis"])).to_string()
            } else {
                token_of(s, &|c| c != ';' && c != '=')
            };
            if FMTP.iter().any(|f| f.0.eq_ignore_ascii_case(&n)) || FMTP.iter().any(|f| f.0.to_uppercase() == n.to_uppercase()) {
                n.push('x');
            }
            let v = if s.pct(8) { String::new() } else { text_of(s, &|c| c != ';') };
            format!("{n}={v}")
        })
        .collect();
    if s.pct(70) {
        s.shuffle(&mut chosen);
    }
    let mut all: Vec<String> = unk.clone();
    let mut lo = 0;
    // insert the known ones keeping their relative order
    for (i, w) in &chosen {
        let p = lo + s.idx(all.len() - lo + 1);
        let name = rcase(s, FMTP[*i].0);
        all.insert(p, format!("{name}={w}"));
        lo = p + 1;
    }
    let mut t = String::new();
    let style = s.below(10);
    if style == 9 && s.flip() {
        t.push(';');
    }
    for (i, p) in all.iter().enumerate() {
        if i > 0 {
            t.push_str(match style {
                0..=5 => ";",
                6 | 7 => "; ",
                8 => s.pick(&[";", " ; ", ";  ", ";;"]),
                _ => s.pick(&[";", ";;", "; ;"]),
            });
        }
        t.push_str(p);
    }
    if style == 9 && s.flip() {
        t.push(';');
    }
    let printed = !unk.is_empty() || FMTP.iter().zip(&vals).any(|(f, v)| f.3 != v);
    let mut a = GAttr::new("fmtp", format!("{pt} {t}"), fmtp_canon(pt, &vals, &[], "", &unk));
    a.printed = printed;
    a
}

/// a number between 0 and 1 with any number of digits, not 0
pub fn small_decimal(s: &mut Src, zeros: u64) -> String {
    let z = s.below(zeros);
    format!("0.{}{}", "0".repeat(z as usize), s.range(1, 99999))
}
fn framerate(s: &mut Src) -> GAttr {
    let t = match s.below(8) {
        6 => small_decimal(s, 30),
        // many digits
        7 => {
            let n = s.range(15, 40);
            let mut t: String = (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            t.insert(0, '1');
            if s.pct(30) {
                t.insert(1 + s.idx(t.len() - 1), '.');
            }
            t
        }
        0 => int(s, 1, 240).to_string(),
        1 => format!("{}.{}", s.range(0, 120), s.range(1, 9)),
        2 => format!("{}.{:02}", s.range(1, 120), s.range(0, 99)),
        3 => (*s.pick(&["29.97", "23.976", "59.94", "0.1", "0.5", "12.5"])).to_string(),
        4 => format!("{}.{}", s.range(1, 1_000_000), s.range(0, 1_000_000)),
        _ => int(s, 1, u64::MAX).to_string(),
    };
    let v: f64 = t.parse().unwrap();
    GAttr::new("framerate", t, format!("framerate {v:?}"))
}

fn xyrange(s: &mut Src) -> (String, String) {
    let val = |s: &mut Src| if s.pct(70) { s.range(1, 4096) } else { int(s, 0, u32::MAX as u64) };
    match s.below(4) {
        0 | 1 => {
            let v = val(s);
            (v.to_string(), format!("list[{v}]"))
        }
        2 => {
            let a = val(s).min(u32::MAX as u64 - 1);
            let b = if s.pct(70) { a + s.range(1, 4096) } else { int(s, a + 1, u32::MAX as u64) }.min(u32::MAX as u64);
            if s.flip() {
                let st = val(s);
                (format!("[{a}:{st}:{b}]"), format!("range({a},{b},Some({st}))"))
            } else {
                (format!("[{a}:{b}]"), format!("range({a},{b},None)"))
            }
        }
        _ => {
            let n = count(s, 2, 4, 40);
            let v: Vec<u64> = (0..n).map(|_| val(s)).collect();
            (
                format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                format!("list{v:?}"),
            )
        }
    }
}
/// spvalue of RFC 6236, as ten-thousandths
fn sp(s: &mut Src, lo: u64, hi: u64) -> (u64, String, String) {
    let v = s.range(lo, hi);
    let mut t = format!("{}.{:04}", v / 10000, v % 10000);
    while t.ends_with('0') && !t.ends_with(".0") {
        t.pop();
    }
    let f: f32 = t.parse().unwrap();
    (v, t, format!("{f:?}"))
}
pub fn imgset(s: &mut Src) -> (String, String) {
    let (xw, xc) = xyrange(s);
    let (yw, yc) = xyrange(s);
    let mut kv: Vec<String> = vec![];
    let (mut sar, mut par, mut qv) = ("None".to_string(), "None".to_string(), "None".to_string());
    if s.pct(40) {
        match s.below(3) {
            0 => {
                let (_, w, c) = sp(s, 1000, 99999);
                kv.push(format!("sar={w}"));
                sar = format!("list[{c}]");
            }
            1 => {
                let (v, w, c) = sp(s, 1000, 99998);
                let (_, w2, c2) = sp(s, v + 1, 99999);
                kv.push(format!("sar=[{w}-{w2}]"));
                sar = format!("range({c},{c2})");
            }
            _ => {
                let n = count(s, 2, 4, 20);
                let mut lo = 1000;
                let (mut ws, mut cs) = (vec![], vec![]);
                for k in 0..n {
                    let left = (n - k) as u64;
                    let (v, w, c) = sp(s, lo, lo + (99999 - left - lo) / left);
                    lo = v + 1;
                    ws.push(w);
                    cs.push(c);
                }
                kv.push(format!("sar=[{}]", ws.join(",")));
                sar = format!("list[{}]", cs.join(", "));
            }
        }
    }
    if s.pct(40) {
        let (v, w, c) = sp(s, 1000, 99998);
        let (_, w2, c2) = sp(s, v + 1, 99999);
        kv.push(format!("par=[{w}-{w2}]"));
        par = format!("({c},{c2})");
    }
    if s.pct(40) {
        let v = s.range(0, 100);
        let t = if s.pct(10) { small_decimal(s, 20) } else { format!("{}.{:02}", v / 100, v % 100) };
        qv = format!("Some({:?})", t.parse::<f32>().unwrap());
        kv.push(format!("q={t}"));
    }
    s.shuffle(&mut kv);
    let mut w = format!("[x={xw},y={yw}");
    for k in kv {
        w.push(',');
        w.push_str(&k);
    }
    w.push(']');
    (w, format!("{{x={xc} y={yc} sar={sar} par={par} q={qv}}}"))
}
fn imgsets(s: &mut Src) -> (String, String) {
    if s.pct(25) {
        return ("*".into(), "*".into());
    }
    let n = count(s, 1, 3, 30);
    let v: Vec<(String, String)> = (0..n).map(|_| imgset(s)).collect();
    let w: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    (
        join_gap(s, &w),
        format!("[{}]", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" ")),
    )
}
fn imageattr(s: &mut Src) -> GAttr {
    let pt = if s.pct(25) { "*".to_string() } else { u8v(s).to_string() };
    let first = *s.pick(&["send", "recv"]);
    let (w1, c1) = imgsets(s);
    let mut w = join_gap(s, &[pt.clone(), first.to_string(), w1]);
    let mut c2 = "[]".to_string();
    if s.flip() {
        let (w2, c) = imgsets(s);
        w = join_gap(s, &[w, if first == "send" { "recv" } else { "send" }.to_string(), w2]);
        c2 = c;
    }
    let (sd, rv) = if first == "send" { (c1, c2) } else { (c2, c1) };
    GAttr::new("imageattr", w, format!("imageattr {pt} send={sd} recv={rv}"))
}

const RID_P: &[&str] = &["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps"];

pub fn rid_id(s: &mut Src) -> String {
    if s.pct(50) {
        return (*s.pick(&["1", "2", "hi", "lo", "h", "m", "l", "foo", "bar", "0", "r0", "r-1", "a_b"])).to_string();
    }
    let t = token_of(s, &|c| !"=;,~".contains(c));
    t
}
pub fn rid(s: &mut Src, env: &Env) -> GAttr {
    let id = rid_id(s);
    rid_with(s, env, &id, None)
}
pub fn rid_with(s: &mut Src, env: &Env, id: &str, dir: Option<&'static str>) -> GAttr {
    let dir = dir.unwrap_or_else(|| s.pick(&["send", "recv"]));
    let pts: Vec<u16> = match &env.rid_pts {
        Some(v) if v.is_empty() => vec![],
        Some(v) => {
            let n = if s.flip() { 0 } else { count(s, 1, 3, 20) };
            (0..n).map(|_| *s.pick(v)).collect()
        }
        None => {
            let n = if s.flip() { 0 } else { count(s, 1, 3, 20) };
            (0..n).map(|_| int(s, 0, 65535) as u16).collect()
        }
    };
    let mut nums = [0u64; 6];
    let mut ps: Vec<String> = vec![];
    for (i, n) in RID_P.iter().enumerate() {
        if s.pct(25) {
            nums[i] = int(s, 0, u32::MAX as u64);
            ps.push(format!("{n}={}", nums[i]));
        }
    }
    let nd = if s.pct(75) { 0 } else { count(s, 1, 3, 20) };
    let deps: Vec<String> = (0..nd).map(|_| rid_id(s)).collect();
    if !deps.is_empty() {
        let sep = if s.pct(10) { *s.pick(&[", ", " ,", " , ", ",\t"]) } else { "," };
        ps.push(format!("depends={}", deps.join(sep)));
    }
    if s.pct(60) {
        s.shuffle(&mut ps);
    }
    let nu = if s.pct(75) { 0 } else { count(s, 1, 3, 20) };
    let unk: Vec<String> = (0..nu)
        .map(|_| {
            let mut n = token_of(s, &|c| !";=".contains(c));
            if RID_P.contains(&n.as_str()) || n == "depends" || n == "depend" || n == "pt" {
                n.push('x');
            }
            format!("{n}={}", text_of(s, &|c| c != ';'))
        })
        .collect();
    let mut lo = 0;
    for u in &unk {
        let p = lo + s.idx(ps.len() - lo + 1);
        ps.insert(p, u.clone());
        lo = p + 1;
    }
    if !pts.is_empty() {
        let sep = if s.pct(10) { ", " } else { "," };
        ps.insert(0, format!("pt={}", pts.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(sep)));
    }
    let mut w = format!("{id} {dir}");
    if !ps.is_empty() {
        w.push(' ');
        w.push_str(&ps.join(";"));
    }
    let mut a = GAttr::new(
        "rid",
        w,
        format!(
            "rid {id:?} {dir} pt={pts:?} w={} h={} fps={} fs={} br={} pps={} unknown={} depends={}",
            nums[0],
            nums[1],
            nums[2],
            nums[3],
            nums[4],
            nums[5],
            ql(&unk),
            ql(&deps)
        ),
    );
    a.meta = Meta::Rid { id: id.to_string(), send: dir == "send", pts };
    a
}

fn sim_list(s: &mut Src, ids: Option<&[String]>) -> (String, String, Vec<String>) {
    let mut used = vec![];
    let nv = count(s, 1, 3, 20);
    let (mut w, mut c) = (vec![], vec![]);
    for _ in 0..nv {
        let na = count(s, 1, 2, 10);
        let (mut wa, mut ca) = (vec![], vec![]);
        for _ in 0..na {
            let id = match ids {
                Some(v) => s.pick(v).clone(),
                None => rid_id(s),
            };
            used.push(id.clone());
            let paused = s.pct(25);
            let p = if paused { "~" } else { "" };
            wa.push(format!("{p}{id}"));
            ca.push(format!("{p}{id:?}"));
        }
        w.push(wa.join(","));
        c.push(ca.join("|"));
    }
    let pre = if s.pct(25) { "rid=" } else { "" };
    (format!("{pre}{}", w.join(";")), c.join(" ; "), used)
}
pub fn simulcast(s: &mut Src, env: &Env) -> GAttr {
    let mut dirs: Vec<(&'static str, Option<&[String]>)> = vec![];
    if env.ctx {
        if !env.send_rids.is_empty() {
            dirs.push(("send", Some(&env.send_rids)));
        }
        if !env.recv_rids.is_empty() {
            dirs.push(("recv", Some(&env.recv_rids)));
        }
    } else {
        dirs.push(("send", None));
        dirs.push(("recv", None));
    }
    if s.flip() {
        dirs.reverse();
    }
    if dirs.len() == 2 && s.pct(40) {
        dirs.pop();
    }
    let (mut sc, mut rc) = (String::new(), String::new());
    let mut toks: Vec<String> = vec![];
    let (mut us, mut ur) = (vec![], vec![]);
    for (d, ids) in dirs {
        let (w, c, u) = sim_list(s, ids);
        toks.push(d.to_string());
        toks.push(w);
        if d == "send" {
            sc = c;
            us = u;
        } else {
            rc = c;
            ur = u;
        }
    }
    let mut a = GAttr::new("simulcast", join_gap(s, &toks), format!("simulcast send={sc} recv={rc}"));
    a.meta = Meta::Simulcast { send: us, recv: ur };
    a
}

fn rtcpfb(s: &mut Src, env: &Env) -> GAttr {
    let pt = if s.pct(30) { "*".to_string() } else { a_pt(s, env, 255).to_string() };
    let (ty, params): (&str, &[&str]) = *s.pick(&[
        ("nack", &["", "sli", "pli", "rpsi", "app"] as &[&str]),
        ("ccm", &["", "fir", "tmmbr", "tstr", "vbcm"]),
        ("ack", &["rpsi", "app"]),
        ("goog-remb", &[""]),
        ("transport-cc", &[""]),
        ("trr-int", &["#"]),
    ]);
    let mut p = (*s.pick(params)).to_string();
    if p == "#" {
        p = u32v(s).to_string();
    }
    let mut w = format!("{pt} {ty}");
    let mut extra = String::new();
    if !p.is_empty() {
        w.push_str(&format!(" {p}"));
        if s.pct(30) {
            extra = text(s);
            w.push_str(&format!(" {extra}"));
        }
    }
    GAttr::new("rtcp-fb", w, format!("rtcp-fb {pt} {ty} {p:?} {extra:?}"))
}

// ---------------------------------------------------------------------------------------------
// other lines

pub fn bandwidth(s: &mut Src) -> (String, String) {
    let v = u32v(s);
    match s.below(5) {
        0..=2 => {
            let t = *s.pick(&["AS", "CT", "TIAS"]);
            (format!("{}:{v}", rcase(s, t)), format!("{t} {v}"))
        }
        _ => {
            let mut t = token_of(s, &|c| c != ':');
            if ["AS", "CT", "TIAS"].contains(&t.to_uppercase().as_str()) {
                t.push('X');
            }
            (format!("{t}:{v}"), format!("other {t:?} {v}"))
        }
    }
}
pub fn connection(s: &mut Src) -> (String, String) {
    let a = gaddr(s);
    let (mut ttl, mut n) = (None, None);
    let mut w = a.wire.clone();
    if s.pct(30) {
        let t = u8v(s);
        w.push_str(&format!("/{t}"));
        ttl = Some(t);
        if s.pct(50) {
            let x = u32v(s);
            w.push_str(&format!("/{x}"));
            n = Some(x);
        }
    }
    let v = [rcase(s, "IN"), rcase(s, a.ty), w];
    (join_gap(s, &v), format!("{} ttl={ttl:?} n={n:?}", a.typed))
}
pub fn origin(s: &mut Src) -> (String, String) {
    let user = if s.pct(40) { "-".to_string() } else { token(s) };
    let (id, ver) = (u64v(s), u64v(s));
    let a = gaddr(s);
    let v = [user.clone(), id.to_string(), ver.to_string(), rcase(s, "IN"), rcase(s, a.ty), a.wire.clone()];
    (join_gap(s, &v), format!("{user:?} {id} {ver} {}", a.typed))
}

pub const PROTOS: &[&str] = &[
    "RTP/AVP", "RTP/AVPF", "RTP/SAVP", "RTP/SAVPF", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF",
    "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP",
];
pub fn valid_fmt(x: u64) -> bool {
    !(x == 1 || x == 2 || x == 19 || (64..=95).contains(&x) || x > 127)
}
pub struct GMline {
    pub wire: String,
    pub canon: String,
    pub pts: Vec<u8>,
    pub rid_pts: Vec<u16>,
    pub formats: Vec<String>,
}
pub fn mline(s: &mut Src) -> GMline {
    let m = *s.pick(&["audio", "video", "application"]);
    let p = port(s);
    let cnt = if s.pct(15) { Some(u32v(s)) } else { None };
    let pr = if m == "application" && s.pct(70) { *s.pick(&PROTOS[8..]) } else if s.pct(70) { PROTOS[7] } else { *s.pick(PROTOS) };
    let n = count(s, 1, 5, 130);
    let mut pts = vec![];
    let mut rid_pts = vec![];
    let (fw, fc): (Vec<String>, String) = if m == "application" {
        let v: Vec<String> = (0..n)
            .map(|_| {
                if s.pct(50) {
                    "webrtc-datachannel".to_string()
                } else if s.pct(40) {
                    int(s, 0, 70000).to_string()
                } else {
                    token(s)
                }
            })
            .collect();
        for t in &v {
            if let Ok(x) = t.parse::<u16>() {
                if x.to_string() == *t {
                    rid_pts.push(x);
                }
            }
        }
        (v.clone(), format!("str{v:?}"))
    } else {
        let v: Vec<u64> = (0..n)
            .map(|_| {
                let mut x = if s.pct(60) { s.range(96, 127) } else { int(s, 0, 127) };
                while !valid_fmt(x) {
                    x = (x + 1) % 128;
                }
                x
            })
            .collect();
        for x in &v {
            pts.push(*x as u8);
            rid_pts.push(*x as u16);
        }
        (v.iter().map(|x| x.to_string()).collect(), format!("int{v:?}"))
    };
    let mut v = vec![
        rcase(s, m),
        match cnt {
            None => p.to_string(),
            Some(c) => format!("{p}/{c}"),
        },
        rcase(s, pr),
    ];
    v.extend(fw.iter().cloned());
    GMline { wire: join_gap(s, &v), formats: fw, canon: format!("{m} {p}/{} {pr} {fc}", cnt.unwrap_or(0)), pts, rid_pts }
}
