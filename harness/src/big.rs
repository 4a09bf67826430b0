//! Descriptions in which one kind of element stands very often, or one value is very long: beyond
//! every size a table, a counter or a buffer in the code might have.  What they mean is known as
//! exactly as for the small ones.

use crate::dict;
use crate::engine::Src;
use crate::gen::{self, q, ql, Env, GAttr, Meta};
use crate::sess::{self, Opt, Sess, L};

/// how many, at most `max`
pub fn amount(s: &mut Src, max: u64) -> usize {
    let v = match s.below(10) {
        0 => s.range(200, 700),
        1 | 2 => {
            // a number the code mentions
            let d = dict::dict();
            if d.ints.is_empty() {
                300
            } else {
                (*s.pick(&d.ints)).min(70_000) + s.below(3)
            }
        }
        3..=5 => (1u64 << s.range(8, 16)) + s.below(3),
        6 => *s.pick(&[500u64, 1000, 2000, 5000, 10_000, 20_000, 50_000]) + s.below(3),
        7 => s.range(1000, 8000),
        8 => s.range(8000, 40_000),
        _ => s.range(65_530, 70_000),
    };
    v.clamp(2, max) as usize
}

/// attributes of a kind, all of them different
fn numbered(kind: &'static str, i: usize) -> Option<GAttr> {
    let v4 = format!("10.{}.{}.{}", i >> 16 & 255, i >> 8 & 255, i & 255);
    let (val, canon) = match kind {
        "ssrc" => (format!("{i} cname:c{i}"), format!("ssrc {i} Some(\"cname\") Some(\"c{i}\")")),
        "candidate" => (
            format!("f{i} {i} udp {i} {v4} {} typ host", i % 65536),
            format!("candidate f=\"f{i}\" c={i} t=udp p={i} a=ip4:{v4} port={} typ=host raddr=None rport=None tcp=None gen=None ufrag=None cost=None unk=", i % 65536),
        ),
        "mid" | "label" | "ice-ufrag" | "identity" | "ice-pwd" => (format!("x{i}"), format!("{kind} \"x{i}\"")),
        "msid" => (format!("s{i} t{i}"), format!("msid \"s{i}\" Some(\"t{i}\")")),
        "group" => (format!("BUNDLE a{i} b"), format!("group BUNDLE [\"a{i}\", \"b\"]")),
        "ptime" | "maxptime" | "max-message-size" | "ice-pacing" => (i.to_string(), format!("{kind} {i}")),
        "rtpmap" => (format!("{} n{i}/{}", i % 128, i + 1), format!("rtpmap {} \"n{i}\" {} None", i % 128, i + 1)),
        "ice-options" => (format!("o{i}"), format!("ice-options [\"o{i}\"]")),
        "rtcp" => (format!("{} IN IP4 {v4}", i % 65536), format!("rtcp {} ip4:{v4}", i % 65536)),
        "sctp-port" => ((i % 65536).to_string(), format!("sctp-port {}", i % 65536)),
        "ssrc-group" => (format!("FID {i} {}", i + 1), format!("ssrc-group FID {i} None None, {} None None", i + 1)),
        _ => return None,
    };
    Some(GAttr::new(kind, val, canon))
}
const NUMBERED: &[&str] = &[
    "ssrc", "candidate", "mid", "label", "ice-ufrag", "identity", "ice-pwd", "msid", "group", "ptime", "maxptime", "max-message-size", "ice-pacing",
    "rtpmap", "ice-options", "rtcp", "sctp-port", "ssrc-group",
];

/// one attribute with a list of n elements
pub fn list(s: &mut Src, kind: &'static str, n: usize) -> GAttr {
    let num = |p: &str| -> Vec<String> { (0..n).map(|i| format!("{p}{i}")).collect() };
    let red: Vec<u8> = (0..n).map(|i| (i * 7 % 129) as u8).collect();
    let none: Vec<String> = gen::FMTP.iter().map(|f| f.3.to_string()).collect();
    match kind {
        "group" | "msid-semantic" => {
            let t = num("t");
            let sem = if kind == "group" { "BUNDLE".to_string() } else { q("WMS") };
            GAttr::new(kind, format!("{} {}", sem.trim_matches('"'), t.join(" ")), format!("{kind} {sem} {}", ql(&t)))
        }
        "ice-options" => {
            let t = num("o");
            GAttr::new(kind, t.join(" "), format!("{kind} {}", ql(&t)))
        }
        "ssrc-group" => {
            let t = num("");
            GAttr::new(
                kind,
                format!("FID {}", t.join(" ")),
                format!("{kind} FID {}", t.iter().map(|i| format!("{i} None None")).collect::<Vec<_>>().join(", ")),
            )
        }
        "candidate" => {
            let e: Vec<String> = (0..n).map(|i| format!("x{i} v{i}")).collect();
            GAttr::new(
                kind,
                format!("1 1 udp 1 10.0.0.1 9 typ host {} generation 5", e.join(" ")),
                format!(
                    "candidate f=\"1\" c=1 t=udp p=1 a=ip4:10.0.0.1 port=9 typ=host raddr=None rport=None tcp=None gen=Some(5) ufrag=None cost=None unk={}",
                    (0..n).map(|i| format!("(\"x{i}\",\"v{i}\")")).collect::<String>()
                ),
            )
        }
        "fmtp" => match s.below(3) {
            0 => {
                let t: Vec<String> = red.iter().map(|x| x.to_string()).collect();
                GAttr::new(kind, format!("96 {}", t.join("/")), gen::fmtp_canon(96, &none, &red, "", &[]))
            }
            1 => {
                let t: Vec<String> = (0..n).map(|i| if i % 3 == 0 { format!("{}-{}", i % 50, 50 + i % 50) } else { (i % 101).to_string() }).collect();
                let t = t.join(",");
                GAttr::new(kind, format!("96 {t}"), gen::fmtp_canon(96, &none, &[], &t, &[]))
            }
            _ => {
                let t: Vec<String> = (0..n).map(|i| format!("p{i}={i}")).collect();
                GAttr::new(kind, format!("96 {}", t.join(";")), gen::fmtp_canon(96, &none, &[], "", &t))
            }
        },
        "rid" => {
            // the formats are those of the media line, so none here
            let (a, b): (Vec<String>, Vec<String>) = if s.flip() { ((0..n).map(|i| format!("p{i}={i}")).collect(), vec![]) } else { (vec![], num("d")) };
            let mut ps = a.clone();
            if !b.is_empty() {
                ps.push(format!("depends={}", b.join(",")));
            }
            let mut g = GAttr::new(
                kind,
                format!("many send {}", ps.join(";")),
                format!("rid \"many\" send pt=[] w=0 h=0 fps=0 fs=0 br=0 pps=0 unknown={} depends={}", ql(&a), ql(&b)),
            );
            g.meta = Meta::Rid { id: "many".into(), send: true, pts: vec![] };
            g
        }
        "imageattr" => {
            let pool: Vec<(String, String)> = (0..8).map(|_| gen::imgset(s)).collect();
            let v: Vec<&(String, String)> = (0..n).map(|i| &pool[i * 5 % 8]).collect();
            let w: Vec<&str> = v.iter().map(|x| x.0.as_str()).collect();
            let c: Vec<&str> = v.iter().map(|x| x.1.as_str()).collect();
            if s.flip() {
                GAttr::new(kind, format!("* send {}", w.join(" ")), format!("imageattr * send=[{}] recv=[]", c.join(" ")))
            } else {
                let t: Vec<String> = (1..=n).map(|i| i.to_string()).collect();
                GAttr::new(
                    kind,
                    format!("7 recv [x=[{}],y=5]", t.join(",")),
                    format!("imageattr 7 send=[] recv=[{{x=list[{}] y=list[5] sar=None par=None q=None}}]", t.join(", ")),
                )
            }
        }
        _ => {
            // simulcast, of the identifier 'one' that a rid has to declare
            let vs = s.flip();
            let w: Vec<String> = (0..n).map(|i| if i % 3 == 1 { "~one".to_string() } else { "one".to_string() }).collect();
            let c: Vec<String> = (0..n).map(|i| if i % 3 == 1 { "~\"one\"".to_string() } else { "\"one\"".to_string() }).collect();
            let mut g = GAttr::new(
                "simulcast",
                format!("send {}", w.join(if vs { ";" } else { "," })),
                format!("simulcast send={} recv=", c.join(if vs { " ; " } else { "|" })),
            );
            g.meta = Meta::Simulcast { send: vec!["one".into()], recv: vec![] };
            g
        }
    }
}
pub const LISTS: &[&str] = &["group", "msid-semantic", "ice-options", "ssrc-group", "candidate", "fmtp", "rid", "imageattr", "simulcast"];

/// a value of about n bytes, all places of which differ
pub fn long(s: &mut Src, n: usize) -> String {
    let pat = *s.pick(&["abcdefghijklmnopqrstuvwxyz", "0123456789", "a-é", "🙂", "AaBb_"]);
    let mut t = String::with_capacity(n + 16);
    let mut i = 0usize;
    while t.len() < n {
        t.push_str(pat);
        if i % 16 == 0 {
            t.push_str(&i.to_string());
        }
        i += 1;
    }
    t
}
/// one attribute with one long value
pub fn wide(s: &mut Src, n: usize) -> GAttr {
    let t = long(s, n);
    let none: Vec<String> = gen::FMTP.iter().map(|f| f.3.to_string()).collect();
    match s.below(9) {
        0 => {
            let k = *s.pick(&["mid", "label", "ice-ufrag", "ice-pwd", "identity"]);
            GAttr::new(k, t.clone(), format!("{k} {t:?}"))
        }
        1 => GAttr::new("msid", format!("{t} {t}"), format!("msid {t:?} {}", gen::oq(&Some(t.clone())))),
        2 => GAttr::new("ssrc", format!("7 cname:{t}"), format!("ssrc 7 Some(\"cname\") Some({t:?})")),
        3 => GAttr::new("fmtp", format!("96 x={t}"), gen::fmtp_canon(96, &none, &[], "", &[format!("x={t}")])),
        4 => GAttr::new("rtpmap", format!("96 {t}/8000"), format!("rtpmap 96 {t:?} 8000 None")),
        5 => GAttr::new("group", format!("LS {t} a"), format!("group LS {}", ql(&[t, "a".into()]))),
        6 => GAttr::new("rtcp-fb", format!("* nack pli {t}"), format!("rtcp-fb * nack \"pli\" {t:?}")),
        7 => GAttr::new("dtls-message", format!("client {t}"), format!("dtls-message client {t:?}")),
        _ => GAttr::new("ice-options", t.clone(), format!("ice-options {}", ql(&[t]))),
    }
}

/// a large description and what is large about it
pub fn big(s: &mut Src, scale: u64) -> (Sess, &'static str) {
    let opt = Opt { max_media: 3, max_attrs: 6, kinds: None };
    let mut x = sess::session(s, &opt);
    // a session connection, so that further media sections need none
    if !x.lines.iter().any(|l| l.sec == 0 && l.ty == 'c') {
        x.lines.insert(3, L::new('c', "IN IP4 10.0.0.1".into(), "c ip4:10.0.0.1 ttl=None n=None".into()));
    }
    // the place after a line of a section
    let place = |s: &mut Src, x: &Sess, media: bool| -> (usize, usize) {
        let sec = if media { 1 + s.idx(x.media) } else { 0 };
        let at: Vec<usize> = (if sec == 0 { 2 } else { 0 }..x.lines.len()).filter(|&i| x.lines[i].sec == sec).collect();
        (*s.pick(&at) + 1, sec)
    };
    let insert = |x: &mut Sess, at: usize, sec: usize, mut ls: Vec<L>| {
        for l in ls.iter_mut() {
            l.sec = sec;
        }
        x.lines.splice(at..at, ls);
    };
    let what = s.below(8);
    if x.media == 0 {
        let m = sess::media(s, &opt, s_ext(&x), false);
        x.media = 1;
        let at = x.lines.len();
        insert(&mut x, at, 1, m);
    }
    let class = match what {
        0 => {
            // attributes of a few kinds, taken in turn
            let media = s.pct(70);
            let (at, sec) = place(s, &x, media);
            let kinds: Vec<&'static str> = gen::all_kinds()
                .into_iter()
                .filter(|k| (if media { gen::media_ok(k) } else { gen::session_ok(k) }) && !["rid", "simulcast", "extmap", "rtcp-mux-only"].contains(k))
                .collect();
            let n = amount(s, 40_000 * scale);
            let pool: Vec<L> = (0..s.range(2, 12))
                .map(|_| {
                    let k = *s.pick(&kinds);
                    let g = gen::attr(s, k, &Env::default());
                    L::attr(s, &g)
                })
                .collect();
            let ls = (0..n).map(|i| pool[(i * 7 + i / 11) % pool.len()].clone()).collect();
            insert(&mut x, at, sec, ls);
            "attributes of several kinds"
        }
        1 | 2 => {
            let media = s.pct(70);
            let (at, sec) = place(s, &x, media);
            let kinds: Vec<&'static str> = NUMBERED.iter().copied().filter(|k| if media { gen::media_ok(k) } else { gen::session_ok(k) }).collect();
            let k = *s.pick(&kinds);
            let k2 = *s.pick(&kinds);
            let n = amount(s, 70_000 * scale);
            let every = s.range(2, 50) as usize;
            let ls = (1..=n)
                .map(|i| {
                    let g = numbered(if i % every == 0 { k2 } else { k }, i).unwrap();
                    L::attr(&mut Src::replay(vec![], 0), &g)
                })
                .collect();
            insert(&mut x, at, sec, ls);
            "numbered attributes"
        }
        3 => {
            let n = amount(s, 6_000 * scale);
            let pool: Vec<Vec<L>> = (0..s.range(1, 5)).map(|_| sess::media(s, &opt, s_ext(&x), false)).collect();
            let mut ls = vec![];
            for i in 0..n {
                let mut p = pool[i * 3 % pool.len()].clone();
                let g = numbered("mid", i).unwrap();
                p.push(L::attr(&mut Src::replay(vec![], 0), &g));
                x.media += 1;
                for l in p.iter_mut() {
                    l.sec = x.media;
                }
                ls.extend(p);
            }
            x.lines.extend(ls);
            "media sections"
        }
        4 => {
            let media = s.flip();
            let (at, sec) = place(s, &x, media);
            let n = amount(s, 70_000 * scale);
            let ls = (1..=n)
                .map(|i| if i % 3 == 0 { L::new('b', format!("X-{i}:{i}"), format!("b other \"X-{i}\" {i}")) } else { L::new('b', format!("AS:{i}"), format!("b AS {i}")) })
                .collect();
            insert(&mut x, at, sec, ls);
            "bandwidths"
        }
        5 => {
            let k = *s.pick(LISTS);
            let n = amount(s, if k == "imageattr" { 20_000 } else { 70_000 } * scale);
            let g = list(s, k, n);
            let media = gen::media_ok(k) && (!gen::session_ok(k) || s.flip());
            let (at, sec) = place(s, &x, media);
            let mut ls = vec![L::attr(s, &g)];
            if k == "simulcast" {
                let r = gen::rid_with(s, &Env { rid_pts: Some(vec![]), ..Env::default() }, "one", Some("send"));
                ls.push(L::attr(s, &r));
            }
            insert(&mut x, at, sec, ls);
            "a long list"
        }
        6 => {
            let n = amount(s, 70_000 * scale) * s.range(1, 4) as usize;
            let g = wide(s, n);
            let media = gen::media_ok(g.kind) && (!gen::session_ok(g.kind) || s.flip());
            let (at, sec) = place(s, &x, media);
            let l = L::attr(s, &g);
            insert(&mut x, at, sec, vec![l]);
            "a long value"
        }
        _ => {
            // the formats of an application section
            let n = amount(s, 70_000 * scale);
            let f: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let ints: Vec<u32> = (0..n as u32).map(|i| [0, 3, 8, 18, 20, 34, 63, 96, 100, 127][i as usize % 10]).collect();
            let mut l = if s.flip() {
                L::new('m', format!("application 9 UDP/DTLS/SCTP {}", f.join(" ")), format!("M application 9/0 UDP/DTLS/SCTP str{f:?}"))
            } else {
                let t: Vec<String> = ints.iter().map(|x| x.to_string()).collect();
                L::new('m', format!("video 9 RTP/AVP {}", t.join(" ")), format!("M video 9/0 RTP/AVP int{ints:?}"))
            };
            l.meta = Meta::Media { formats: vec![] };
            x.media += 1;
            l.sec = x.media;
            x.lines.push(l);
            "formats"
        }
    };
    (x, class)
}

/// whether extmap stands at the media level (or nowhere)
fn s_ext(x: &Sess) -> bool {
    !x.lines.iter().any(|l| l.kind == "extmap" && l.sec == 0)
}

/// the text of a case too long to show
pub fn short(t: &str) -> String {
    if t.len() < 4000 {
        return t.to_string();
    }
    let mut h = 0u64;
    for b in t.bytes() {
        h = h.wrapping_mul(0x0100_0000_01B3) ^ b as u64;
    }
    let cut = |i: usize| (i..t.len()).find(|&i| t.is_char_boundary(i)).unwrap_or(t.len());
    format!("{}\n[... {} bytes, {} lines, hash {h:x} ...]\n{}", &t[..cut(1800)], t.len(), t.lines().count(), &t[cut(t.len() - 900)..])
}
