//! A reader of printed descriptions that is as strict as the grammars of the RFCs: exact names and words,
//! single blanks, plain decimal numbers, CRLF.  It is written independently of the parser under test and
//! gives the same projection as `proj` with normalisation.
//!
//! The order of `t=`, `b=` and `c=` among themselves and the spelling `depends=` of a rid are fixed by the
//! repository's tests and left open here.

use crate::proj::{self, N};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::attribute_type::SdpAttribute;

type R<T> = Result<T, String>;
const NORM: N = N(true);

pub fn int(t: &str) -> R<u64> {
    let ok = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) && (t == "0" || !t.starts_with('0'));
    if !ok {
        return Err(format!("{t:?} is not a plain number"));
    }
    t.parse().map_err(|_| format!("{t:?} is too large"))
}
fn decimal(t: &str) -> R<&str> {
    let (a, b) = t.split_once('.').unwrap_or((t, "0"));
    int(a).or_else(|e| if a.len() > 19 && a.bytes().all(|b| b.is_ascii_digit()) { Ok(0) } else { Err(e) })?;
    if b.is_empty() || !b.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("{t:?} is not a plain decimal number"));
    }
    Ok(t)
}
fn f32s(t: &str) -> R<String> {
    Ok(format!("{:?}", decimal(t)?.parse::<f32>().map_err(|e| e.to_string())?))
}
fn one_of(t: &str, words: &[&str]) -> R<()> {
    if words.contains(&t) {
        Ok(())
    } else {
        Err(format!("{t:?} is none of {words:?}"))
    }
}
/// exactly one blank between any two words
fn words(t: &str) -> R<Vec<&str>> {
    let v: Vec<&str> = t.split(' ').collect();
    if v.iter().any(|w| w.is_empty()) {
        return Err(format!("{t:?} has an empty word"));
    }
    Ok(v)
}
/// no blanks around an element of a list
fn unpadded(t: &str) -> R<()> {
    if t.trim_matches([' ', '\t']) != t {
        return Err(format!("blanks around {t:?}"));
    }
    Ok(())
}
fn exactly<const K: usize>(t: &str) -> R<[&str; K]> {
    let v = words(t)?;
    let n = v.len();
    v.try_into().map_err(|_| format!("{t:?} has {n} words and not {K}"))
}
fn owned(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn opt_int(t: Option<&str>) -> R<String> {
    match t {
        None => Ok("None".into()),
        Some(t) => Ok(format!("Some({})", int(t)?)),
    }
}

fn v6(t: &str) -> R<String> {
    if t.bytes().any(|b| b.is_ascii_uppercase()) {
        return Err(format!("{t:?} is not in lower case"));
    }
    t.parse::<Ipv6Addr>().map(|i| proj::ip(&IpAddr::V6(i))).map_err(|_| format!("{t:?} is not an IPv6 address"))
}
fn host(t: &str) -> R<&str> {
    if t.is_empty() || t.chars().any(|c| c.is_whitespace() || c == '/' || c == ':') {
        return Err(format!("{t:?} is not a host name"));
    }
    Ok(t)
}
pub fn address(t: &str) -> R<String> {
    if let Ok(i) = t.parse::<Ipv4Addr>() {
        Ok(proj::ip(&IpAddr::V4(i)))
    } else if t.contains(':') {
        v6(t)
    } else {
        Ok(format!("fqdn:{:?}", host(t)?))
    }
}
fn typed(net: &str, ty: &str, a: &str) -> R<String> {
    one_of(net, &["IN"])?;
    one_of(ty, &["IP4", "IP6"])?;
    match (ty, a.parse::<Ipv4Addr>()) {
        ("IP4", Ok(i)) => Ok(proj::ip(&IpAddr::V4(i))),
        ("IP4", _) => Ok(format!("fqdn4:{:?}", host(a)?)),
        (_, Ok(_)) => Err(format!("{a:?} with IP6")),
        _ if a.contains(':') => v6(a),
        _ => Ok(format!("fqdn6:{:?}", host(a)?)),
    }
}

fn fmtp(a: &webrtc_sdp::attribute_type::SdpAttributeFmtp, t: &str) -> R<String> {
    let (pt, v) = t.split_once(' ').ok_or("no format")?;
    int(pt)?;
    // 0..23: the values in the order of the projection
    const NAMES: [&str; 23] = [
        "packetization-mode", "level-asymmetry-allowed", "profile-level-id", "max-fs", "max-cpb", "max-dpb", "max-br", "max-mbps", "max-fr",
        "profile", "level-idx", "tier", "maxplaybackrate", "maxaveragebitrate", "usedtx", "stereo", "useinbandfec", "cbr", "ptime", "minptime",
        "maxptime", "apt", "rtx-time",
    ];
    let mut vals: Vec<String> = NAMES
        .iter()
        .map(|n| match *n {
            "profile-level-id" => 0x42000a.to_string(),
            "maxplaybackrate" => "48000".into(),
            "profile" | "level-idx" | "tier" | "apt" | "rtx-time" => "None".into(),
            _ => "0".into(),
        })
        .collect();
    let (mut red, mut dtmf, mut unknown): (Vec<u64>, &str, Vec<String>) = (vec![], "", vec![]);
    if !a.parameters.dtmf_tones.is_empty() {
        for p in v.split(',') {
            let (x, y) = p.split_once('-').unwrap_or((p, p));
            for x in [x, y] {
                if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
                    return Err(format!("{p:?} in a list of telephone events"));
                }
            }
        }
        dtmf = v;
    } else if !a.parameters.encodings.is_empty() {
        red = v.split('/').map(int).collect::<R<_>>()?;
    } else {
        let mut seen = vec![];
        for p in v.split(';') {
            unpadded(p)?;
            let (k, x) = match p.split_once('=') {
                Some((k, x)) if NAMES.contains(&k) => (k, x),
                _ => {
                    unknown.push(p.to_string());
                    continue;
                }
            };
            if seen.contains(&k) {
                return Err(format!("{k} twice"));
            }
            seen.push(k);
            let i = NAMES.iter().position(|n| *n == k).unwrap();
            vals[i] = match k {
                "profile-level-id" => {
                    if x.len() != 6 || !x.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return Err(format!("profile-level-id {x:?}"));
                    }
                    u32::from_str_radix(x, 16).unwrap().to_string()
                }
                "level-asymmetry-allowed" | "usedtx" | "stereo" | "useinbandfec" | "cbr" => {
                    one_of(x, &["0", "1"])?;
                    x.to_string()
                }
                "profile" | "level-idx" | "tier" | "apt" | "rtx-time" => opt_int(Some(x))?,
                _ => int(x)?.to_string(),
            };
        }
    }
    let v: Vec<String> = NAMES.iter().zip(&vals).map(|(n, v)| format!("{n}={v}")).collect();
    Ok(format!("fmtp {pt} {} red={red:?} dtmf={} unknown={}", v.join(" "), NORM.s(dtmf), NORM.l(&unknown)))
}

/// the parts of [..] separated at the outermost commas
fn bracket(t: &str) -> R<Vec<&str>> {
    let inner = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')).ok_or_else(|| format!("{t:?} has no brackets"))?;
    let (mut v, mut depth, mut at) = (vec![], 0i32, 0);
    for (i, c) in inner.char_indices() {
        match c {
            '[' => depth += 1,
            ']' => depth -= 1,
            ',' if depth == 0 => {
                v.push(&inner[at..i]);
                at = i + 1;
            }
            _ => (),
        }
    }
    v.push(&inner[at..]);
    Ok(v)
}
fn xy(t: &str) -> R<String> {
    let ints = |v: &[&str]| v.iter().map(|x| int(x)).collect::<R<Vec<u64>>>();
    if !t.starts_with('[') {
        return Ok(format!("list{:?}", ints(&[t])?));
    }
    let v = bracket(t)?;
    if v.len() == 1 && v[0].contains(':') {
        let p = ints(&v[0].split(':').collect::<Vec<_>>())?;
        return match p[..] {
            [a, b] => Ok(format!("range({a},{b},None)")),
            [a, s, b] => Ok(format!("range({a},{b},Some({s}))")),
            _ => Err(format!("the range {t:?}")),
        };
    }
    Ok(format!("list{:?}", ints(&v)?))
}
fn span(t: &str) -> R<(String, String)> {
    let (a, b) = t.split_once('-').ok_or_else(|| format!("the range {t:?}"))?;
    Ok((f32s(a)?, f32s(b)?))
}
fn imgset(t: &str) -> R<String> {
    let (mut x, mut y) = (None, None);
    let (mut sar, mut par, mut q) = ("None".to_string(), "None".to_string(), "None".to_string());
    let mut seen = vec![];
    for p in bracket(t)? {
        let (k, v) = p.split_once('=').ok_or_else(|| format!("{p:?} in {t:?}"))?;
        if seen.contains(&k) {
            return Err(format!("{k} twice in {t:?}"));
        }
        seen.push(k);
        match k {
            "x" => x = Some(xy(v)?),
            "y" => y = Some(xy(v)?),
            "sar" if !v.starts_with('[') => sar = format!("list[{}]", f32s(v)?),
            "sar" => {
                let b = bracket(v)?;
                sar = if b.len() == 1 && b[0].contains('-') {
                    let (a, b) = span(b[0])?;
                    format!("range({a},{b})")
                } else {
                    format!("list[{}]", b.iter().map(|x| f32s(x)).collect::<R<Vec<_>>>()?.join(", "))
                };
            }
            "par" => {
                let b = bracket(v)?;
                let (a, b) = span(b[0])?;
                par = format!("({a},{b})");
            }
            "q" => q = format!("Some({})", f32s(v)?),
            _ => return Err(format!("{k:?} in {t:?}")),
        }
    }
    if seen.get(..2) != Some(&["x", "y"]) {
        return Err(format!("x and y do not come first in {t:?}"));
    }
    Ok(format!("{{x={} y={} sar={sar} par={par} q={q}}}", x.unwrap(), y.unwrap()))
}
fn imageattr(t: &str) -> R<String> {
    let w = words(t)?;
    if w[0] != "*" {
        int(w[0])?;
    }
    let mut lists: [Vec<&str>; 2] = [vec![], vec![]];
    let mut cur: Option<usize> = None;
    for x in &w[1..] {
        match (*x, cur) {
            ("send", _) | ("recv", _) => {
                let k = (*x == "recv") as usize;
                if !lists[k].is_empty() {
                    return Err(format!("{x} twice"));
                }
                cur = Some(k);
            }
            (_, None) => return Err(format!("{x:?} before send and recv")),
            (_, Some(k)) => lists[k].push(x),
        }
    }
    if cur.is_none_or(|k| lists[k].is_empty()) {
        return Err("a direction without sets".into());
    }
    let show = |v: &[&str]| -> R<String> {
        if v == ["*"] {
            return Ok("*".into());
        }
        Ok(format!("[{}]", v.iter().map(|s| imgset(s)).collect::<R<Vec<_>>>()?.join(" ")))
    };
    Ok(format!("imageattr {} send={} recv={}", w[0], show(&lists[0])?, show(&lists[1])?))
}
fn simulcast(t: &str) -> R<String> {
    let w = words(t)?;
    let mut out = [String::new(), String::new()];
    if w.len() % 2 != 0 || w.len() > 4 {
        return Err(format!("{} words", w.len()));
    }
    for p in w.chunks(2) {
        one_of(p[0], &["send", "recv"])?;
        let k = (p[0] == "recv") as usize;
        if !out[k].is_empty() {
            return Err(format!("{} twice", p[0]));
        }
        let mut vs = vec![];
        for v in p[1].split(';') {
            let mut ids = vec![];
            for i in v.split(',') {
                let (m, id) = match i.strip_prefix('~') {
                    Some(r) => ("~", r),
                    None => ("", i),
                };
                if id.is_empty() {
                    return Err(format!("an empty identifier in {v:?}"));
                }
                ids.push(format!("{m}{id:?}"));
            }
            vs.push(ids.join("|"));
        }
        out[k] = vs.join(" ; ");
    }
    Ok(format!("simulcast send={} recv={}", out[0], out[1]))
}
fn rid(t: &str) -> R<String> {
    let mut p = t.splitn(3, ' ');
    let (id, dir) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
    one_of(dir, &["send", "recv"])?;
    const NAMES: [&str; 6] = ["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps"];
    let mut vals = [0u64; 6];
    let (mut pt, mut unknown, mut depends): (Vec<u64>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    if let Some(r) = p.next() {
        let mut seen = vec![];
        for (i, x) in r.split(';').enumerate() {
            unpadded(x)?;
            let (k, v) = x.split_once('=').unwrap_or((x, ""));
            let at = NAMES.iter().position(|n| *n == k).filter(|_| x.contains('='));
            let known = at.is_some() || ["pt", "depends"].contains(&k) && x.contains('=');
            if known && seen.contains(&k) {
                return Err(format!("{k} twice"));
            }
            seen.push(k);
            match (at, k) {
                (Some(n), _) => vals[n] = int(v)?,
                (_, "pt") if known => {
                    if i != 0 {
                        return Err("pt does not come first".into());
                    }
                    pt = v.split(',').map(int).collect::<R<_>>()?;
                }
                _ if known => {
                    depends = v.split(',').map(|s| s.to_string()).collect();
                    depends.iter().try_for_each(|d| unpadded(d))?
                }
                _ => unknown.push(x.to_string()),
            }
        }
    }
    Ok(format!(
        "rid {} {dir} pt={pt:?} w={} h={} fps={} fs={} br={} pps={} unknown={} depends={}",
        NORM.s(id),
        vals[0],
        vals[1],
        vals[2],
        vals[3],
        vals[4],
        vals[5],
        NORM.l(&unknown),
        NORM.l(&depends)
    ))
}
fn candidate(t: &str) -> R<String> {
    let w = words(t)?;
    if w.len() < 8 || w.len() % 2 != 0 {
        return Err(format!("{} words", w.len()));
    }
    one_of(w[2], &["UDP", "TCP", "udp", "tcp"])?;
    one_of(w[6], &["typ"])?;
    one_of(w[7], &["host", "srflx", "prflx", "relay"])?;
    let (mut raddr, mut rport, mut tcp, mut gen, mut ufrag, mut cost) = ("None".to_string(), None, "None", None, None, None);
    let mut unknown = String::new();
    for (i, p) in w[8..].chunks(2).enumerate() {
        match p[0] {
            "raddr" => {
                if i != 0 {
                    return Err("raddr does not follow the type".into());
                }
                raddr = address(p[1])?;
            }
            "rport" => rport = Some(p[1]),
            "tcptype" => {
                one_of(p[1], &["active", "passive", "so"])?;
                tcp = p[1];
            }
            "generation" => gen = Some(p[1]),
            "ufrag" => ufrag = Some(p[1].to_string()),
            "network-cost" => cost = Some(p[1]),
            _ => unknown.push_str(&format!("({},{})", NORM.s(p[0]), NORM.s(p[1]))),
        }
    }
    Ok(format!(
        "candidate f={} c={} t={} p={} a={} port={} typ={} raddr={raddr} rport={} tcp={tcp} gen={} ufrag={} cost={} unk={unknown}",
        NORM.s(w[0]),
        int(w[1])?,
        w[2].to_lowercase(),
        int(w[3])?,
        address(w[4])?,
        int(w[5])?,
        w[7],
        opt_int(rport)?,
        opt_int(gen)?,
        NORM.os(&ufrag),
        opt_int(cost)?
    ))
}

const FLAGS: [&str; 12] = [
    "bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch", "inactive", "recvonly", "sendonly", "sendrecv", "rtcp-mux",
    "rtcp-mux-only", "rtcp-rsize",
];

/// what a strict receiver reads in the printed attribute `t` (without a=); `a` tells only which of the forms of
/// an fmtp it is
pub fn attr(a: &SdpAttribute, t: &str) -> R<String> {
    if FLAGS.contains(&t) {
        return Ok(t.to_string());
    }
    let (name, v) = t.split_once(':').ok_or_else(|| format!("{t:?} has no value"))?;
    if v.is_empty() || v.starts_with([' ', '\t']) || v.ends_with([' ', '\t']) {
        return Err(format!("the value {v:?} is empty or has blanks around it"));
    }
    Ok(match name {
        "candidate" => candidate(v)?,
        "dtls-message" => {
            let (r, m) = v.split_once(' ').ok_or("no message")?;
            one_of(r, &["client", "server"])?;
            format!("dtls-message {r} {}", NORM.s(m))
        }
        "extmap" => {
            let mut p = v.splitn(3, ' ');
            let (i, url, ext) = (p.next().unwrap(), p.next().ok_or("no uri")?, p.next().map(|s| s.to_string()));
            let (i, d) = i.split_once('/').unwrap_or((i, "None"));
            one_of(d, &["None", "sendonly", "recvonly", "sendrecv"])?;
            format!("extmap {} {d} {} {}", int(i)?, NORM.s(url), NORM.os(&ext))
        }
        "fingerprint" => {
            let [h, f] = exactly(v)?;
            one_of(h, &["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"])?;
            for b in f.split(':') {
                if b.len() != 2 || !b.bytes().all(|c| c.is_ascii_digit() || (b'A'..=b'F').contains(&c)) {
                    return Err(format!("the byte {b:?}"));
                }
            }
            format!("fingerprint {h} {}", f.replace(':', "").to_lowercase())
        }
        "fmtp" => match a {
            SdpAttribute::Fmtp(f) => fmtp(f, v)?,
            _ => return Err("an fmtp".into()),
        },
        "framerate" => format!("framerate {:?}", decimal(v)?.parse::<f64>().map_err(|e| e.to_string())?),
        "group" => {
            let w = words(v)?;
            one_of(w[0], &["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"])?;
            format!("group {} {}", w[0], NORM.l(&owned(&w[1..])))
        }
        "ice-options" => format!("ice-options {}", NORM.l(&owned(&words(v)?))),
        "ice-pacing" | "max-message-size" | "ptime" | "maxptime" | "sctp-port" => format!("{name} {}", int(v)?),
        "ice-pwd" | "ice-ufrag" | "identity" | "label" | "mid" => format!("{name} {}", NORM.s(v)),
        "imageattr" => imageattr(v)?,
        "msid" => {
            let (i, d) = match v.split_once(' ') {
                Some((i, d)) => (i, Some(d.to_string())),
                None => (v, None),
            };
            format!("msid {} {}", NORM.s(i), NORM.os(&d))
        }
        "msid-semantic" => {
            let w = words(v)?;
            format!("msid-semantic {} {}", NORM.s(w[0]), NORM.l(&owned(&w[1..])))
        }
        "rid" => rid(v)?,
        "remote-candidates" => {
            let [c, a, p] = exactly(v)?;
            format!("remote-candidates {} {} {}", int(c)?, address(a)?, int(p)?)
        }
        "rtpmap" => {
            let (pt, r) = v.split_once(' ').ok_or("no codec")?;
            let p: Vec<&str> = r.split('/').collect();
            if !(2..=3).contains(&p.len()) {
                return Err(format!("{} parts", p.len()));
            }
            format!("rtpmap {} {} {} {}", int(pt)?, NORM.s(p[0]), int(p[1])?, opt_int(p.get(2).copied())?)
        }
        "rtcp" => match words(v)?[..] {
            [p] => format!("rtcp {} None", int(p)?),
            [p, n, t, a] => format!("rtcp {} {}", int(p)?, typed(n, t, a)?),
            _ => return Err("neither a port nor a port and an address".into()),
        },
        "rtcp-fb" => {
            let mut p = v.splitn(4, ' ');
            let (pt, ty) = (p.next().unwrap(), p.next().ok_or("no feedback")?);
            if pt != "*" {
                int(pt)?;
            }
            one_of(ty, &["ack", "ccm", "nack", "trr-int", "goog-remb", "transport-cc"])?;
            format!("rtcp-fb {pt} {ty} {} {}", NORM.s(p.next().unwrap_or("")), NORM.s(p.next().unwrap_or("")))
        }
        "sctpmap" => {
            let [p, w, n] = exactly(v)?;
            one_of(w, &["webrtc-datachannel"])?;
            format!("sctpmap {} {}", int(p)?, int(n)?)
        }
        "setup" => {
            one_of(v, &["active", "actpass", "holdconn", "passive"])?;
            format!("setup {v}")
        }
        "simulcast" => simulcast(v)?,
        "ssrc" => {
            let (i, r) = v.split_once(' ').map_or((v, None), |(i, r)| (i, Some(r)));
            let (k, x) = match r {
                None => (None, None),
                Some(r) => r.split_once(':').map_or((Some(r.to_string()), None), |(k, x)| (Some(k.to_string()), Some(x.to_string()))),
            };
            format!("ssrc {} {} {}", int(i)?, NORM.os(&k), NORM.os(&x))
        }
        "ssrc-group" => {
            let w = words(v)?;
            one_of(w[0], &["DUP", "FID", "FEC", "FEC-FR", "SIM"])?;
            let ids = w[1..].iter().map(|x| Ok(format!("{} None None", int(x)?))).collect::<R<Vec<_>>>()?;
            format!("ssrc-group {} {}", w[0], ids.join(", "))
        }
        _ => return Err(format!("the attribute name {name:?}")),
    })
}
pub fn bandwidth(v: &str) -> R<String> {
    let (k, n) = v.split_once(':').ok_or("no bandwidth")?;
    let n = int(n)?;
    Ok(match k {
        "AS" | "CT" | "TIAS" => format!("{k} {n}"),
        _ => format!("other {} {n}", NORM.s(k)),
    })
}
pub fn connection(v: &str) -> R<String> {
    let [n, t, a] = exactly(v)?;
    let p: Vec<&str> = a.split('/').collect();
    if p.len() > 3 {
        return Err(format!("{a:?}"));
    }
    Ok(format!("{} ttl={} n={}", typed(n, t, p[0])?, opt_int(p.get(1).copied())?, opt_int(p.get(2).copied())?))
}
pub fn origin(v: &str) -> R<String> {
    let [u, i, s, n, t, a] = exactly(v)?;
    Ok(format!("{u:?} {} {} {}", int(i)?, int(s)?, typed(n, t, a)?))
}
pub fn timing(v: &str) -> R<String> {
    let [a, b] = exactly(v)?;
    Ok(format!("{} {}", int(a)?, int(b)?))
}
pub fn mline(v: &str) -> R<String> {
    let w = words(v)?;
    if w.len() < 4 {
        return Err(format!("{} words", w.len()));
    }
    one_of(w[0], &["audio", "video", "application"])?;
    let (p, n) = w[1].split_once('/').unwrap_or((w[1], "0"));
    one_of(
        w[2],
        &[
            "RTP/AVP", "RTP/AVPF", "RTP/SAVP", "RTP/SAVPF", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF",
            "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP",
        ],
    )?;
    let f = if w[0] == "application" { format!("str{:?}", &w[3..]) } else { format!("int{:?}", w[3..].iter().map(|x| int(x)).collect::<R<Vec<_>>>()?) };
    Ok(format!("{} {}/{} {} {f}", w[0], int(p)?, int(n)?, w[2]))
}

/// what a strict receiver reads in the printed session `t`; `hints` are the attributes whose lines are expected,
/// those of the session and those of each media section
pub fn session(t: &str, hints: &[Vec<&SdpAttribute>]) -> R<Vec<String>> {
    let body = t.strip_suffix("\r\n").ok_or("the last line does not end with CRLF")?;
    let lines: Vec<&str> = body.split("\r\n").collect();
    let mut out = vec![];
    // connection and bandwidths of the section, which the projection has in this order
    let (mut conn, mut bw): (Option<String>, Vec<String>) = (None, vec![]);
    let (mut timing_seen, mut attrs_begun, mut sec, mut na) = (false, false, 0usize, 0usize);
    let flush = |out: &mut Vec<String>, conn: &mut Option<String>, bw: &mut Vec<String>| {
        out.extend(conn.take());
        out.append(bw);
    };
    for (i, l) in lines.iter().enumerate() {
        let at = |e: String| format!("line {i} {l:?}: {e}");
        let b = l.as_bytes();
        if l.contains(['\r', '\n']) || b.len() < 3 || b[1] != b'=' {
            return Err(at("not a line of one letter, = and a value".into()));
        }
        let (ty, v) = (b[0] as char, &l[2..]);
        if (v.starts_with([' ', '\t']) || v.ends_with([' ', '\t'])) && *l != "s= " {
            return Err(at("blanks around the value".into()));
        }
        if i < 3 && ty != ['v', 'o', 's'][i] {
            return Err(at("v, o and s do not come first".into()));
        }
        if i >= 3 && (attrs_begun && ['t', 'b', 'c'].contains(&ty) || ['v', 'o', 's'].contains(&ty)) {
            return Err(at("not in its place".into()));
        }
        match ty {
            'v' => out.push(format!("v {}", int(v).map_err(at)?)),
            'o' => out.push(format!("o {}", origin(v).map_err(at)?)),
            's' => out.push(format!("s {}", NORM.os(&Some(v).filter(|v| *v != " ").map(|v| v.to_string())))),
            't' if !timing_seen && sec == 0 => {
                timing_seen = true;
                out.push(format!("t {}", timing(v).map_err(at)?));
            }
            'c' if conn.is_none() => conn = Some(format!("c {}", connection(v).map_err(at)?)),
            'b' => bw.push(format!("b {}", bandwidth(v).map_err(at)?)),
            'm' => {
                flush(&mut out, &mut conn, &mut bw);
                sec += 1;
                na = 0;
                attrs_begun = false;
                out.push(format!("M {}", mline(v).map_err(at)?));
            }
            'a' => {
                flush(&mut out, &mut conn, &mut bw);
                attrs_begun = true;
                let a = hints.get(sec).and_then(|h| h.get(na)).ok_or_else(|| at("one attribute too many".into()))?;
                na += 1;
                out.push(format!("a {}", attr(a, v).map_err(at)?));
            }
            _ => return Err(at("not a line for this place".into())),
        }
    }
    flush(&mut out, &mut conn, &mut bw);
    Ok(out)
}
