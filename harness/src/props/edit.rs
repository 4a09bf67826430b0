//! C19 and C20: editing and building sessions through the public interface.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::{build, proj, sess};
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::OnceLock;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession};

// ---------------------------------------------------------------------------------------------
// C19

const CODEC_KINDS: &[&str] = &["rtpmap", "fmtp", "rtcp-fb", "sctpmap", "sctp-port"];

/// the type value of each kind of attribute
fn types() -> &'static HashMap<&'static str, SdpAttributeType> {
    static T: OnceLock<HashMap<&'static str, SdpAttributeType>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = HashMap::new();
        for k in gen::all_kinds() {
            let mut s = Src::random(7, 20);
            let a = build::attr(&mut s, k, &Env::default()).unwrap();
            m.insert(k, SdpAttributeType::from(&a));
        }
        m
    })
}

#[derive(Clone)]
struct Item {
    kind: &'static str,
    canon: String,
    text: String,
}
fn item(kind: &'static str, a: &SdpAttribute) -> Item {
    Item { kind, canon: proj::attr(a, false), text: a.to_string() }
}

#[derive(Clone)]
struct MM {
    media: SdpMediaValue,
    port: u32,
    count: u32,
    proto: SdpProtocolValue,
    strings: bool,
    formats: Vec<String>,
    conn: Option<(String, String)>,
    bw: Vec<(String, String)>,
    attrs: Vec<Item>,
}

fn check_attrs<'a>(
    what: &str,
    attrs: &[Item],
    all: &[SdpAttribute],
    get: &dyn Fn(SdpAttributeType) -> Option<&'a SdpAttribute>,
    many: Option<&dyn Fn(SdpAttributeType) -> Vec<&'a SdpAttribute>>,
) -> Res {
    let want: Vec<String> = attrs.iter().map(|a| a.canon.clone()).collect();
    let found: Vec<String> = all.iter().map(|a| proj::attr(a, false)).collect();
    ensure!(want == found, "{what}: attributes\n{}", proj::diff(&want, &found));
    for (k, t) in types() {
        let want: Vec<&str> = attrs.iter().filter(|a| a.kind == *k).map(|a| a.canon.as_str()).collect();
        let g = get(t.clone()).map(|a| proj::attr(a, false));
        ensure!(g.as_deref() == want.first().copied(), "{what}: get_attribute({k}) gives {g:?}, the first one is {:?}", want.first());
        if let Some(f) = many {
            let g: Vec<String> = f(t.clone()).into_iter().map(|a| proj::attr(a, false)).collect();
            ensure!(g == want, "{what}: get_attributes_of_type({k}) gives {g:?}, expected {want:?}");
        }
    }
    Ok(())
}

fn check_media(what: &str, m: &SdpMedia, mm: &MM) -> Res {
    let f = match m.get_formats() {
        SdpFormatList::Integers(v) => (false, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
        SdpFormatList::Strings(v) => (true, v.clone()),
    };
    ensure!(*m.get_type() == mm.media, "{what}: get_type is {:?}, expected {:?}", m.get_type(), mm.media);
    ensure!(m.get_port() == mm.port, "{what}: get_port is {}, expected {}", m.get_port(), mm.port);
    ensure!(m.get_port_count() == mm.count, "{what}: get_port_count is {}, expected {}", m.get_port_count(), mm.count);
    ensure!(*m.get_proto() == mm.proto, "{what}: get_proto is {:?}, expected {:?}", m.get_proto(), mm.proto);
    ensure!(f == (mm.strings, mm.formats.clone()), "{what}: get_formats is {f:?}, expected {:?}", (mm.strings, &mm.formats));
    let c = m.get_connection().as_ref().map(proj::connection);
    ensure!(c == mm.conn.as_ref().map(|c| c.0.clone()), "{what}: get_connection is {c:?}, expected {:?}", mm.conn);
    let b: Vec<String> = m.get_bandwidth().iter().map(|b| proj::bandwidth(b, false)).collect();
    ensure!(b == mm.bw.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), "{what}: get_bandwidth is {b:?}, expected {:?}", mm.bw);
    check_attrs(what, &mm.attrs, m.get_attributes(), &|t| m.get_attribute(t), Some(&|t| m.get_attributes_of_type(t)))
}

/// the printed lines of a section, as far as their order among each other is fixed
fn check_media_text(what: &str, m: &SdpMedia, mm: &MM) -> Res {
    let t = m.to_string();
    ensure!(t.ends_with("\r\n"), "{what}: prints without a line end: {t:?}");
    let ls: Vec<&str> = t.split_terminator("\r\n").collect();
    let head = format!(
        "m={} {}{} {} {}",
        proj::media_value(&mm.media),
        mm.port,
        if mm.count == 0 { String::new() } else { format!("/{}", mm.count) },
        proj::proto(&mm.proto),
        mm.formats.join(" ")
    );
    ensure!(ls[0] == head, "{what}: the media line prints as {:?}, expected {head:?}", ls[0]);
    let of = |p: &str| -> Vec<String> { ls[1..].iter().filter(|l| l.starts_with(p)).map(|l| l[2..].to_string()).collect() };
    let want: Vec<String> = mm.attrs.iter().map(|a| a.text.clone()).filter(|t| !t.is_empty()).collect();
    ensure!(of("a=") == want, "{what}: printed attribute lines\n{}", proj::diff(&want, &of("a=")));
    let want: Vec<String> = mm.bw.iter().map(|b| b.1.clone()).collect();
    ensure!(of("b=") == want, "{what}: printed bandwidth lines {:?}, expected {want:?}", of("b="));
    let want: Vec<String> = mm.conn.iter().map(|c| c.1.clone()).collect();
    ensure!(of("c=") == want, "{what}: printed connection lines {:?}, expected {want:?}", of("c="));
    ensure!(
        ls.len() == 1 + want.len() + mm.bw.len() + mm.attrs.iter().filter(|a| !a.text.is_empty()).count(),
        "{what}: prints {} lines\n{t}",
        ls.len()
    );
    Ok(())
}

fn any_attr(s: &mut Src, near: &[Item]) -> (&'static str, SdpAttribute) {
    let kinds = gen::all_kinds();
    let k = if !near.is_empty() && s.pct(40) { near[s.idx(near.len())].kind } else { *s.pick(&kinds) };
    any_attr_of(s, k)
}
fn any_attr_of(s: &mut Src, k: &'static str) -> (&'static str, SdpAttribute) {
    if s.pct(30) {
        let t = gen::attr(s, k, &Env::default()).plain();
        if let Ok(a) = SdpAttribute::from_str(&t) {
            return (k, a);
        }
    }
    (k, build::attr(s, k, &Env::default()).unwrap())
}
fn pick_kind(s: &mut Src, near: &[Item]) -> &'static str {
    if !near.is_empty() && s.pct(65) {
        near[s.idx(near.len())].kind
    } else {
        let kinds = gen::all_kinds();
        *s.pick(&kinds)
    }
}
pub fn proto(s: &mut Src) -> SdpProtocolValue {
    match s.below(11) {
        0 => SdpProtocolValue::UdpTlsRtpSavpf,
        1 => SdpProtocolValue::RtpAvp,
        2 => SdpProtocolValue::RtpAvpf,
        3 => SdpProtocolValue::RtpSavp,
        4 => SdpProtocolValue::RtpSavpf,
        5 => SdpProtocolValue::TcpDtlsRtpSavp,
        6 => SdpProtocolValue::TcpDtlsRtpSavpf,
        7 => SdpProtocolValue::UdpTlsRtpSavp,
        8 => SdpProtocolValue::DtlsSctp,
        9 => SdpProtocolValue::UdpDtlsSctp,
        _ => SdpProtocolValue::TcpDtlsSctp,
    }
}
pub fn media_value(s: &mut Src) -> SdpMediaValue {
    match s.below(3) {
        0 => SdpMediaValue::Audio,
        1 => SdpMediaValue::Video,
        _ => SdpMediaValue::Application,
    }
}

fn kind_of(a: &SdpAttribute) -> &'static str {
    let t = SdpAttributeType::from(a);
    types().iter().find(|(_, x)| **x == t).map(|(k, _)| *k).unwrap_or("?")
}
/// the model of a section as it stands
fn model_of(m: &SdpMedia) -> MM {
    let (strings, formats) = match m.get_formats() {
        SdpFormatList::Integers(v) => (false, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
        SdpFormatList::Strings(v) => (true, v.clone()),
    };
    MM {
        media: m.get_type().clone(),
        port: m.get_port(),
        count: m.get_port_count(),
        proto: m.get_proto().clone(),
        strings,
        formats,
        conn: m.get_connection().as_ref().map(|c| (proj::connection(c), c.to_string())),
        bw: m.get_bandwidth().iter().map(|b| (proj::bandwidth(b, false), b.to_string())).collect(),
        attrs: m.get_attributes().iter().map(|a| item(kind_of(a), a)).collect(),
    }
}

fn new_media(s: &mut Src) -> (SdpMedia, MM, String) {
    let line = SdpMediaLine {
        media: media_value(s),
        port: gen::port(s),
        port_count: if s.pct(70) { 0 } else { gen::u32v(s) },
        proto: proto(s),
        formats: if s.flip() {
            let n = gen::count(s, 0, 4, 60);
            SdpFormatList::Integers((0..n).map(|_| gen::u32v(s)).collect())
        } else {
            let n = gen::count(s, 0, 4, 60);
            SdpFormatList::Strings((0..n).map(|_| gen::token(s)).collect())
        },
    };
    let (strings, formats) = match &line.formats {
        SdpFormatList::Integers(v) => (false, v.iter().map(|x| x.to_string()).collect()),
        SdpFormatList::Strings(v) => (true, v.clone()),
    };
    let mm = MM {
        media: line.media.clone(),
        port: line.port,
        count: line.port_count,
        proto: line.proto.clone(),
        strings,
        formats,
        conn: None,
        bw: vec![],
        attrs: vec![],
    };
    let d = format!("new({line})");
    (SdpMedia::new(line), mm, d)
}

/// one editing call on the section and on its model
fn media_op(s: &mut Src, m: &mut SdpMedia, mm: &mut MM) -> Result<(String, &'static str), Fail> {
    Ok(match s.below(17) {
        0..=3 => {
            let (k, a) = any_attr(s, &mm.attrs);
            let (it, d) = (item(k, &a), format!("add_attribute({a})"));
            let r = m.add_attribute(a);
            ensure!(r.is_ok() == gen::media_ok(k), "{d} gives {r:?}");
            if r.is_ok() {
                mm.attrs.push(it);
                (d, "add")
            } else {
                (d, "refused add")
            }
        }
        4..=6 => {
            let (k, a) = any_attr(s, &mm.attrs);
            let (it, d) = (item(k, &a), format!("set_attribute({a})"));
            let r = m.set_attribute(a);
            ensure!(r.is_ok() == gen::media_ok(k), "{d} gives {r:?}");
            if r.is_ok() {
                mm.attrs.retain(|x| x.kind != k);
                mm.attrs.push(it);
                (d, "set")
            } else {
                (d, "refused set")
            }
        }
        7 | 8 => {
            let k = pick_kind(s, &mm.attrs);
            m.remove_attribute(types()[k].clone());
            let n = mm.attrs.len();
            mm.attrs.retain(|x| x.kind != k);
            (format!("remove_attribute({k})"), if n == mm.attrs.len() { "remove absent" } else { "remove present" })
        }
        9 => {
            m.remove_codecs();
            mm.formats.clear();
            mm.attrs.retain(|x| !CODEC_KINDS.contains(&x.kind));
            ("remove_codecs()".into(), "remove_codecs")
        }
        10 | 11 => {
            let pt = gen::u8v(s);
            let r = build::rtpmap(s, pt);
            let d = format!("add_codec({r})");
            mm.formats.push(pt.to_string());
            mm.attrs.push(item("rtpmap", &SdpAttribute::Rtpmap(r.clone())));
            let res = m.add_codec(r);
            ensure!(res.is_ok(), "{d} gives {res:?}");
            (d, "add_codec")
        }
        12 => {
            let p = gen::u32v(s);
            m.set_port(p);
            mm.port = p;
            (format!("set_port({p})"), "set_port")
        }
        13 => {
            let b = build::bandwidth(s);
            let d = format!("add_bandwidth({b})");
            mm.bw.push((proj::bandwidth(&b, false), b.to_string()));
            m.add_bandwidth(b);
            (d, "add_bandwidth")
        }
        14 => {
            let c = build::connection(s);
            let d = format!("set_connection({c})");
            mm.conn = Some((proj::connection(&c), c.to_string()));
            m.set_connection(c);
            (d, "set_connection")
        }
        _ => {
            let name = if s.flip() { "webrtc-datachannel".to_string() } else { gen::token(s) };
            let (port, streams) = (gen::port(s) as u16, gen::port(s) as u16);
            let size = if s.pct(30) { 0 } else { gen::u32v(s) };
            let d = format!("add_datachannel({name:?}, {port}, {streams}, {size})");
            let r = m.add_datachannel(name.clone(), port, streams, size);
            ensure!(r.is_ok(), "{d} gives {r:?}");
            mm.media = SdpMediaValue::Application;
            let new = matches!(mm.proto, SdpProtocolValue::UdpDtlsSctp | SdpProtocolValue::TcpDtlsSctp);
            let set = |mm: &mut MM, k: &'static str, a: SdpAttribute| {
                mm.attrs.retain(|x| x.kind != k);
                mm.attrs.push(item(k, &a));
            };
            if new {
                mm.strings = true;
                mm.formats = vec![name];
                set(mm, "sctp-port", SdpAttribute::SctpPort(port as u64));
            } else {
                mm.strings = false;
                mm.formats = vec![port.to_string()];
                set(mm, "sctpmap", SdpAttribute::Sctpmap(SdpAttributeSctpmap { port, channels: streams as u32 }));
            }
            if size > 0 {
                set(mm, "max-message-size", SdpAttribute::MaxMessageSize(size as u64));
            }
            (d, if new { "add_datachannel new" } else { "add_datachannel old" })
        }
    })
}

fn c19_media(s: &mut Src, cx: &mut Ctx) -> Res {
    let (mut m, mut mm, d) = if s.pct(65) {
        new_media(s)
    } else {
        // a section that was parsed
        let t = sess::session(s, &sess::Opt { max_media: 3, max_attrs: 20, kinds: None }).plain();
        match parse_sdp(&t, false) {
            Ok(p) if !p.media.is_empty() => {
                let i = s.idx(p.media.len());
                let m = p.media[i].clone();
                let mm = model_of(&m);
                let d = format!("parsed {m}");
                cx.class("parsed section");
                (m, mm, d)
            }
            _ => new_media(s),
        }
    };
    cx.add_input(&d);
    check_media(&d, &m, &mm)?;
    let n = gen::count(s, 1, 12, 200);
    for _ in 0..n {
        let (d, c) = s.part(15, |s| media_op(s, &mut m, &mut mm))?;
        cx.add_input(&d);
        cx.class(c);
        check_media(&d, &m, &mm)?;
    }
    cx.nontrivial = n >= 2;
    check_media_text("at the end", &m, &mm)
}

fn c19_session(s: &mut Src, cx: &mut Ctx) -> Res {
    let o = build::origin(s);
    let v = gen::u64v(s);
    let name = match s.below(5) {
        0 => String::new(),
        1 => " \t ".into(),
        2 => format!(" {} ", gen::text(s)),
        _ => gen::text(s),
    };
    cx.add_input(&format!("new({v}, {o}, {name:?})"));
    let (oc, nm) = (proj::origin(&o), name.trim().to_string());
    let mut x = SdpSession::new(v, o, name);
    let mut attrs: Vec<Item> = vec![];
    let mut conn: Option<String> = None;
    let mut timing: Option<(u64, u64)> = None;
    let mut bw: Vec<String> = vec![];
    let mut media: Vec<MM> = vec![];
    let n = gen::count(s, 1, 10, 100);
    let mut d = String::from("new");
    for step in 0..=n {
        // compare
        ensure!(x.get_version() == v && x.version == v, "{d}: version {}", x.get_version());
        ensure!(proj::origin(x.get_origin()) == oc, "{d}: origin {}", proj::origin(x.get_origin()));
        let want = if nm.is_empty() { None } else { Some(nm.clone()) };
        ensure!(*x.get_session() == want, "{d}: get_session {:?}", x.get_session());
        ensure!(x.get_session_text() == if nm.is_empty() { " " } else { nm.as_str() }, "{d}: get_session_text {:?}", x.get_session_text());
        let c = x.get_connection().as_ref().map(proj::connection);
        ensure!(c == conn, "{d}: connection {c:?}, expected {conn:?}");
        let t = x.timing.as_ref().map(|t| (t.start, t.stop));
        ensure!(t == timing, "{d}: timing {t:?}, expected {timing:?}");
        let b: Vec<String> = x.bandwidth.iter().map(|b| proj::bandwidth(b, false)).collect();
        ensure!(b == bw, "{d}: bandwidth {b:?}, expected {bw:?}");
        check_attrs(&d, &attrs, &x.attribute, &|t| x.get_attribute(t), None)?;
        ensure!(x.media.len() == media.len(), "{d}: {} media sections, expected {}", x.media.len(), media.len());
        for (i, (m, mm)) in x.media.iter().zip(&media).enumerate() {
            check_media(&format!("{d}: section {i}"), m, mm)?;
        }
        ensure!(x.warnings.is_empty(), "{d}: warnings");
        if step == n {
            break;
        }
        // one call
        let c;
        (d, c) = s.part(12, |s| -> Result<(String, &'static str), Fail> { Ok(match s.below(12) {
            0..=3 => {
                let (k, a) = any_attr(s, &attrs);
                let (it, d) = (item(k, &a), format!("add_attribute({a})"));
                let r = x.add_attribute(a);
                ensure!(r.is_ok() == gen::session_ok(k), "{d} gives {r:?}");
                if r.is_ok() {
                    attrs.push(it);
                    (d, "add")
                } else {
                    (d, "refused add")
                }
            }
            4 => {
                let b = build::bandwidth(s);
                let d = format!("add_bandwidth({b})");
                bw.push(proj::bandwidth(&b, false));
                x.add_bandwidth(b);
                (d, "add_bandwidth")
            }
            5 => {
                let c = build::connection(s);
                let d = format!("set_connection({c})");
                conn = Some(proj::connection(&c));
                x.set_connection(c);
                (d, "set_connection")
            }
            6 => {
                let t = build::timing(s);
                let d = format!("set_timing({t})");
                timing = Some((t.start, t.stop));
                x.set_timing(t);
                (d, "set_timing")
            }
            7 | 8 => {
                let (mt, p, pr, addr) = (media_value(s), gen::port(s), proto(s), build::typed(s));
                let k = if s.flip() { *s.pick(&["sendrecv", "sendonly", "recvonly", "inactive"]) } else { pick_kind(s, &attrs) };
                let (k, a) = any_attr_of(s, k);
                let d = format!("add_media({mt}, {a}, {p}, {pr}, {addr})");
                let mm = MM {
                    media: mt.clone(),
                    port: p,
                    count: 1,
                    proto: pr.clone(),
                    strings: false,
                    formats: vec![],
                    conn: Some((format!("{} ttl=None n=None", proj::typed(&addr)), String::new())),
                    bw: vec![],
                    attrs: vec![item(k, &a)],
                };
                let r = x.add_media(mt, a, p, pr, addr);
                ensure!(r.is_ok() == gen::media_ok(k), "{d} gives {r:?}");
                if r.is_ok() {
                    media.push(mm);
                    (d, "add_media")
                } else {
                    (d, "refused add_media")
                }
            }
            9 => {
                let n = s.below(4);
                let mut v = vec![];
                let mut d = String::from("extend_media(");
                for _ in 0..n {
                    let (m, mm, x) = new_media(s);
                    v.push(m);
                    media.push(mm);
                    d.push_str(&x);
                }
                x.extend_media(v);
                (d, "extend_media")
            }
            10 if !media.is_empty() => {
                let i = s.idx(media.len());
                let (d, _) = media_op(s, &mut x.media[i], &mut media[i])?;
                (format!("media[{i}].{d}"), "edit of a section")
            }
            _ => {
                // lines
                let n = s.below(5);
                let mut ls = vec![];
                let mut d = String::from("parse_session_vector(");
                for _ in 0..n {
                    let l = match s.below(4) {
                        0 => {
                            let c = build::connection(s);
                            conn = Some(proj::connection(&c));
                            format!("c={c}")
                        }
                        1 => {
                            let b = build::bandwidth(s);
                            bw.push(proj::bandwidth(&b, false));
                            format!("b={b}")
                        }
                        2 => {
                            let t = build::timing(s);
                            timing = Some((t.start, t.stop));
                            format!("t={t}")
                        }
                        _ => {
                            let k = *s.pick(&["ice-lite", "group", "setup", "sendrecv", "ice-options", "ice-ufrag", "fingerprint", "extmap", "identity"]);
                            let a = build::attr(s, k, &Env::default()).unwrap();
                            attrs.push(item(k, &a));
                            format!("a={a}")
                        }
                    };
                    d.push_str(&format!("{l:?} "));
                    match parse_sdp_line(&l, 5) {
                        Ok(x) => ls.push(x),
                        Err(e) => return fail(format!("a printed line is rejected: {e}")),
                    }
                }
                let r = x.parse_session_vector(&mut ls);
                ensure!(r.is_ok(), "{d} gives {r:?}");
                ensure!(ls.is_empty(), "{d}: lines are left over");
                (d, "parse_session_vector")
            }
        }) })?;
        cx.add_input(&d);
        cx.class(c);
    }
    cx.nontrivial = n >= 2;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

fn valid_pt(s: &mut Src) -> u8 {
    let mut x = if s.pct(70) { s.range(96, 127) } else { s.below(128) };
    while !gen::valid_fmt(x) {
        x = (x + 1) % 128;
    }
    x as u8
}
fn formats_of(m: &SdpMedia) -> Vec<String> {
    match m.get_formats() {
        SdpFormatList::Integers(v) => v.iter().map(|x| x.to_string()).collect(),
        SdpFormatList::Strings(v) => v.clone(),
    }
}
fn env_of(m: &SdpMedia) -> Env {
    let mut e = Env { ctx: true, ..Env::default() };
    let f = formats_of(m);
    e.pts = f.iter().filter_map(|x| x.parse().ok()).filter(|x: &u8| *x < 128).collect();
    e.rid_pts = Some(f.iter().filter_map(|x| x.parse::<u16>().ok().filter(|n| n.to_string() == *x)).collect());
    for a in m.get_attributes() {
        if let SdpAttribute::Rid(r) = a {
            match r.direction {
                SdpSingleDirection::Send => e.send_rids.push(r.id.clone()),
                SdpSingleDirection::Recv => e.recv_rids.push(r.id.clone()),
            }
        }
    }
    e
}
/// edits a section and leaves it one that may be sent
fn edit_valid(s: &mut Src, m: &mut SdpMedia, extmap: bool, need_conn: bool, log: &mut String) -> Res {
    let n = gen::count(s, 0, 10, 80);
    let allow = |k: &str| gen::media_ok(k) && (k != "extmap" || extmap);
    let kinds: Vec<&'static str> = gen::all_kinds().into_iter().filter(|k| allow(k)).collect();
    for _ in 0..n {
        let env = env_of(m);
        let d = s.part(8, |s| -> Result<String, Fail> { Ok(match s.below(14) {
            0..=5 | 13 => {
                let k = match s.below(5) {
                    0 => "rid",
                    1 if !(env.send_rids.is_empty() && env.recv_rids.is_empty()) => "simulcast",
                    _ => *s.pick(&kinds),
                };
                match build::attr(s, k, &env) {
                    None => return Ok(String::new()),
                    Some(a) => {
                        let d = format!("{}_attribute({a})", "add");
                        let r = if s.pct(65) { m.add_attribute(a) } else { m.set_attribute(a) };
                        ensure!(r.is_ok(), "{d} gives {r:?}");
                        d
                    }
                }
            }
            6 => {
                let k = *s.pick(&kinds);
                m.remove_attribute(types()[k].clone());
                format!("remove_attribute({k})")
            }
            7 => {
                m.remove_codecs();
                "remove_codecs()".into()
            }
            8 | 9 => {
                let r = build::rtpmap(s, 0);
                let r = SdpAttributeRtpmap { payload_type: valid_pt(s), ..r };
                let d = format!("add_codec({r})");
                let res = m.add_codec(r);
                ensure!(res.is_ok(), "{d} gives {res:?}");
                d
            }
            10 => {
                m.add_bandwidth(build::bandwidth(s));
                "add_bandwidth".into()
            }
            11 => {
                m.set_connection(build::connection(s));
                "set_connection".into()
            }
            _ => {
                if s.pct(30) {
                    let name = if s.flip() { "webrtc-datachannel".to_string() } else { gen::token(s) };
                    let (a, b, c) = (gen::port(s) as u16, gen::port(s) as u16, if s.flip() { 0 } else { gen::u32v(s) });
                    let d = format!("add_datachannel({name:?},{a},{b},{c})");
                    let r = m.add_datachannel(name, a, b, c);
                    ensure!(r.is_ok(), "{d} gives {r:?}");
                    d
                } else {
                    let p = gen::port(s);
                    m.set_port(p);
                    format!("set_port({p})")
                }
            }
        }) })?;
        log.push_str(&d);
        log.push('\n');
    }
    if need_conn && m.get_connection().is_none() {
        m.set_connection(build::connection(s));
    }
    if formats_of(m).is_empty() {
        if *m.get_type() == SdpMediaValue::Application && s.flip() {
            let r = m.add_datachannel("webrtc-datachannel".into(), 5000, 256, 0);
            ensure!(r.is_ok(), "add_datachannel gives {r:?}");
        } else {
            let pt = valid_pt(s);
            let r = m.add_codec(build::rtpmap(s, pt));
            ensure!(r.is_ok(), "add_codec gives {r:?}");
        }
    }
    if m.get_attribute(SdpAttributeType::RtcpMuxOnly).is_some() && m.get_attribute(SdpAttributeType::RtcpMux).is_none() {
        let r = m.add_attribute(SdpAttribute::RtcpMux);
        ensure!(r.is_ok(), "add_attribute(rtcp-mux) gives {r:?}");
    }
    let f = formats_of(m);
    let bad = m.get_attributes().iter().any(|a| match a {
        SdpAttribute::Rid(r) => r.formats.iter().any(|p| !f.contains(&p.to_string())),
        _ => false,
    });
    if bad {
        m.remove_attribute(SdpAttributeType::Rid);
    }
    let e = env_of(m);
    let bad = m.get_attributes().iter().any(|a| match a {
        SdpAttribute::Simulcast(x) => {
            let miss = |v: &[SdpAttributeSimulcastVersion], ids: &[String]| v.iter().any(|v| v.ids.iter().any(|i| !ids.contains(&i.id)));
            miss(&x.send, &e.send_rids) || miss(&x.receive, &e.recv_rids)
        }
        _ => false,
    });
    if bad {
        m.remove_attribute(SdpAttributeType::Simulcast);
    }
    Ok(())
}

/// like `proj::session`, with the formats of a media line as words
pub fn words(x: &SdpSession) -> Vec<String> {
    let mut v = proj::session(x, true);
    as_words(&mut v);
    v
}
pub fn as_words(v: &mut [String]) {
    for l in v.iter_mut() {
        if l.starts_with("M ") {
            *l = l.replace("int[", "[").replace("str[", "[").replace(['"', ','], "");
        }
    }
}

/// a session made with constructors and editing calls that keeps the cross-line rules
pub fn built(s: &mut Src, cx: &mut Ctx) -> Result<SdpSession, Fail> {
    let mut log = String::new();
    let name = match s.below(6) {
        0 => String::new(),
        1 => " ".into(),
        _ => gen::text(s),
    };
    let mut x = SdpSession::new(0, build::origin(s), name);
    let extmap_media = s.flip();
    let session_conn = s.pct(60);
    let kinds: Vec<&'static str> = gen::all_kinds().into_iter().filter(|k| gen::session_ok(k) && (*k != "extmap" || !extmap_media)).collect();
    for _ in 0..gen::count(s, 0, 5, 60) {
        let k = *s.pick(&kinds);
        if let Some(a) = s.part(12, |s| build::attr(s, k, &Env::default())) {
            let d = format!("add_attribute({a})");
            let r = x.add_attribute(a);
            ensure!(r.is_ok(), "{d} gives {r:?}");
            log.push_str(&d);
            log.push('\n');
        }
    }
    for _ in 0..(if s.pct(60) { 0 } else { gen::count(s, 1, 3, 20) }) {
        x.add_bandwidth(build::bandwidth(s));
    }
    x.set_timing(build::timing(s));
    let n = gen::count(s, 0, 3, 12);
    if session_conn {
        x.set_connection(build::connection(s));
    }
    for _ in 0..n {
        if s.flip() {
            let (dir, mt, p, pr, ad) = s.part(30, |s| {
                let dir = match s.below(4) {
                    0 => SdpAttribute::Sendrecv,
                    1 => SdpAttribute::Sendonly,
                    2 => SdpAttribute::Recvonly,
                    _ => SdpAttribute::Inactive,
                };
                (dir, media_value(s), gen::port(s), proto(s), build::typed(s))
            });
            let before = x.media.len();
            log.push_str(&format!("add_media({mt}, {dir}, {p}, {pr}, {ad})\n"));
            let r = x.add_media(mt, dir, p, pr, ad);
            ensure!(r.is_ok(), "add_media gives {r:?}");
            cx.class("add_media");
            ensure!(x.media.len() == before + 1, "add_media makes {before} sections {}\n{log}", x.media.len());
            let m = match x.media.last_mut() {
                Some(m) => m,
                None => return fail("add_media adds no section"),
            };
            edit_valid(s, m, extmap_media, !session_conn, &mut log)?;
        } else {
            let mt = media_value(s);
            let k = s.range(1, 5);
            let formats = if mt == SdpMediaValue::Application {
                SdpFormatList::Strings((0..k).map(|_| if s.flip() { "webrtc-datachannel".into() } else { gen::token(s) }).collect())
            } else {
                SdpFormatList::Integers((0..k).map(|_| valid_pt(s) as u32).collect())
            };
            let line = SdpMediaLine { media: mt, port: gen::port(s), port_count: if s.pct(70) { 0 } else { gen::u32v(s) }, proto: proto(s), formats };
            log.push_str(&format!("SdpMedia::new({line})\n"));
            let mut m = SdpMedia::new(line);
            edit_valid(s, &mut m, extmap_media, !session_conn, &mut log)?;
            x.extend_media(vec![m]);
            cx.class("SdpMedia::new");
        }
    }
    cx.input(log.clone());
    cx.nontrivial = x.attribute.len() + x.media.len() > 0;
    Ok(x)
}
fn c20(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = built(s, cx)?;
    let t1 = x.to_string();
    let y = match parse_sdp(&t1, true) {
        Ok(y) => y,
        Err(e) => return fail(format!("the text of a built session is rejected: {e}\n{t1}")),
    };
    let (a, b) = (words(&x), words(&y));
    ensure!(a == b, "the text of a built session has another meaning:\n{}--- text\n{t1}", proj::diff(&a, &b));
    ensure!(y.warnings.is_empty(), "warnings");
    let t2 = y.to_string();
    ensure!(t1 == t2, "printing is not stable\n--- first\n{t1}--- second\n{t2}");
    Ok(())
}
/// each kind of attribute alone
fn c20_attr(s: &mut Src, cx: &mut Ctx) -> Res {
    let kinds = gen::all_kinds();
    let k = *s.pick(&kinds);
    let a = build::attr(s, k, &Env::default()).unwrap();
    let t = a.to_string();
    cx.input(t.clone());
    cx.class(k);
    if k == "fmtp" && t.is_empty() {
        return Ok(());
    }
    cx.nontrivial = true;
    ensure!(SdpAttributeType::from(&a).to_string() == k, "the kind of {t:?} is {}", SdpAttributeType::from(&a));
    match SdpAttribute::from_str(&t) {
        Err(e) => fail(format!("the text of a built attribute is rejected: {e}\n{t:?}")),
        Ok(b) => {
            let (x, y) = (proj::attr(&a, true), proj::attr(&b, true));
            ensure!(x == y, "the text {t:?} of a built attribute has another meaning\n  built  {x}\n  parsed {y}");
            ensure!(b.to_string() == t, "printing is not stable: {t:?} then {:?}", b.to_string());
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            rule: "a history of at least two editing calls, compared with the model after each",
            subs: vec![
                Sub { name: "media", quick: 100_000, thorough: 1_500_000, f: c19_media },
                Sub { name: "session", quick: 100_000, thorough: 1_000_000, f: c19_session },
            ],
            extra: None,
        },
        Prop {
            id: "C20",
            rule: "a built session with at least one attribute or media section; a built attribute that prints to a non-empty text",
            subs: vec![
                Sub { name: "session", quick: 200_000, thorough: 2_000_000, f: c20 },
                Sub { name: "attribute", quick: 400_000, thorough: 6_000_000, f: c20_attr },
            ],
            extra: None,
        },
    ]
}
