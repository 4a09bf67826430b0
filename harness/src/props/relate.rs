//! C26 to C28: masked copies as descriptions, entry points against each other, sections by themselves.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::invalid;
use crate::props::session::{any_text, err_full, mutate_line};
use crate::sess::{self, Opt};
use crate::{build, proj};
use std::convert::TryFrom;
use std::str::FromStr;
use webrtc_sdp::address::{Address, AddressType, AddressTyped, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::{parse_media, parse_media_vector};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpLine, SdpSession, SdpType};

// ---------------------------------------------------------------------------------------------
// C26

fn sensitive(k: &str) -> bool {
    ["candidate", "remote-candidates", "ice-pwd", "ice-ufrag", "rtcp", "ssrc"].contains(&k)
}
fn no_prints(x: &mut SdpSession) {
    x.attribute.retain(|a| !matches!(a, SdpAttribute::Fingerprint(_)));
    for m in x.media.iter_mut() {
        m.remove_attribute(SdpAttributeType::Fingerprint);
    }
}
pub fn masked_reads(x: &SdpSession, an: &mut StatefulSdpAnonymizer, cx: &mut Ctx) -> Res {
    let mut c = x.masked_clone(an);
    c.warnings.clear();
    // replaced fingerprints are shorter than any hash and not meant to be read back
    no_prints(&mut c);
    let t = c.to_string();
    let b = match parse_sdp(&t, true) {
        Ok(b) => b,
        Err(e) => return fail(format!("the masked copy is rejected: {e}\n--- masked copy\n{t}")),
    };
    let (want, found) = (proj::session(&c, true), proj::session(&b, true));
    ensure!(want == found, "the printed masked copy has another meaning:\n{}--- masked copy\n{t}", proj::diff(&want, &found));
    let t2 = b.to_string();
    ensure!(t == t2, "printing the masked copy is not stable\n--- first\n{t}--- second\n{t2}");
    // parts by themselves
    for a in c.attribute.iter().chain(c.media.iter().flat_map(|m| m.get_attributes())) {
        let t = a.to_string();
        if t.is_empty() {
            continue;
        }
        match SdpAttribute::from_str(&t) {
            Ok(b) => ensure!(proj::attr(a, true) == proj::attr(&b, true), "the masked attribute {t:?} has another meaning: {} and {}", proj::attr(a, true), proj::attr(&b, true)),
            Err(e) => return fail(format!("the masked attribute {t:?} is rejected: {e}")),
        }
    }
    // a masked copy of what was read
    let mut c2 = b.masked_clone(an);
    no_prints(&mut c2);
    let t3 = c2.to_string();
    ensure!(parse_sdp(&t3, true).is_ok(), "a masked copy of a masked copy is rejected\n{t3}");
    cx.class_if(!c.media.is_empty(), "with media");
    Ok(())
}
fn used(s: &mut Src) -> StatefulSdpAnonymizer {
    let mut an = StatefulSdpAnonymizer::new();
    if s.pct(1) {
        // a long life
        let k = s.below(7);
        for i in 0..gen::count(s, 1000, 6000, 65_000) {
            match k {
                0 => an.mask_host(&i.to_string()),
                1 => an.mask_port(i as u32).to_string(),
                2 => an.mask_origin_user(&i.to_string()),
                3 => an.mask_ice_password(&i.to_string()),
                4 => an.mask_ice_user(&i.to_string()),
                5 => an.mask_cname(&i.to_string()),
                _ => {
                    let v4 = std::net::Ipv4Addr::from(i as u32);
                    an.mask_ip(&v4.into());
                    an.mask_ip(&v4.to_ipv6_compatible().into());
                    continue;
                }
            };
        }
        return an;
    }
    if s.pct(40) {
        let n = gen::count(s, 1, 30, 1500);
        for i in 0..n {
            match s.below(7) {
                0 => {
                    an.mask_host(&format!("h{i}"));
                }
                1 => {
                    an.mask_ip(&build::ip(s));
                }
                2 => {
                    an.mask_port(i as u32);
                }
                3 => {
                    an.mask_origin_user(&gen::token(s));
                }
                4 => {
                    an.mask_ice_password(&gen::token(s));
                }
                5 => {
                    an.mask_ice_user(&gen::token(s));
                }
                _ => {
                    an.mask_cname(&gen::text(s));
                }
            }
        }
    }
    an
}
fn c26_valid(s: &mut Src, cx: &mut Ctx) -> Res {
    let opt = Opt { max_media: 8, max_attrs: 40, kinds: if s.pct(60) { Some(sensitive) } else { None } };
    let mut an = used(s);
    let mut inputs = String::new();
    for _ in 0..1 + s.pct(20) as usize {
        let t = sess::session(s, &opt).plain();
        inputs.push_str(&t);
        inputs.push('\n');
        cx.input = inputs.clone();
        cx.nontrivial = true;
        match parse_sdp(&t, true) {
            Ok(x) => masked_reads(&x, &mut an, cx)?,
            Err(e) => return fail(format!("a valid description is rejected: {e}")),
        }
    }
    Ok(())
}
fn c26_mutated(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = sess::mutated(s);
    cx.input(&t);
    let x = match parse_sdp(&t, false) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    cx.nontrivial = true;
    let mut an = used(s);
    masked_reads(&x, &mut an, cx)
}
/// attributes made of values instead of text
fn c26_built(s: &mut Src, cx: &mut Ctx) -> Res {
    let k = *s.pick(&["candidate", "candidate", "candidate", "remote-candidates", "ice-pwd", "ice-ufrag", "rtcp", "ssrc"]);
    let a = build::attr(s, k, &Env::default()).unwrap();
    let mut an = used(s);
    cx.input(a.to_string());
    cx.class(k);
    cx.nontrivial = true;
    let c = a.masked_clone(&mut an);
    let t = c.to_string();
    match SdpAttribute::from_str(&t) {
        Ok(b) => {
            ensure!(proj::attr(&c, true) == proj::attr(&b, true), "the masked attribute {t:?} has another meaning\n  {}\n  {}", proj::attr(&c, true), proj::attr(&b, true));
            ensure!(b.to_string() == t, "printing is not stable: {t:?} then {:?}", b.to_string());
        }
        Err(e) => return fail(format!("the masked attribute {t:?} is rejected: {e}")),
    }
    let o = build::origin(s).masked_clone(&mut an);
    match parse_sdp_line(&format!("o={o}"), 1) {
        Ok(SdpLine { sdp_type: SdpType::Origin(p), .. }) => {
            ensure!(proj::origin(&o) == proj::origin(&p), "the masked origin {o} has another meaning\n  {}\n  {}", proj::origin(&o), proj::origin(&p))
        }
        r => return fail(format!("the masked origin {o} gives {:?}", r.map(|l| proj::sdp_type(&l.sdp_type, false)).map_err(|e| e.to_string()))),
    }
    let c = build::connection(s).masked_clone(&mut an);
    match parse_sdp_line(&format!("c={c}"), 1) {
        Ok(SdpLine { sdp_type: SdpType::Connection(p), .. }) => {
            ensure!(proj::connection(&c) == proj::connection(&p), "the masked connection {c} has another meaning\n  {}\n  {}", proj::connection(&c), proj::connection(&p))
        }
        r => return fail(format!("the masked connection {c} gives {:?}", r.map(|l| proj::sdp_type(&l.sdp_type, false)).map_err(|e| e.to_string()))),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C27

fn internal(e: &SdpParserInternalError) -> String {
    format!("{} {e}", proj::internal_kind(e))
}
fn told(r: &Result<SdpType, SdpParserInternalError>) -> String {
    match r {
        Ok(t) => format!("Ok {}", proj::sdp_type(t, false)),
        Err(e) => format!("Err {}", internal(e)),
    }
}
/// the outcome of the line parser without line and number, which are checked
fn line_told(l: &str, n: usize) -> Result<String, Fail> {
    Ok(match parse_sdp_line(l, n) {
        Ok(p) => {
            ensure!(p.line_number == n && p.text == l, "line {n} {l:?} is given back as {} {:?}", p.line_number, p.text);
            format!("Ok {}", proj::sdp_type(&p.sdp_type, false))
        }
        Err(e) => {
            let (k, text, number) = proj::error(&e);
            ensure!(number == n && text.as_deref() == Some(l), "line {n} {l:?} is reported as {number} {text:?}");
            match &e {
                SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => {
                    let soft = matches!(error, SdpParserInternalError::Unsupported(_));
                    ensure!(soft == matches!(e, SdpParserError::Unsupported { .. }), "{k} error because of {}", internal(error));
                    format!("Err {}", internal(error))
                }
                SdpParserError::Sequence { .. } => return fail(format!("a line by itself gives {}", err_full(&e))),
            }
        }
    })
}
fn some_value(s: &mut Src) -> (char, String) {
    let mut l = match s.below(12) {
        0..=5 => {
            let kinds = gen::all_kinds();
            let k = *s.pick(&kinds);
            let g = gen::attr(s, k, &Env::default());
            if s.flip() {
                format!("a={}", g.plain())
            } else {
                format!("a={}", g.spelled(s))
            }
        }
        6 | 7 => format!("m={}", gen::mline(s).wire),
        8 => sess::unsupported(s).0,
        9 => invalid::line(s).0,
        10 => sess::some_line(s),
        _ => format!("a={}", sess::garbage(s)),
    };
    if s.pct(45) {
        for _ in 0..s.range(1, 3) {
            mutate_line(s, &mut l);
        }
    }
    match l.split_once('=') {
        Some((t, v)) if t.trim().eq_ignore_ascii_case("m") => ('m', v.to_string()),
        Some((_, v)) => ('a', v.to_string()),
        None => ('a', l),
    }
}
fn c27_lines(s: &mut Src, cx: &mut Ctx) -> Res {
    let (ty, v) = some_value(s);
    let v = v.trim().to_string();
    cx.input(format!("{ty}={v}"));
    if v.is_empty() {
        return Ok(());
    }
    let n = s.below(1000) as usize;
    let direct = if ty == 'm' { parse_media(&v) } else { parse_attribute(&v) };
    let want = told(&direct);
    cx.nontrivial = true;
    cx.class(match (&direct, ty) {
        (Ok(_), 'm') => "media line read",
        (Ok(_), _) => "attribute read",
        (Err(SdpParserInternalError::Unsupported(_)), _) => "unsupported",
        _ => "rejected",
    });
    for l in [format!("{ty}={v}"), format!("{}={v}", ty.to_uppercase()), format!("{ty}= {v} "), format!(" {ty} =\t{v}")] {
        let found = line_told(&l, n)?;
        ensure!(want == found, "the value {v:?} gives\n  {want}\nand the line {l:?}\n  {found}");
    }
    if ty == 'a' {
        let r = SdpAttribute::from_str(&v).map(SdpType::Attribute);
        ensure!(told(&r) == want, "parse_attribute gives\n  {want}\nand from_str\n  {}\nfor {v:?}", told(&r));
    }
    // within a description
    if v.contains('\n') {
        return Ok(());
    }
    let l = format!("{ty}={v}");
    let session = s.flip();
    let (t, at) = if ty == 'm' {
        (format!("{}{l}\r\n", sess::HEAD), 5)
    } else {
        let t = sess::minimal(&l, session);
        let at = if session { 5 } else { 6 };
        (t, at)
    };
    let r = parse_sdp(&t, false);
    match (&direct, &r) {
        (Err(SdpParserInternalError::Unsupported(_)), Ok(x)) => {
            ensure!(x.warnings.len() == 1, "{} warnings in a description with the unsupported line {l:?}", x.warnings.len());
            match &x.warnings[0] {
                SdpParserError::Unsupported { error, line, line_number } => {
                    ensure!(*line == l && *line_number == at, "the warning is about line {line_number} {line:?}, not {at} {l:?}");
                    ensure!(want == format!("Err {}", internal(error)), "by itself the line gives\n  {want}\nin a description\n  {}", internal(error));
                }
                e => return fail(format!("warning {}", err_full(e))),
            }
        }
        (Err(SdpParserInternalError::Unsupported(_)), Err(e)) => return fail(format!("a description with the unsupported line {l:?} is rejected: {e}")),
        (Err(_), Ok(_)) => return fail(format!("{l:?} is accepted in a description and rejected by itself: {want}")),
        (Err(_), Err(SdpParserError::Line { error, line, line_number })) => {
            ensure!(*line == l && *line_number == at, "the error is about line {line_number} {line:?}, not {at} {l:?}");
            ensure!(want == format!("Err {}", internal(error)), "by itself the line gives\n  {want}\nin a description\n  {}", internal(error));
        }
        (Err(_), Err(e)) => return fail(format!("by itself {l:?} gives\n  {want}\nin a description\n  {}", err_full(e))),
        (Ok(_), Ok(x)) => {
            ensure!(x.warnings.is_empty(), "warnings without an unsupported line");
            let ls = proj::session(x, false);
            let w = match &direct {
                Ok(SdpType::Attribute(SdpAttribute::DtlsMessage(_))) if !session => return Ok(()),
                Ok(SdpType::Attribute(a)) => format!("a {}", proj::attr(a, false)),
                Ok(SdpType::Media(m)) => format!("M {}", proj::mline(&m.media, m.port, m.port_count, &m.proto, &m.formats)),
                _ => return fail(format!("{l:?} is read as another kind of line")),
            };
            ensure!(ls.contains(&w), "by itself {l:?} gives\n  {w}\nin a description\n{}", ls.join("\n"));
        }
        // not allowed there
        (Ok(t), Err(SdpParserError::Sequence { .. })) => {
            if let SdpType::Attribute(a) = t {
                let fine = if session { a.allowed_at_session_level() } else { a.allowed_at_media_level() };
                let cross = matches!(a, SdpAttribute::Rid(_) | SdpAttribute::Simulcast(_) | SdpAttribute::RtcpMuxOnly);
                ensure!(!fine || cross, "{l:?} is fine by itself and not in a description: {:?}", r.err().map(|e| e.to_string()));
            }
        }
        (Ok(_), Err(e)) => return fail(format!("{l:?} is fine by itself and not in a description: {}", err_full(e))),
    }
    Ok(())
}

enum Put {
    Session(SdpSession),
    Error(String),
}
/// the description put together from its lines with the public parts
fn put_together(t: &str, strict: bool) -> (Put, Vec<String>) {
    let mut good = vec![];
    let mut warnings = vec![];
    let mut last = None;
    for (n, l) in t.lines().enumerate() {
        if l.trim().is_empty() {
            continue;
        }
        match parse_sdp_line(l, n) {
            Ok(p) => good.push(p),
            Err(e @ SdpParserError::Unsupported { .. }) => warnings.push(err_full(&e)),
            Err(e) => last = Some(e),
        }
    }
    if strict {
        if let Some(w) = warnings.first() {
            return (Put::Error(w.clone()), vec![]);
        }
    }
    if let Some(e) = last {
        return (Put::Error(err_full(&e)), vec![]);
    }
    if good.len() < 4 {
        return (Put::Error("short".into()), vec![]);
    }
    let rest = good.split_off(3);
    let mut it = good.into_iter().map(|l| (l.line_number, l.sdp_type));
    let (v, o, n) = match (it.next(), it.next(), it.next()) {
        (Some((_, SdpType::Version(v))), Some((_, SdpType::Origin(o))), Some((_, SdpType::Session(n)))) => (v, o, n),
        (Some((_, SdpType::Version(_))), Some((_, SdpType::Origin(_))), Some((k, _))) => return (Put::Error(format!("at {k}")), vec![]),
        (Some((_, SdpType::Version(_))), Some((k, _)), _) => return (Put::Error(format!("at {k}")), vec![]),
        (Some((k, _)), _, _) => return (Put::Error(format!("at {k}")), vec![]),
        _ => return (Put::Error("short".into()), vec![]),
    };
    let mut x = SdpSession::new(v, o, n);
    let mut a = rest;
    let at = a.iter().position(|l| matches!(l.sdp_type, SdpType::Media(_))).unwrap_or(a.len());
    let mut b = a.split_off(at);
    if let Err(e) = x.parse_session_vector(&mut a) {
        return (Put::Error(err_full(&e)), vec![]);
    }
    match parse_media_vector(&mut b) {
        Ok(m) => x.extend_media(m),
        Err(e) => return (Put::Error(err_full(&e)), vec![]),
    }
    (Put::Session(x), warnings)
}
fn c27_whole(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, class) = any_text(s);
    cx.input(&t);
    cx.class(class);
    whole(&t, cx)
}
pub fn whole(t: &str, cx: &mut Ctx) -> Res {
    for strict in [false, true] {
        let (p, warnings) = put_together(t, strict);
        match (p, parse_sdp(t, strict)) {
            (Put::Session(a), Ok(b)) => {
                cx.nontrivial = true;
                cx.class("accepted");
                let (x, y) = (proj::session(&a, false), proj::session(&b, false));
                ensure!(x == y, "the parts put together differ from the whole:\n{}", proj::diff(&x, &y));
                let w: Vec<String> = b.warnings.iter().map(err_full).collect();
                ensure!(w == warnings, "warnings of the lines\n{}\nand of the whole\n{}", warnings.join("\n"), w.join("\n"));
                ensure!(a.to_string() == b.to_string(), "the parts put together print differently from the whole");
            }
            (Put::Session(_), Err(SdpParserError::Sequence { line_number: 0, .. })) => {
                // one of the rules across lines, see C13
                cx.nontrivial = true;
                cx.class("lines do not go together");
            }
            (Put::Session(_), Err(e)) => return fail(format!("the parts can be put together, the whole is rejected: {}", err_full(&e))),
            (Put::Error(e), Ok(_)) => return fail(format!("the whole is accepted, the parts are not: {e}")),
            (Put::Error(w), Err(e)) => {
                cx.nontrivial |= t.lines().count() >= 4;
                cx.class("rejected");
                if t.is_empty() {
                    continue;
                }
                if w == "short" {
                    ensure!(matches!(e, SdpParserError::Sequence { .. }), "too few lines give {}", err_full(&e));
                } else if let Some(n) = w.strip_prefix("at ") {
                    ensure!(matches!(e, SdpParserError::Sequence { .. }) && proj::error(&e).2.to_string() == n, "misplaced line {n} gives {}", err_full(&e));
                } else {
                    ensure!(err_full(&e) == w, "the parts are rejected with\n  {w}\nthe whole with\n  {}", err_full(&e));
                }
            }
        }
    }
    Ok(())
}

fn word(s: &mut Src) -> String {
    let mut w = match s.below(8) {
        0..=3 => gen::gaddr(s).wire,
        4 => gen::token(s),
        5 => {
            let g = gen::v6_segments(s);
            format!("[{}]", gen::v6_text(s, g))
        }
        6 => gen::text(s),
        _ => sess::garbage(s),
    };
    if s.pct(50) {
        for _ in 0..s.range(1, 3) {
            sess::mutate_once(s, &mut w);
        }
    }
    w
}
fn c27_addresses(s: &mut Src, cx: &mut Ctx) -> Res {
    let w = word(s);
    cx.input(&w);
    let a = Address::from_str(&w);
    let show = |r: &Result<Address, SdpParserInternalError>| match r {
        Ok(a) => format!("Ok {}", proj::addr(a)),
        Err(e) => format!("Err {}", internal(e)),
    };
    let b = webrtc_sdp::network::parse_unicast_address(&w);
    ensure!(show(&a) == show(&b), "from_str gives {}, parse_unicast_address {}", show(&a), show(&b));
    cx.class(match &a {
        Ok(Address::Ip(_)) => "literal",
        Ok(_) => "name",
        Err(_) => "no address",
    });
    cx.nontrivial = true;
    let plain = !w.is_empty() && !w.contains(|c: char| c.is_whitespace());
    for ty in [AddressType::IpV4, AddressType::IpV6] {
        let t = ExplicitlyTypedAddress::try_from((ty, w.as_str()));
        let want: Result<String, String> = match &a {
            Ok(Address::Ip(i)) if i.address_type() != ty => Err("AddressTypeMismatch".into()),
            Ok(Address::Ip(i)) => Ok(proj::ip(i)),
            Ok(Address::Fqdn(d)) => Ok(proj::typed(&ExplicitlyTypedAddress::Fqdn { address_type: ty, domain: d.clone() })),
            Err(e) => Err(internal(e)),
        };
        match (&want, &t) {
            (Ok(x), Ok(y)) => {
                ensure!(*x == proj::typed(y), "typed {x}, but {} with {ty}", proj::typed(y));
                ensure!(y.address_type() == ty, "typed {ty} gives {}", y.address_type());
                ensure!(proj::addr(&Address::from(y.clone())) == show(&a)[3..], "typed with {ty} and untyped again gives {}", proj::addr(&Address::from(y.clone())));
            }
            (Err(x), Err(SdpParserInternalError::AddressTypeMismatch { found, expected })) => {
                ensure!(x == "AddressTypeMismatch" && *expected == ty && *found != ty, "{w:?} with {ty} gives a mismatch of {found} and {expected}")
            }
            (Err(x), Err(e)) => ensure!(*x == internal(e), "{w:?} gives {x} untyped and {} with {ty}", internal(e)),
            _ => return fail(format!("{w:?} gives {} untyped and {:?} with {ty}", show(&a), t.map(|x| proj::typed(&x)).map_err(|e| e.to_string()))),
        }
        if !plain {
            continue;
        }
        let mut lines = vec![format!("o=- 1 1 IN {ty} {w}"), format!("a=rtcp:9 IN {ty} {w}")];
        if !w.contains('/') {
            lines.push(format!("c=IN {ty} {w}"));
            lines.push(format!("c=IN {ty} {w}/3"));
        }
        for l in lines {
            let found = match parse_sdp_line(&l, 0) {
                Ok(p) => Ok(match p.sdp_type {
                    SdpType::Origin(o) => proj::typed(&o.unicast_addr),
                    SdpType::Connection(c) => proj::typed(&c.address),
                    SdpType::Attribute(SdpAttribute::Rtcp(SdpAttributeRtcp { unicast_addr: Some(a), .. })) => proj::typed(&a),
                    t => proj::sdp_type(&t, false),
                }),
                Err(SdpParserError::Line { error, .. }) => Err(internal(&error)),
                Err(e) => return fail(format!("{l:?} gives {}", err_full(&e))),
            };
            match (&want, &found) {
                (Ok(x), Ok(y)) if x == y => (),
                (Err(_), Err(y)) if t.as_ref().err().map(internal).as_ref() == Some(y) => (),
                _ => return fail(format!("{w:?} gives {want:?} with {ty}, but {l:?} gives {found:?}")),
            }
        }
    }
    if plain {
        for l in [
            format!("candidate:1 1 udp 1 {w} 9 typ host"),
            format!("candidate:1 1 udp 1 0.0.0.0 9 typ srflx raddr {w} rport 3"),
            format!("remote-candidates:1 {w} 9"),
        ] {
            let found = match SdpAttribute::from_str(&l) {
                Ok(SdpAttribute::Candidate(c)) => Ok(c.raddr.unwrap_or(c.address)),
                Ok(SdpAttribute::RemoteCandidate(c)) => Ok(c.address),
                Ok(x) => return fail(format!("{l:?} is read as {x}")),
                Err(e) => Err(e),
            };
            ensure!(show(&a) == show(&found), "{w:?} gives {}, but {l:?} gives {}", show(&a), show(&found));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C28

struct Section {
    text: String,
    lines: usize,
}
fn section(ls: Vec<String>, nl: &str) -> Section {
    let mut text = String::new();
    for l in ls {
        text.push_str(&l);
        text.push_str(nl);
    }
    Section { lines: text.lines().count(), text }
}
fn spoil(s: &mut Src, v: &mut Vec<String>, first: usize) {
    for _ in 0..s.range(1, 2) {
        let i = s.range(first.min(v.len()) as u64, v.len() as u64) as usize;
        match s.below(8) {
            0 | 1 => v.insert(i, sess::unsupported(s).0),
            2 => v.insert(i, invalid::line(s).0),
            3 => v.insert(i, sess::some_line(s)),
            4 => {
                if i < v.len() {
                    v.remove(i);
                }
            }
            5 => {
                if i < v.len() {
                    v.insert(i, v[i].clone());
                }
            }
            6 => v.insert(i, (*s.pick(&["", "a=rtcp-mux-only", "a=extmap:1 u:x", "a=ice-lite", "a=simulcast:send 1", "a=rid:1 send", "t=0 0", "c=IN IP4 1.2.3.4", "a=group:BUNDLE 0"])).to_string()),
            _ => {
                if i < v.len() {
                    mutate_line(s, &mut v[i]);
                }
            }
        }
    }
}
fn shifted(e: &SdpParserError, from: usize, by: usize) -> String {
    let mut e = e.clone();
    match e {
        SdpParserError::Line { ref mut line_number, .. } | SdpParserError::Unsupported { ref mut line_number, .. } | SdpParserError::Sequence { ref mut line_number, .. } => {
            if *line_number >= from {
                *line_number += by;
            }
        }
    }
    err_full(&e)
}
fn c28(s: &mut Src, cx: &mut Ctx) -> Res {
    let nl = if s.flip() { "\r\n" } else { "\n" };
    let x = sess::session(s, &Opt { max_media: 1, max_attrs: 10, kinds: None });
    let mut head: Vec<String> = x.texts();
    head.truncate(x.first_media());
    let conn = head.iter().any(|l| l.starts_with("c="));
    if s.pct(25) {
        spoil(s, &mut head, 3);
    }
    let head = section(head, nl);
    if head.text.lines().enumerate().any(|(n, l)| matches!(parse_sdp_line(l, n), Ok(SdpLine { sdp_type: SdpType::Media(_), .. }))) {
        return Ok(());
    }
    let n = gen::count(s, 1, 4, 10);
    let bad = s.pct(50);
    let mut secs = vec![];
    let mut vs: Vec<Vec<String>> = vec![];
    for _ in 0..n {
        let ext = s.pct(20);
        let need = !conn && s.pct(90);
        let ls = s.part(25, |s| sess::media(s, &Opt { max_media: 1, max_attrs: 10, kinds: None }, ext, need));
        let mut v: Vec<String> = ls.iter().map(|l| l.text()).collect();
        if bad && s.pct(30) {
            spoil(s, &mut v, 1);
        }
        vs.push(v);
    }
    // what one section refers to may be found in another only
    if s.pct(35) {
        for _ in 0..s.range(1, 4) {
            let (i, j) = (s.idx(vs.len()), s.idx(vs.len()));
            let cross = |l: &&String| ["a=rid", "a=simulcast", "a=rtcp-mux"].iter().any(|p| l.to_lowercase().starts_with(p));
            let some: Vec<String> = if s.pct(50) { vs[i].iter().skip(1).filter(cross).cloned().collect() } else { vs[i].iter().skip(1).cloned().collect() };
            if some.is_empty() {
                let pts: Vec<String> = vs[i][0].split_whitespace().skip(3).filter(|w| w.parse::<u8>().is_ok()).map(|w| w.to_string()).collect();
                if !pts.is_empty() {
                    let l = format!("a=rid:{} {} pt={}", s.below(3), *s.pick(&["send", "recv"]), s.pick(&pts));
                    vs[j].push(l);
                }
            } else {
                let l = s.pick(&some).clone();
                let at = s.range(1, vs[j].len() as u64) as usize;
                vs[j].insert(at, l);
            }
        }
    }
    for v in vs {
        let sec = section(v, nl);
        // the first line begins the section
        match sec.text.lines().next().map(|l| parse_sdp_line(l, 0)) {
            Some(Ok(SdpLine { sdp_type: SdpType::Media(_), .. })) => secs.push(sec),
            Some(Err(SdpParserError::Line { .. })) => secs.push(sec),
            _ => (),
        }
    }
    if secs.is_empty() {
        return Ok(());
    }
    let mut all = head.text.clone();
    for x in &secs {
        all.push_str(&x.text);
    }
    cx.input(&all);
    cx.nontrivial = secs.len() > 1;
    let h = head.lines;
    for strict in [false, true] {
        let whole = parse_sdp(&all, strict);
        let mut errors = vec![];
        let mut good = 0;
        let mut media: Vec<String> = vec![];
        let mut front: Option<(Vec<String>, String)> = None;
        let mut text = String::new();
        let mut warnings: Vec<String> = vec![];
        let mut by = 0;
        for x in &secs {
            match parse_sdp(&format!("{}{}", head.text, x.text), strict) {
                Err(e) => {
                    errors.push(shifted(&e, h, by));
                }
                Ok(r) => {
                    good += 1;
                    let mut m = vec![];
                    let mut mt = String::new();
                    for y in &r.media {
                        proj::media(y, false, &mut m);
                        mt.push_str(&y.to_string());
                    }
                    let p = proj::session(&r, false);
                    let (f, b) = p.split_at(p.len() - m.len().min(p.len()));
                    ensure!(b == m, "harness: the projection of media sections is the tail of that of the session");
                    let t = r.to_string();
                    let ft = match t.strip_suffix(mt.as_str()) {
                        Some(x) => x.to_string(),
                        None => return fail(format!("a printed session does not end with its printed media sections\n--- session\n{t}--- sections\n{mt}")),
                    };
                    match &front {
                        None => {
                            text.push_str(&ft);
                            warnings.extend(r.warnings.iter().filter(|w| proj::error(w).2 < h).map(err_full));
                            front = Some((f.to_vec(), ft));
                        }
                        Some((a, at)) => {
                            ensure!(a == f, "the session part depends on the media section:\n{}", proj::diff(a, f));
                            ensure!(*at == ft, "the printed session part depends on the media section:\n{at}---\n{ft}");
                        }
                    }
                    media.extend(m);
                    text.push_str(&mt);
                    warnings.extend(r.warnings.iter().filter(|w| proj::error(w).2 >= h).map(|w| shifted(w, h, by)));
                }
            }
            by += x.lines;
        }
        match whole {
            Ok(w) => {
                cx.class("accepted");
                ensure!(errors.is_empty(), "the sections together are accepted, but {} of them alone: {}", if good == 0 { "none" } else { "not all" }, errors[0]);
                let found = proj::session(&w, false);
                let mut want = front.map(|x| x.0).unwrap_or_default();
                want.extend(media);
                ensure!(want == found, "media sections are read differently in company:\n{}", proj::diff(&want, &found));
                ensure!(text == w.to_string(), "media sections print differently in company\n--- alone\n{text}--- together\n{w}");
                let found: Vec<String> = w.warnings.iter().map(err_full).collect();
                ensure!(warnings == found, "warnings about the sections alone\n{}\nand together\n{}", warnings.join("\n"), found.join("\n"));
            }
            Err(e) => {
                cx.class(if good > 0 { "rejected for some sections" } else { "rejected" });
                ensure!(!errors.is_empty(), "each section is accepted alone, but not together: {}", err_full(&e));
                let found = err_full(&e);
                let early = head.text.lines().enumerate().filter(|(n, l)| !l.trim().is_empty() && parse_sdp_line(l, *n).is_ok()).count() < 3;
                ensure!(early || errors.contains(&found), "together the sections give\n  {found}\nand alone\n  {}", errors.join("\n  "));
            }
        }
    }
    Ok(())
}

/// what stands once in a section, its bandwidths, its attributes
type Rep = Vec<(Vec<String>, Vec<String>, Vec<String>)>;
fn rep(x: &SdpSession) -> Rep {
    let attrs = |v: &[SdpAttribute]| v.iter().map(|a| proj::attr(a, false)).collect::<Vec<_>>();
    let bands = |v: &[webrtc_sdp::SdpBandwidth]| v.iter().map(|b| proj::bandwidth(b, false)).collect::<Vec<_>>();
    let mut once = vec![
        format!("v {}", x.version),
        format!("o {}", proj::origin(&x.origin)),
        format!("s {}", gen::oq(&x.session)),
        format!("t {:?}", x.timing.as_ref().map(|t| (t.start, t.stop))),
    ];
    once.extend(x.connection.iter().map(proj::connection));
    let mut r = vec![(once, bands(&x.bandwidth), attrs(&x.attribute))];
    for m in &x.media {
        let mut once = vec![proj::mline(m.get_type(), m.get_port(), m.get_port_count(), m.get_proto(), m.get_formats())];
        once.extend(m.get_connection().iter().map(proj::connection));
        r.push((once, bands(m.get_bandwidth()), attrs(m.get_attributes())));
    }
    r
}
fn rep_diff(a: &Rep, b: &Rep) -> String {
    let flat = |r: &Rep| -> Vec<String> { r.iter().flat_map(|(x, y, z)| x.iter().chain(y).chain(z).cloned()).collect() };
    proj::diff(&flat(a), &flat(b))
}
fn c28_lines(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = if s.pct(70) {
        sess::mutated(s)
    } else {
        let x = sess::session(s, &Opt { max_media: 5, max_attrs: 25, kinds: None });
        let mut v = x.texts();
        if s.pct(50) {
            let i = s.range(3, v.len() as u64) as usize;
            v.insert(i, sess::unsupported(s).0);
        }
        sess::plain(&v)
    };
    cx.input(&t);
    lines_alone(&t, s, cx)
}
pub fn lines_alone(t: &str, s: &mut Src, cx: &mut Ctx) -> Res {
    let a = match parse_sdp(t, false) {
        Ok(a) => a,
        Err(_) => return Ok(()),
    };
    let lines: Vec<&str> = t.lines().collect();
    // section and place of each attribute and bandwidth line
    let mut at: Vec<(usize, usize, bool, usize)> = vec![];
    let (mut sec, mut na, mut nb) = (0, 0, 0);
    for (i, l) in lines.iter().enumerate() {
        match parse_sdp_line(l, i).map(|l| l.sdp_type) {
            Ok(SdpType::Media(_)) => {
                sec += 1;
                na = 0;
                nb = 0;
            }
            Ok(SdpType::Attribute(SdpAttribute::DtlsMessage(_))) if sec > 0 => (),
            Ok(SdpType::Attribute(_)) => {
                at.push((i, sec, true, na));
                na += 1;
            }
            Ok(SdpType::Bandwidth(_)) => {
                at.push((i, sec, false, nb));
                nb += 1;
            }
            _ => (),
        }
    }
    if at.is_empty() {
        return Ok(());
    }
    cx.nontrivial = true;
    let before = rep(&a);
    for _ in 0..3 {
        let (i, sec, attr, k) = *s.pick(&at);
        let mut v: Vec<&str> = lines.clone();
        let mut want = before.clone();
        let list = if attr { &mut want[sec].2 } else { &mut want[sec].1 };
        ensure!(k < list.len(), "line {i} {:?} is missing from the session", lines[i]);
        // where a line with this number is afterwards
        let mut to: Vec<usize> = (0..lines.len()).collect();
        let mut free = true;
        let what = match s.below(3) {
            0 => {
                v.remove(i);
                list.remove(k);
                for n in to[i..].iter_mut() {
                    *n = n.saturating_sub(1);
                }
                // others may need it
                free = !matches!(SdpAttribute::from_str(lines[i].split_once('=').map_or("", |x| x.1).trim()), Ok(SdpAttribute::Rid(_) | SdpAttribute::RtcpMux));
                "removed"
            }
            1 => {
                v.insert(i, lines[i]);
                let x = list[k].clone();
                list.insert(k, x);
                for n in to[i..].iter_mut() {
                    *n += 1;
                }
                "repeated"
            }
            _ => {
                // change places with another of the same section and type
                let same: Vec<_> = at.iter().filter(|x| x.1 == sec && x.2 == attr).collect();
                let (j, _, _, m) = **s.pick(&same);
                v.swap(i, j);
                list.swap(k, m);
                "moved"
            }
        };
        let mut text = String::new();
        for l in &v {
            text.push_str(l);
            text.push_str("\r\n");
        }
        match parse_sdp(&text, false) {
            Err(e) => ensure!(!free, "with line {i} {:?} {what} the description is rejected: {}", lines[i], err_full(&e)),
            Ok(b) => {
                cx.class(what);
                let found = rep(&b);
                ensure!(found == want, "with line {i} {:?} {what} more changes than that:\n{}", lines[i], rep_diff(&want, &found));
                let ws: Vec<String> = a
                    .warnings
                    .iter()
                    .map(|w| {
                        let n = proj::error(w).2;
                        let k = to.get(n).copied().unwrap_or(n);
                        if k >= n {
                            shifted(w, 0, k - n)
                        } else {
                            let mut w = w.clone();
                            if let SdpParserError::Unsupported { ref mut line_number, .. } = w {
                                *line_number = k;
                            }
                            err_full(&w)
                        }
                    })
                    .collect();
                let found: Vec<String> = b.warnings.iter().map(err_full).collect();
                ensure!(ws == found, "with line {i} {:?} {what} the warnings change from\n{}\nto\n{}", lines[i], ws.join("\n"), found.join("\n"));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![
        Prop {
            id: "C26",
            rule: "a case is an accepted description (or a built attribute, origin and connection) masked by a fresh or used anonymiser, printed and parsed; non-trivial: all accepted ones",
            subs: vec![sub("valid", 60_000, 1_000_000, c26_valid), sub("mutated", 150_000, 3_000_000, c26_mutated), sub("built", 150_000, 3_000_000, c26_built)],
            extra: None,
        },
        Prop {
            id: "C27",
            rule: "a case is a value, text or word given to every entry point that reads it; non-trivial: values and words that are not empty, texts of at least four lines",
            subs: vec![sub("lines", 300_000, 6_000_000, c27_lines), sub("whole", 60_000, 1_500_000, c27_whole), sub("addresses", 150_000, 3_000_000, c27_addresses)],
            extra: None,
        },
        Prop {
            id: "C28",
            rule: "a case is a session part with several media sections, parsed together and each section alone (non-trivial: at least two sections), or an accepted description with and without one attribute or bandwidth line removed, repeated or moved (non-trivial: it has such a line)",
            subs: vec![sub("sections", 60_000, 1_500_000, c28), sub("lines", 150_000, 3_000_000, c28_lines)],
            extra: None,
        },
    ]
}
