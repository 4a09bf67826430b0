//! C23: JSON and error values say what the value says.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::invalid::{self, Slot};
use crate::{build, dbg, proj, sess};
use serde_json::Value;
use std::convert::TryFrom;
use std::error::Error;
use std::net::{AddrParseError, IpAddr};
use std::num::{IntErrorKind, ParseFloatError, ParseIntError};
use std::str::FromStr;
use webrtc_sdp::address::{AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttributeType;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession};

/// compares the JSON of a value, as a tree and as text, with its debug form
fn json_same<T: std::fmt::Debug + serde::Serialize>(what: &str, x: &T) -> Result<usize, Fail> {
    let d = match dbg::read(&format!("{x:?}")) {
        Ok(d) => d,
        Err(e) => return fail(format!("{what}: the debug form cannot be read: {e}")),
    };
    let j = match serde_json::to_value(x) {
        Ok(j) => j,
        Err(e) => return fail(format!("{what}: no JSON: {e}")),
    };
    let n = dbg::same(&d, &j, what).map_err(|e| Fail { msg: e })?;
    let t = match serde_json::to_string(x) {
        Ok(t) => t,
        Err(e) => return fail(format!("{what}: no JSON text: {e}")),
    };
    let back: Value = match serde_json::from_str(&t) {
        Ok(b) => b,
        Err(e) => return fail(format!("{what}: the JSON text cannot be read: {e}\n  {t}")),
    };
    dbg::same(&d, &back, what).map_err(|e| Fail { msg: format!("JSON text: {e}") })?;
    Ok(n)
}

// ---------------------------------------------------------------------------------------------
// errors

/// JSON and message of an error against its fields
pub fn error_json(e: &SdpParserError) -> Res {
    let j = match serde_json::to_value(e) {
        Ok(j) => j,
        Err(x) => return fail(format!("error {e:?} has no JSON: {x}")),
    };
    let (ty, msg, line, n) = match e {
        SdpParserError::Line { error, line, line_number } => ("Line", error.to_string(), Some(line), *line_number),
        SdpParserError::Unsupported { error, line, line_number } => ("Unsupported", error.to_string(), Some(line), *line_number),
        SdpParserError::Sequence { message, line_number } => ("Sequence", message.clone(), None, *line_number),
    };
    ensure!(j["type"] == ty, "JSON of {e:?} names the type {}", j["type"]);
    ensure!(j["message"].as_str() == Some(&msg), "JSON of {e:?} names the message {}, not {msg:?}", j["message"]);
    ensure!(j["line_number"].as_u64() == Some(n as u64), "JSON of {e:?} names the line number {}", j["line_number"]);
    match line {
        Some(l) => ensure!(j["line"].as_str() == Some(l), "JSON of {e:?} names the line {}", j["line"]),
        None => ensure!(j.get("line").is_none_or(|x| x.is_null()), "JSON of {e:?} names a line {}", j["line"]),
    }
    let t = serde_json::to_string(e).unwrap_or_default();
    let back: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
    ensure!(back == j, "JSON text and JSON value of {e:?} differ: {t} and {j}");
    Ok(())
}

/// whether `text` has the number beside (not within) one occurrence of `part`
fn names_beside(text: &str, part: &str, n: usize) -> bool {
    let n = n.to_string();
    text.match_indices(part).any(|(i, p)| {
        [&text[..i], &text[i + p.len()..]].iter().any(|r| r.split(|c: char| !c.is_ascii_digit()).any(|w| w == n))
    })
}

/// the message quotes what it must, the causes are chained
pub fn error_text(e: &SdpParserError) -> Res {
    let d = e.to_string();
    match e {
        SdpParserError::Line { error, line, line_number } | SdpParserError::Unsupported { error, line, line_number } => {
            let c = error.to_string();
            ensure!(d.contains(&c), "message {d:?} does not name its cause {c:?}");
            ensure!(d.ends_with(line.as_str()), "message {d:?} does not end with the line {line:?}");
            ensure!(names_beside(&d[..d.len() - line.len()], &c, *line_number), "message {d:?} does not name line {line_number}");
            match e.source() {
                None => return fail(format!("{e:?} has no source")),
                Some(s) => {
                    ensure!(s.to_string() == c, "source of {e:?} is {s}");
                    match s.downcast_ref::<SdpParserInternalError>() {
                        None => return fail(format!("source of {e:?} is not the internal error")),
                        Some(i) => ensure!(format!("{i:?}") == format!("{error:?}"), "source of {e:?} is {i:?}"),
                    }
                    internal(error)?;
                }
            }
        }
        SdpParserError::Sequence { message, line_number } => {
            ensure!(d.contains(message.as_str()), "message {d:?} does not name its cause {message:?}");
            ensure!(names_beside(&d, message, *line_number), "message {d:?} does not name line {line_number}");
        }
    }
    Ok(())
}
fn internal(e: &SdpParserInternalError) -> Res {
    let d = e.to_string();
    let inner: Option<String> = match e {
        SdpParserInternalError::Integer(i) => Some(i.to_string()),
        SdpParserInternalError::Float(i) => Some(i.to_string()),
        SdpParserInternalError::Domain(i) => Some(i.to_string()),
        SdpParserInternalError::IpAddress(i) => Some(i.to_string()),
        SdpParserInternalError::Generic(m) | SdpParserInternalError::Unsupported(m) | SdpParserInternalError::UnknownAddressType(m) => {
            ensure!(d.contains(m.as_str()), "message {d:?} does not contain {m:?}");
            None
        }
        SdpParserInternalError::AddressTypeMismatch { found, expected } => {
            let (f, x) = (found.to_string(), expected.to_string());
            let tail = d.rsplit(": ").next().unwrap_or("");
            ensure!(
                tail.find(&f).is_some_and(|i| tail[i..].find(&x).is_some_and(|j| j > 0 || f == x)),
                "message {d:?} does not name found {f} before expected {x}"
            );
            None
        }
    };
    match (inner, e.source()) {
        (Some(i), Some(s)) => {
            ensure!(d.contains(&i), "message {d:?} does not contain {i:?}");
            ensure!(s.to_string() == i, "source of {e:?} is {s}");
            let ok = match e {
                SdpParserInternalError::Integer(x) => s.downcast_ref::<ParseIntError>().is_some_and(|y| x == y),
                SdpParserInternalError::Float(x) => s.downcast_ref::<ParseFloatError>().is_some_and(|y| x == y),
                SdpParserInternalError::Domain(x) => s.downcast_ref::<url::ParseError>().is_some_and(|y| x == y),
                SdpParserInternalError::IpAddress(x) => s.downcast_ref::<AddrParseError>().is_some_and(|y| x == y),
                _ => false,
            };
            ensure!(ok, "source of {e:?} is another error: {s:?}");
        }
        (Some(_), None) => return fail(format!("{e:?} has no source")),
        (None, Some(s)) => return fail(format!("{e:?} has the source {s:?}")),
        (None, None) => {}
    }
    Ok(())
}

pub fn error_faithful(e: &SdpParserError) -> Res {
    error_json(e)?;
    error_text(e)
}

fn c23_errors(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = match s.below(8) {
        0 => sess::garbage(s),
        1..=4 => {
            let l = if s.flip() { crate::invalid::line(s).0 } else { sess::unsupported(s).0 };
            sess::minimal(&l, s.flip())
        }
        _ => sess::mutated(s),
    };
    cx.input(&t);
    errors(&t, cx)
}
pub fn errors(t: &str, cx: &mut Ctx) -> Res {
    for strict in [false, true] {
        match parse_sdp(t, strict) {
            Ok(x) => {
                for w in &x.warnings {
                    cx.nontrivial = true;
                    cx.class(kind(w));
                    error_faithful(w)?;
                }
            }
            Err(e) => {
                cx.nontrivial = true;
                cx.class(kind(&e));
                error_faithful(&e)?;
            }
        }
    }
    for (i, l) in t.lines().enumerate().take(30) {
        if let Err(e) = parse_sdp_line(l, i) {
            cx.nontrivial = true;
            error_faithful(&e)?;
        }
    }
    Ok(())
}
fn kind(e: &SdpParserError) -> &'static str {
    match e {
        SdpParserError::Line { error, .. } => match proj::internal_kind(error) {
            "integer" => "line: integer",
            "float" => "line: float",
            "domain" => "line: domain",
            "ip" => "line: ip",
            "generic" => "line: generic",
            "address-type-mismatch" => "line: address type mismatch",
            "unknown-address-type" => "line: unknown address type",
            _ => "line: other",
        },
        SdpParserError::Unsupported { .. } => "unsupported",
        SdpParserError::Sequence { .. } => "sequence",
    }
}

/// an internal error built by hand
fn any_internal(s: &mut Src) -> SdpParserInternalError {
    let t = |s: &mut Src| match s.below(5) {
        0 => String::new(),
        1 => "a \"quoted\" \\ {} word\u{1}\t".to_string(),
        2 => sess::some_line(s),
        _ => gen::text(s),
    };
    let at = |s: &mut Src| if s.flip() { AddressType::IpV4 } else { AddressType::IpV6 };
    match s.below(8) {
        0 => SdpParserInternalError::UnknownAddressType(t(s)),
        1 => SdpParserInternalError::AddressTypeMismatch { found: at(s), expected: at(s) },
        2 => SdpParserInternalError::Generic(t(s)),
        3 => SdpParserInternalError::Unsupported(t(s)),
        4 => match s.below(5) {
            4 => "0".parse::<std::num::NonZeroU8>().unwrap_err().into(),
            0 => "".parse::<u32>().unwrap_err().into(),
            1 => "x".parse::<u32>().unwrap_err().into(),
            2 => "300".parse::<u8>().unwrap_err().into(),
            _ => SdpParserInternalError::Integer("-300".parse::<i8>().unwrap_err()),
        },
        5 => {
            let e = (*s.pick(&["", "x"])).parse::<f64>().unwrap_err();
            if s.flip() {
                e.into()
            } else {
                SdpParserInternalError::Float(e)
            }
        }
        6 => {
            let e = *s.pick(&[
                url::ParseError::EmptyHost,
                url::ParseError::IdnaError,
                url::ParseError::InvalidPort,
                url::ParseError::InvalidIpv4Address,
                url::ParseError::InvalidIpv6Address,
                url::ParseError::InvalidDomainCharacter,
                url::ParseError::Overflow,
            ]);
            if s.flip() {
                e.into()
            } else {
                SdpParserInternalError::Domain(e)
            }
        }
        _ => {
            let t = *s.pick(&["x", "", "::g", "1.2.3"]);
            let e = match s.below(4) {
                0 => std::net::Ipv4Addr::from_str(t).unwrap_err(),
                1 => std::net::Ipv6Addr::from_str(t).unwrap_err(),
                2 => std::net::SocketAddr::from_str(t).unwrap_err(),
                _ => IpAddr::from_str(t).unwrap_err(),
            };
            if s.flip() {
                e.into()
            } else {
                SdpParserInternalError::IpAddress(e)
            }
        }
    }
}
fn c23_made(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = match s.below(5) {
        0 => 0,
        1 => u32::MAX as usize + s.below(3) as usize,
        2 => usize::MAX - s.below(2) as usize,
        _ => s.below(100_000) as usize,
    };
    let line = match s.below(4) {
        0 => String::new(),
        1 => gen::text(s),
        _ => sess::some_line(s),
    };
    let e = match s.below(5) {
        0 | 1 => SdpParserError::Line { error: any_internal(s), line, line_number: n },
        2 | 3 => SdpParserError::Unsupported { error: any_internal(s), line, line_number: n },
        _ => SdpParserError::Sequence { message: line, line_number: n },
    };
    cx.input(format!("{e:?}"));
    cx.class(kind(&e));
    cx.nontrivial = true;
    error_faithful(&e)?;
    ensure!(format!("{:?}", e.clone()) == format!("{e:?}"), "the clone of {e:?} differs");
    // the conversions keep what they are given
    let i = "70000".parse::<u16>().unwrap_err();
    ensure!(matches!(SdpParserInternalError::from(i.clone()), SdpParserInternalError::Integer(x) if x == i), "a number error is converted to something else");
    let f = "1.x".parse::<f32>().unwrap_err();
    ensure!(matches!(SdpParserInternalError::from(f.clone()), SdpParserInternalError::Float(x) if x == f), "a float error is converted to something else");
    let u = url::ParseError::InvalidIpv4Address;
    ensure!(matches!(SdpParserInternalError::from(u), SdpParserInternalError::Domain(x) if x == u), "a domain error is converted to something else");
    let a = IpAddr::from_str("1.2").unwrap_err();
    ensure!(matches!(SdpParserInternalError::from(a.clone()), SdpParserInternalError::IpAddress(x) if x == a), "an address error is converted to something else");
    Ok(())
}

/// the error a line gives, and the same from within a description
fn errors_of(s: &mut Src, l: &str) -> Result<Vec<SdpParserError>, Fail> {
    let mut v = vec![];
    let n = s.below(1000) as usize;
    match parse_sdp_line(l, n) {
        Ok(_) => return fail(format!("{l:?} is accepted")),
        Err(e) => v.push(e),
    }
    match parse_sdp(&format!("{}{l}\r\n", sess::HEAD), false) {
        Ok(_) => {}
        Err(e @ SdpParserError::Sequence { .. }) => error_faithful(&e)?,
        Err(e) => v.push(e),
    }
    Ok(v)
}
/// the last cause in the chain
fn root(e: &SdpParserError) -> &(dyn Error + 'static) {
    let mut c: &(dyn Error + 'static) = e;
    while let Some(n) = c.source() {
        c = n;
    }
    c
}

const ADDRESS_PLACES: &[&str] = &[
    "o=- 1 1 IN IP4 {}",
    "o=- 1 1 IN IP6 {}",
    "c=IN IP4 {}",
    "c=IN IP6 {}",
    "a=candidate:1 2 udp 3 {} 9 typ host",
    "a=candidate:1 2 udp 3 10.0.0.1 9 typ srflx raddr {} rport 9",
    "a=remote-candidates:1 {} 9",
    "a=rtcp:9 IN IP4 {}",
    "a=rtcp:9 IN IP6 {}",
];
const BAD_HOSTS: &[&str] = &[
    "a..b.256", "1.2.3.400", "256.256.256.256", "a%b", "exa<mple", "ex|ample", "a^b", "x@y", "1.2.3.4.5", "0x100000000", "4294967296", "a.1", "::zz", "[::1", "[", "]",
    ":", "1::2::3", "fe80::1%eth0", "1:2:3", "12345::", "::1.2.3.256", "::ffff:1.2.3", "a:b", "1.2.3.4:80", "%zz", "%00", "xn--", "a\\b", "#", "?", "a#b",
];

fn c23_causes(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    match s.below(10) {
        0..=5 => {
            // a number that is none
            let (t, slot) = loop {
                let f = *s.pick(invalid::FIELDS);
                // the parameter of trr-int is a word that happens to be a number
                if !f.0.contains("trr-int") && !matches!(f.1, Slot::Word(..)) {
                    break f;
                }
            };
            let float = matches!(slot, Slot::Rate | Slot::Pref | Slot::Ratio);
            let w: String = if float {
                // a sign inside a range of two is its separator
                (*s.pick(&["abc", "1.2.3", "1_0", "0x1", if t.contains("r=[{}") { "1x" } else { "--1" }, "1..2", "½", "a.b", "1f", "q", "1e", "e5", "."])).into()
            } else if matches!(slot, Slot::Hex(..)) {
                (*s.pick(&["g", "0x10", "-1", "1.0", "zz", "42E01G", "\u{ff11}", "100000000000000000000", "fffffffff"])).into()
            } else if s.flip() {
                (*s.pick(&["-1", "-0", "1.0", "1e3", "0x10", "abc", "1a", "a1", "1_0", "--1", "½", "NaN", "inf", "+", "-", "++1", "1%", "∞", "one", "\u{661}"])).into()
            } else {
                format!("{}{}", s.range(1, 9), "9".repeat(s.range(20, 40) as usize))
            };
            let l = t.replace("{}", &w);
            cx.input(&l);
            for e in errors_of(s, &l)? {
                error_faithful(&e)?;
                let r = root(&e);
                if float {
                    cx.class("float");
                    match r.downcast_ref::<ParseFloatError>() {
                        None => return fail(format!("{l:?}: the chain of causes ends in {r:?}, not in the float error")),
                        Some(x) => ensure!(*x == w.parse::<f64>().unwrap_err(), "{l:?}: the cause is {x:?}"),
                    }
                } else {
                    cx.class("integer");
                    let want = if !w.is_empty() && w.chars().all(|c| c.is_ascii_hexdigit()) && (matches!(slot, Slot::Hex(..)) || w.chars().all(|c| c.is_ascii_digit())) {
                        IntErrorKind::PosOverflow
                    } else {
                        IntErrorKind::InvalidDigit
                    };
                    match r.downcast_ref::<ParseIntError>() {
                        None => return fail(format!("{l:?}: the chain of causes ends in {r:?}, not in the number error")),
                        Some(x) => ensure!(*x.kind() == want, "{l:?}: the cause is {x:?}"),
                    }
                }
            }
        }
        6 | 7 => {
            // an address that is none
            let p = *s.pick(ADDRESS_PLACES);
            let w = if s.pct(70) { (*s.pick(BAD_HOSTS)).to_string() } else { format!("{}{}", gen::host(s).1, s.pick(&["..256", "%", "<", "|", "^", "\\", "@x"])) };
            let ip_err = if w.contains(':') { IpAddr::from_str(&w).err() } else { None };
            let url_err = url::Host::parse(&w).err();
            let l = p.replace("{}", &w);
            cx.input(&l);
            // "1.2.3.4/80" and the like are something else in c=
            if url_err.is_none() || w.contains('/') {
                cx.class("an address after all");
                return Ok(());
            }
            for e in errors_of(s, &l)? {
                error_faithful(&e)?;
                let r = root(&e);
                match (&ip_err, r.downcast_ref::<AddrParseError>(), r.downcast_ref::<url::ParseError>()) {
                    (Some(x), Some(y), _) => {
                        cx.class("address");
                        ensure!(x == y, "{l:?}: the cause is {y:?}");
                    }
                    (_, _, Some(y)) => {
                        cx.class("domain");
                        ensure!(url_err.as_ref() == Some(y), "{l:?}: the cause is {y:?}");
                    }
                    _ => return fail(format!("{l:?}: the chain of causes ends in {r:?}, not in an address error")),
                }
            }
        }
        8 => {
            // an address of the other family
            let ip = build::ip(s);
            let (found, other) = match ip {
                IpAddr::V4(_) => (AddressType::IpV4, AddressType::IpV6),
                IpAddr::V6(_) => (AddressType::IpV6, AddressType::IpV4),
            };
            let p = *s.pick(&["o=- 1 1 IN {t} {a}", "c=IN {t} {a}", "a=rtcp:9 IN {t} {a}"]);
            let l = p.replace("{t}", if other == AddressType::IpV4 { "IP4" } else { "IP6" }).replace("{a}", &ip.to_string());
            cx.input(&l);
            cx.class("other family");
            for e in errors_of(s, &l)? {
                error_faithful(&e)?;
                let ok = matches!(&e, SdpParserError::Line { error: SdpParserInternalError::AddressTypeMismatch { found: f, expected: x }, .. } if *f == found && *x == other);
                ensure!(ok, "{l:?}: reported as {e:?}");
            }
            let r = ExplicitlyTypedAddress::try_from((other, ip.to_string().as_str()));
            let ok = matches!(&r, Err(SdpParserInternalError::AddressTypeMismatch { found: f, expected: x }) if *f == found && *x == other);
            ensure!(ok, "{ip} as {other}: {r:?}");
        }
        _ => {
            // an unknown address type
            let w = invalid::wrong(s, Slot::Word(&["IP4", "IP6"], true)).0;
            cx.input(&w);
            cx.class("unknown address type");
            let r = AddressType::from_str(&w);
            let ok = matches!(&r, Err(SdpParserInternalError::UnknownAddressType(x)) if x.eq_ignore_ascii_case(&w));
            ensure!(ok, "AddressType::from_str({w:?}) gives {r:?}");
            let e = SdpParserError::Line { error: r.unwrap_err(), line: w.clone(), line_number: 0 };
            error_faithful(&e)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// JSON of values

pub fn whole(x: &SdpSession, cx: &mut Ctx) -> Res {
    // the warnings have a JSON form of their own
    for w in &x.warnings {
        error_faithful(w)?;
    }
    let full = match serde_json::to_value(x) {
        Ok(j) => j,
        Err(e) => return fail(format!("the session has no JSON: {e}")),
    };
    let mut plain = x.clone();
    plain.warnings.clear();
    let n = json_same("session", &plain)?;
    cx.class(match n {
        0..=30 => "up to 30 values",
        31..=100 => "31 to 100 values",
        101..=1000 => "101 to 1000 values",
        _ => "over 1000 values",
    });
    cx.nontrivial |= n > 15;
    // the warnings stand in it one by one, everything else is as without them
    let ws: Vec<Value> = x.warnings.iter().filter_map(|w| serde_json::to_value(w).ok()).collect();
    ensure!(full["warnings"] == Value::Array(ws), "the warnings in the JSON are {}, not {:?}", full["warnings"], x.warnings);
    let mut a = full;
    let mut b = serde_json::to_value(&plain).unwrap_or(Value::Null);
    for j in [&mut a, &mut b] {
        if let Some(o) = j.as_object_mut() {
            o.remove("warnings");
        }
    }
    ensure!(a == b, "the JSON of a session with warnings differs from that without: {a} and {b}");
    // the parts
    for m in &x.media {
        json_same("media", m)?;
        json_same("format list", m.get_formats())?;
        json_same("media value", m.get_type())?;
        json_same("protocol", m.get_proto())?;
    }
    for a in &x.attribute {
        json_same("attribute", a)?;
    }
    json_same("origin", &x.origin)?;
    json_same("connection", &x.connection)?;
    json_same("bandwidth", &x.bandwidth)?;
    json_same("timing", &x.timing)?;
    Ok(())
}
fn c23_sessions(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = match s.below(4) {
        0 => sess::mutated(s),
        1 => {
            let mut t = sess::session(s, &sess::Opt { max_media: 4, max_attrs: 30, kinds: None }).plain();
            for _ in 0..s.range(1, 4) {
                t.push_str(&sess::unsupported(s).0);
                t.push_str("\r\n");
            }
            t
        }
        _ => sess::session(s, &sess::Opt { max_media: 6, max_attrs: 40, kinds: None }).plain(),
    };
    cx.input(&t);
    let x = match parse_sdp(&t, false) {
        Ok(x) => x,
        Err(_) => {
            cx.class("not accepted");
            return Ok(());
        }
    };
    cx.class_if(!x.warnings.is_empty(), "with warnings");
    whole(&x, cx)?;
    if s.pct(25) {
        cx.class("masked");
        whole(&x.masked_clone(&mut StatefulSdpAnonymizer::new()), cx)?;
    }
    // lines
    for (i, l) in t.lines().enumerate().take(40) {
        if let Ok(p) = parse_sdp_line(l, i) {
            json_same("line", &p)?;
        }
    }
    Ok(())
}
fn c23_attrs(s: &mut Src, cx: &mut Ctx) -> Res {
    let kinds = gen::all_kinds();
    let k = *s.pick(&kinds);
    let a = match build::attr(s, k, &Env::default()) {
        Some(a) => a,
        None => return Ok(()),
    };
    cx.class(k);
    cx.input(format!("{a:?}"));
    cx.nontrivial = true;
    json_same("attribute", &a)?;
    json_same("line type", &webrtc_sdp::SdpType::Attribute(a.clone()))?;
    json_same("masked", &a.masked_clone(&mut StatefulSdpAnonymizer::new()))?;
    let _ = SdpAttributeType::from(&a);
    // two attributes with different values have different JSON
    if let Some(b) = build::attr(s, k, &Env::default()) {
        let (ja, jb) = (serde_json::to_string(&a).unwrap_or_default(), serde_json::to_string(&b).unwrap_or_default());
        let (pa, pb) = (proj::attr(&a, false), proj::attr(&b, false));
        ensure!((ja == jb) == (format!("{a:?}") == format!("{b:?}")), "JSON equal: {}, values equal: {}\n  {a:?}\n  {b:?}", ja == jb, pa == pb);
        ensure!(pa == pb || ja != jb, "different attributes have the same JSON {ja}\n  {pa}\n  {pb}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![Prop {
        id: "C23",
        rule: "a case is a generated or mutated description whose session, parts and lines are compared with their JSON field by field; an attribute built directly; an error found by parsing or built by hand, compared with its JSON, message and causes; or a line with a known bad number or address whose chain of causes must end in that error. Non-trivial: a session with more than fifteen values, or a case with an error or an attribute",
        subs: vec![
            sub("sessions", 25_000, 800_000, c23_sessions),
            sub("attributes", 100_000, 3_000_000, c23_attrs),
            sub("found errors", 60_000, 2_000_000, c23_errors),
            sub("made errors", 100_000, 2_000_000, c23_made),
            sub("causes", 200_000, 5_000_000, c23_causes),
        ],
        extra: None,
    }]
}
