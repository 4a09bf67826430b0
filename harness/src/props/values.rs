//! Properties of single values and lines: C01, C14, C15, C16, C21.

use crate::engine::*;
use crate::gen::{self, Env, GAddr};
use crate::invalid::{self, Slot};
use crate::props::session::{err_full, mutate_line};
use crate::{dict, proj, sess};
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;
use std::fmt::Write;
use std::net::IpAddr;
use std::str::FromStr;
use webrtc_sdp::address::{Address, AddressType, AddressTyped, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::{parse_media, parse_media_vector, SdpFormatList, SdpMediaLine, SdpMediaValue};
use webrtc_sdp::{network, parse_sdp, parse_sdp_line, SdpLine, SdpType};

// ---------------------------------------------------------------------------------------------
// C01

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static BUF: RefCell<String> = const { RefCell::new(String::new()) };
}
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if !LOGGING.with(|l| l.get()) {
            return;
        }
        BUF.with(|b| {
            if let Ok(mut b) = b.try_borrow_mut() {
                b.clear();
                let _ = write!(b, "{} {} {}", r.level(), r.target(), r.args());
            }
        })
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
fn logging(on: bool) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    LOGGING.with(|l| l.set(on));
}

/// drives everything a caller can do with a text; the result is a digest of all outcomes
pub fn drive(t: &str, deep: bool) -> String {
    let mut out = String::new();
    for strict in [false, true] {
        match parse_sdp(t, strict) {
            Ok(s) => {
                let _ = write!(out, "{s}|{s:?}|");
                let _ = write!(out, "{}", serde_json::to_string(&s).unwrap_or_else(|e| e.to_string()));
                for w in &s.warnings {
                    let _ = write!(out, "{w}|{w:?}|{}", serde_json::to_string(w).unwrap_or_else(|e| e.to_string()));
                }
                if deep {
                    let mut an = StatefulSdpAnonymizer::new();
                    let m = s.masked_clone(&mut an);
                    let _ = write!(out, "{m}{}", s.get_session_text());
                }
            }
            Err(e) => {
                let _ = write!(out, "{e}|{e:?}|{}", serde_json::to_string(&e).unwrap_or_else(|e| e.to_string()));
                let mut c: Option<&dyn std::error::Error> = std::error::Error::source(&e);
                while let Some(x) = c {
                    let _ = write!(out, "<- {x}");
                    c = x.source();
                }
            }
        }
    }
    out
}
pub fn drive_line(l: &str, n: usize) -> String {
    let mut out = String::new();
    match parse_sdp_line(l, n) {
        Ok(x) => {
            let _ = write!(out, "{} {} {:?}", x.line_number, x.text, x.sdp_type);
            let _ = write!(out, "{}", serde_json::to_string(&x).unwrap_or_else(|e| e.to_string()));
            if let SdpType::Attribute(a) = &x.sdp_type {
                let _ = write!(out, "{a}{}", SdpAttributeType::from(a));
                let mut an = StatefulSdpAnonymizer::new();
                let _ = write!(out, "{:?}", a.masked_clone(&mut an));
            }
            let mut v = vec![x];
            let _ = write!(out, "{:?}", parse_media_vector(&mut v).map(|m| m.len()).map_err(|e| e.to_string()));
        }
        Err(e) => {
            let _ = write!(out, "{e}|{e:?}");
        }
    }
    out
}
/// every entry point that takes a piece of text
pub fn drive_piece(v: &str) -> String {
    let mut o = String::new();
    let _ = write!(o, "{:?}", SdpAttribute::from_str(v).map(|a| a.to_string()).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", parse_attribute(v).map(|a| format!("{a:?}")).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", parse_media(v).map(|a| format!("{a:?}")).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", Address::from_str(v).map(|a| a.to_string()).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", network::parse_unicast_address(v).map(|a| a.to_string()).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", network::parse_address_type(v).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", network::parse_network_type(v).map_err(|e| e.to_string()));
    let _ = write!(o, "{:?}", AddressType::from_str(v).map_err(|e| e.to_string()));
    for t in [AddressType::IpV4, AddressType::IpV6] {
        let _ = write!(o, "{:?}", ExplicitlyTypedAddress::try_from((t, v)).map(|a| a.to_string()).map_err(|e| e.to_string()));
    }
    use SdpAttributeFingerprintHashType as H;
    for h in [H::Sha1, H::Sha224, H::Sha256, H::Sha384, H::Sha512] {
        let _ = write!(o, "{:?}", h.parse_octets(v).map_err(|e| e.to_string()));
    }
    let _ = write!(o, "{:?}", H::try_from_name(v).map(|h| h.octet_count()).map_err(|e| e.to_string()));
    let _ = write!(o, "{}", SdpAttributeSimulcastId::new(v));
    let _ = write!(o, "{}", SdpAttributeSimulcastVersion::new(v));
    o
}

fn number(s: &mut Src) -> usize {
    match s.below(4) {
        0 => 0,
        1 => usize::MAX - s.below(3) as usize,
        _ => gen::u64v(s) as usize,
    }
}
/// the outcome must be the same with logging on
pub fn both(what: &str, cx: &mut Ctx, f: impl Fn() -> String) -> Res {
    logging(false);
    let a = match guarded(&f) {
        Ok(a) => a,
        Err(p) => return fail(format!("{what}: {p}\ninput {:?}", crate::big::short(&cx.input))),
    };
    logging(true);
    let b = guarded(&f);
    logging(false);
    match b {
        Err(p) => fail(format!("{what} with logging enabled: {p}\ninput {:?}", crate::big::short(&cx.input))),
        Ok(b) => {
            ensure!(a == b, "{what} gives another outcome when logging is enabled");
            Ok(())
        }
    }
}
fn c01_text(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = match s.below(6) {
        0 => sess::garbage(s),
        1 => sess::session(s, &sess::Opt { max_media: 8, max_attrs: 30, kinds: None }).plain(),
        _ => sess::mutated(s),
    };
    cx.input(&t);
    cx.nontrivial = t.lines().filter(|l| !l.trim().is_empty()).count() >= 4;
    both("parsing, printing or serialising", cx, || drive(&t, true))
}
/// lines of every kind with wide characters, NULs and odd blanks at every place
fn c01_line(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut l = match s.below(4) {
        0 => invalid::line(s).0,
        1 => sess::unsupported(s).0,
        _ => sess::some_line(s),
    };
    let n = s.below(4);
    for _ in 0..n {
        match s.below(5) {
            0 | 1 => mutate_line(s, &mut l),
            k => {
                let at: Vec<usize> = l.char_indices().map(|x| x.0).chain([l.len()]).collect();
                let i = *s.pick(&at);
                let c = *s.pick(&["é", "🙂", "İ", "ß", "\u{0}", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{301}", "ﬃ", "\u{10ffff}", "\r", "\u{b}", "ǆ", "="]);
                match k {
                    2 => l.insert_str(i, c),
                    3 => {
                        let e = l[i..].chars().next().map_or(i, |c| i + c.len_utf8());
                        l.replace_range(i..e, c);
                    }
                    _ => {
                        if s.flip() {
                            l.truncate(i);
                        } else {
                            l.drain(..i);
                        }
                    }
                }
            }
        }
    }
    cx.input(&l);
    let num = number(s);
    let first_only: String = l.lines().next().unwrap_or("").to_string();
    cx.nontrivial = l.len() > 2;
    cx.class(match parse_sdp_line(&l, 0) {
        Ok(_) => "accepted",
        Err(SdpParserError::Unsupported { .. }) => "unsupported",
        Err(_) => "rejected",
    });
    both("parse_sdp_line", cx, || drive_line(&l, num))?;
    let v = l.split_once('=').map_or("", |x| x.1).to_string();
    let at_session = s.flip();
    both("an entry point for a part of a line", cx, || drive_piece(&v) + &drive_piece(v.split_once(':').map_or("", |x| x.1)))?;
    let words: Vec<&str> = v.split(|c: char| " :/,;=".contains(c)).collect();
    if let Some(w) = words.get(s.idx(words.len().max(1))) {
        both("an entry point for a word", cx, || drive_piece(w))?;
    }
    let t = sess::minimal(&first_only, at_session);
    both("parsing, printing or serialising", cx, || drive(&t, true))
}
/// a run of plain characters followed by wide ones within a line that was accepted: whatever cuts a
/// value at some length cuts inside a character for one of these
fn c01_runs(s: &mut Src, cx: &mut Ctx) -> Res {
    let l = match s.below(6) {
        0 => invalid::line(s).0,
        1 => sess::unsupported(s).0,
        _ => sess::some_line(s),
    };
    let at: Vec<usize> = l.char_indices().map(|x| x.0).chain([l.len()]).filter(|&i| i >= l.len().min(2)).collect();
    // mostly where a word begins or ends
    let edges: Vec<usize> = at
        .iter()
        .copied()
        .filter(|&i| {
            let c = |x: Option<char>| x.map_or(true, |c| !c.is_alphanumeric());
            c(l[..i].chars().last()) || c(l[i..].chars().next())
        })
        .collect();
    let i = if s.below(4) > 0 && !edges.is_empty() { *s.pick(&edges) } else { *s.pick(&at) };
    let n = match s.below(8) {
        0..=3 => s.range(0, 140) as usize,
        4 => ((1u64 << s.range(3, 12)) + 2 - s.below(6)) as usize,
        5 => {
            let d = dict::dict();
            if d.small.is_empty() { 5 } else { ((*s.pick(&d.small) + 2).saturating_sub(s.below(6))) as usize }
        }
        _ => s.range(100, 1500) as usize,
    };
    let wide = *s.pick(&["é", "€", "🙂", "é€", "a€", "\u{301}"]);
    let m = s.range(1, 40) as usize;
    // the cut may count from the front of the word, of the value, or of the line
    let back = match s.below(4) {
        0 => i,
        1 => i - l[..i].rfind([':', '=']).map_or(0, |x| x + 1),
        2 => i - l[..i].find('=').map_or(0, |x| x + 1),
        _ => 0,
    };
    let n = n.saturating_sub(back);
    let l2 = format!("{}{}{}{}", &l[..i], "a".repeat(n), wide.repeat(m), &l[i..]);
    cx.input(&l2);
    cx.nontrivial = true;
    cx.class(match parse_sdp_line(&l2, 0) {
        Ok(_) => "accepted",
        Err(SdpParserError::Unsupported { .. }) => "unsupported",
        Err(_) => "rejected",
    });
    both("parse_sdp_line", cx, || drive_line(&l2, 7))?;
    let first_only: String = l2.lines().next().unwrap_or("").to_string();
    let t = sess::minimal(&first_only, s.flip());
    both("parsing, printing or serialising", cx, || drive(&t, true))
}
/// few but huge
fn c01_long(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = 1000 * s.range(1, 40) as usize;
    let u = *s.pick(&["[", "]", "a", ",", ";", "a=", "a;", "~", "~,", "(", "{", "=", ":", " ", "1 ", "1,", "1:", "0", "9", "x=1;", "é", "🙂", "pt=1;", "send ", "\t", "/", "/1", ".a", "a.", "::", "[x=1,y=1] ", "FF:", "-"]);
    let (a, b) = match s.below(3) {
        0 => {
            let (f, _) = *s.pick(invalid::FIELDS);
            let (a, b) = f.split_once("{}").unwrap();
            (a.to_string(), b.to_string())
        }
        1 => {
            let k = *s.pick(gen::VALUED);
            let t = format!("a={}", gen::attr(s, k, &Env::default()).plain());
            let at: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            let i = *s.pick(&at);
            (t[..i].to_string(), t[i..].to_string())
        }
        _ => {
            let k = *s.pick(gen::VALUED);
            (format!("a={k}:"), String::new())
        }
    };
    let l = format!("{a}{}{b}", u.repeat(n));
    cx.input(format!("{a}({u} x {n}){b}"));
    cx.nontrivial = true;
    let t = sess::minimal(&l, s.flip());
    both("parse_sdp_line", cx, || drive_line(&l, 1))?;
    both("parsing, printing or serialising", cx, || drive(&t, true))
}
/// any sequence of already parsed lines
fn c01_vectors(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = gen::count(s, 0, 8, 60);
    let (mut v1, mut v2): (Vec<SdpLine>, Vec<SdpLine>) = (vec![], vec![]);
    for _ in 0..n {
        let l = sess::some_line(s);
        let num = number(s);
        if let (Ok(x), Ok(y)) = (parse_sdp_line(&l, num), parse_sdp_line(&l, num)) {
            cx.add_input(&l);
            v1.push(x);
            v2.push(y);
        }
    }
    cx.nontrivial = v1.len() > 1;
    let r = match guarded(|| parse_media_vector(&mut v1).map(|m| m.iter().map(|x| x.to_string()).collect::<Vec<_>>()).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => return fail(format!("parse_media_vector: {p}")),
    };
    cx.class(if r.is_ok() { "media accepted" } else { "media rejected" });
    let base = parse_sdp("v=0\r\no=- 0 0 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\n", true);
    if let Ok(mut b) = base {
        if let Err(p) = guarded(|| {
            let _ = b.parse_session_vector(&mut v2);
            b.to_string()
        }) {
            return fail(format!("parse_session_vector: {p}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

fn numbers(t: &str) -> Vec<u128> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars().chain([' ']) {
        if c.is_ascii_digit() {
            cur.push(c);
        } else if !cur.is_empty() {
            if let Ok(x) = cur.parse() {
                v.push(x);
            }
            cur.clear();
        }
    }
    v
}
fn kind_of(r: &Result<SdpLine, SdpParserError>) -> String {
    match r {
        Ok(l) => format!("accepted as {}", proj::sdp_type(&l.sdp_type, false)),
        Err(e) => err_full(e),
    }
}
/// the value is accepted and kept
fn keeps(t: &str, w: &str, slot: Slot) -> Res {
    let l = t.replace("{}", w);
    let x = match parse_sdp_line(&l, 0) {
        Ok(x) => x,
        Err(e) => return fail(format!("{l:?} is rejected although {w} is allowed there: {e}")),
    };
    let p = proj::sdp_type(&x.sdp_type, false);
    let v: Option<u128> = match slot {
        Slot::Hex(..) => u128::from_str_radix(w, 16).ok(),
        _ => w.parse().ok(),
    };
    if let (Some(v), true) = (v, matches!(slot, Slot::Int(..) | Slot::Hex(..) | Slot::Star(..) | Slot::Fmt)) {
        ensure!(numbers(&p).contains(&v), "{l:?} is accepted, but {v} is not in its value: {p}");
        // another value in the same place gives another result
        let other = match slot {
            Slot::Hex(_, hi) => format!("{:x}", if v as u64 == hi { 0 } else { v as u64 + 1 }),
            Slot::Int(lo, hi) | Slot::Star(lo, hi) => {
                if lo == hi {
                    return Ok(());
                }
                (if v as u64 == hi { lo } else { v as u64 + 1 }).to_string()
            }
            _ => (if v == 127 { 96 } else { 127 }).to_string(),
        };
        let l2 = t.replace("{}", &other);
        match parse_sdp_line(&l2, 0) {
            Ok(y) => ensure!(proj::sdp_type(&y.sdp_type, false) != p, "{l:?} and {l2:?} give the same value"),
            Err(e) => return fail(format!("{l2:?} is rejected although {other} is allowed there: {e}")),
        }
    }
    Ok(())
}
fn fatal(l: &str, why: &str) -> Res {
    let r = parse_sdp_line(l, 3);
    match &r {
        Err(SdpParserError::Line { .. }) => Ok(()),
        _ => fail(format!("{l:?} ({why}) is not rejected: {}", kind_of(&r))),
    }
}
/// through every interface that takes the line
fn fatal_everywhere(s: &mut Src, l: &str, why: &str) -> Res {
    fatal(l, why)?;
    if let Some(v) = l.strip_prefix("a=") {
        ensure!(SdpAttribute::from_str(v).is_err(), "SdpAttribute::from_str accepts {v:?} ({why})");
        ensure!(parse_attribute(v).is_err(), "parse_attribute accepts {v:?} ({why})");
    }
    if let Some(v) = l.strip_prefix("m=") {
        ensure!(parse_media(v).is_err(), "parse_media accepts {v:?} ({why})");
    }
    let t = if l.starts_with("v=") || l.starts_with("o=") {
        let mut v = vec!["v=0", "o=- 1 1 IN IP4 0.0.0.0", "s=-", "t=0 0"];
        v[if l.starts_with('v') { 0 } else { 1 }] = l;
        sess::plain(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>())
    } else {
        sess::minimal(l, s.flip())
    };
    for strict in [false, true] {
        match parse_sdp(&t, strict) {
            Ok(_) => return fail(format!("a description with {l:?} ({why}) is accepted")),
            Err(SdpParserError::Line { .. }) => (),
            Err(e) => return fail(format!("a description with {l:?} ({why}) is rejected with {}", err_full(&e))),
        }
    }
    Ok(())
}
fn c14_fields(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, slot) = *s.pick(invalid::FIELDS);
    cx.nontrivial = true;
    if s.pct(40) {
        let w = invalid::right(s, slot);
        cx.input(t.replace("{}", &w));
        cx.class("within the range");
        keeps(t, &w, slot)
    } else {
        let (w, why) = invalid::wrong(s, slot);
        let l = t.replace("{}", &w);
        cx.input(&l);
        cx.class(why);
        fatal_everywhere(s, &l, why)
    }
}
/// the same faults in attributes with generated values
fn c14_broken(s: &mut Src, cx: &mut Ctx) -> Res {
    let (l, why) = invalid::line(s);
    cx.input(&l);
    cx.class(why);
    cx.nontrivial = true;
    fatal_everywhere(s, &l, why)
}
fn c14_open(s: &mut Src, cx: &mut Ctx) -> Res {
    let (l, why) = sess::unsupported(s);
    cx.input(&l);
    cx.class(why);
    cx.nontrivial = true;
    let r = parse_sdp_line(&l, 0);
    match &r {
        Err(SdpParserError::Unsupported { .. }) => Ok(()),
        _ => fail(format!("{l:?} ({why}) is not reported as unsupported: {}", kind_of(&r))),
    }
}
/// a list of telephone events is kept when every part is a number up to 100 or a rising range of such numbers, and is
/// otherwise the documented default as a whole
fn c14_events(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut ok = true;
    let mut w: Vec<String> = vec![];
    let n = s.range(1, 6);
    let broken = s.flip();
    let at = s.below(n);
    for i in 0..n {
        if broken && (i == at || s.pct(10)) {
            ok = false;
            let a = gen::int(s, 0, 100);
            w.push(match s.below(8) {
                0 => s.range(101, 400).to_string(),
                1 => (*s.pick(&["", "x", "-", "*", "1-", "-1", "--", "1-2-3", "0x1", "1.5", "A", "1;2", "256", "65536", "4294967296", "0..15", "\u{661}"])).to_string(),
                2 => format!("{a}-{a}"),
                3 => format!("{}-{a}", s.range(a + 1, 120)),
                4 => format!("{a}-{}", s.range(101, 400)),
                5 => format!("{}-{}", s.range(101, 250), s.range(251, 255)),
                6 => format!("{a}-x"),
                _ => format!("{}", 256 + a),
            });
        } else if s.flip() {
            w.push(gen::int(s, 0, 100).to_string());
        } else {
            let a = gen::int(s, 0, 99);
            w.push(format!("{a}-{}", gen::int(s, a + 1, 100)));
        }
    }
    let list = w.join(",");
    let line = format!("a=fmtp:{} {list}", gen::int(s, 0, 255));
    cx.input(line.clone());
    if list.contains(';') && list.contains('=') || list.trim() != list || list.is_empty() {
        return Ok(());
    }
    cx.nontrivial = true;
    cx.class(if ok { "valid list" } else { "invalid list" });
    let want = if ok { list.as_str() } else { "0-15" };
    match parse_sdp_line(&line, 0).map(|l| l.sdp_type) {
        Ok(SdpType::Attribute(SdpAttribute::Fmtp(f))) => ensure!(f.parameters.dtmf_tones == want, "{line:?} gives the events {:?} instead of {want:?}", f.parameters.dtmf_tones),
        Ok(_) => return fail(format!("{line:?} is read as something else")),
        Err(e) => return fail(format!("{line:?}: {e}")),
    }
    Ok(())
}

fn c14_extra(e: &mut Extra) -> Res {
    let check = |e: &mut Extra, t: &str, slot: Slot, v: u128, w: &str, lo: u64, hi: u64| -> Res {
        e.evaluations += 1;
        e.nontrivial += 1;
        let l = t.replace("{}", w);
        let inside = v >= lo as u128 && v <= hi as u128;
        let r = if inside { keeps(t, w, slot) } else { fatal(&l, "out of range") };
        if r.is_err() {
            e.failing_input = l;
        }
        r
    };
    for (t, slot) in invalid::FIELDS {
        let (lo, hi, hex) = match slot {
            Slot::Int(a, b) | Slot::Star(a, b) => (*a, *b, false),
            Slot::Hex(a, b) => (*a, *b, true),
            Slot::Fmt => {
                for v in 0..70_000u64 {
                    e.evaluations += 1;
                    let l = t.replace("{}", &v.to_string());
                    let r = if gen::valid_fmt(v) { keeps(t, &v.to_string(), *slot) } else { fatal(&l, "format that must not be used") };
                    if r.is_err() {
                        e.failing_input = l;
                        return r;
                    }
                }
                continue;
            }
            _ => continue,
        };
        let show = |v: u128| if hex { format!("{v:x}") } else { v.to_string() };
        let mut vs: Vec<u128> = vec![];
        for b in [lo as u128, hi as u128] {
            for d in 0..4 {
                vs.push(b + d);
                vs.push(b.saturating_sub(d));
            }
        }
        for p in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 100] {
            let b = 1u128 << p;
            for d in 0..3 {
                vs.push(b + d);
                vs.push(b - d);
                vs.push(b + hi as u128 + d);
                vs.push(b * 2 + hi as u128 / 2 + d);
            }
        }
        for k in 0..38 {
            vs.push(10u128.pow(k));
            vs.push(10u128.pow(k) - 1);
        }
        // every value of the small fields and what follows them
        let dense = if hi <= 65_535 { 70_000 } else { 600 };
        vs.extend(0..dense);
        for d in &crate::dict::dict().ints {
            vs.push(*d as u128);
            vs.push(*d as u128 + 1);
            vs.push((*d as u128).saturating_sub(1));
        }
        vs.sort_unstable();
        vs.dedup();
        for v in vs {
            check(e, t, *slot, v, &show(v), lo, hi)?;
        }
    }
    e.notes.insert("fields".into(), serde_json::json!(invalid::FIELDS.len()));
    e.samples.push(serde_json::json!({"sub": "boundaries", "input": invalid::FIELDS[7].0}));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

/// places an address may stand, whether its type is declared with it
const PLACES: &[(&str, bool)] = &[
    ("o=- 1 2 IN {t} {a}", true),
    ("c=IN {t} {a}", true),
    ("c=IN {t} {a}/127", true),
    ("c=IN {t} {a}/127/3", true),
    ("a=rtcp:9 IN {t} {a}", true),
    ("a=candidate:1 1 udp 1 {a} 9 typ host", false),
    ("a=candidate:1 1 tcp 1 10.0.0.1 9 typ srflx raddr {a} rport 9", false),
    ("a=candidate:1 1 udp 1 10.0.0.1 9 typ relay rport 1 raddr {a}", false),
    ("a=remote-candidates:1 {a} 9", false),
];
fn other_family(t: &str) -> &'static str {
    if t == "IP4" {
        "IP6"
    } else {
        "IP4"
    }
}
fn a_type(t: &str) -> AddressType {
    if t == "IP4" {
        AddressType::IpV4
    } else {
        AddressType::IpV6
    }
}
fn c15_places(s: &mut Src, cx: &mut Ctx) -> Res {
    let a = gen::gaddr(s);
    let (p, typed) = *s.pick(PLACES);
    let l = p.replace("{t}", &gen::rcase(s, a.ty)).replace("{a}", &a.wire);
    cx.input(&l);
    cx.nontrivial = true;
    cx.class(if a.is_name {
        "name"
    } else if a.ty == "IP4" {
        "IPv4"
    } else {
        "IPv6"
    });
    let canon = if typed { &a.typed } else { &a.canon };
    let x = match parse_sdp_line(&l, 0) {
        Ok(x) => x,
        Err(e) => return fail(format!("{l:?} is rejected: {e}")),
    };
    let pr = proj::sdp_type(&x.sdp_type, false);
    ensure!(pr.contains(canon.as_str()), "{l:?} should hold {canon} but is {pr}");
    // printing gives an equal address of the same type
    let text = match &x.sdp_type {
        SdpType::Origin(o) => format!("o={o}"),
        SdpType::Connection(c) => format!("c={c}"),
        SdpType::Attribute(a) => format!("a={a}"),
        _ => String::new(),
    };
    match parse_sdp_line(&text, 0) {
        Ok(y) => ensure!(proj::sdp_type(&y.sdp_type, false) == pr, "{l:?} prints as {text:?}, which is {}", proj::sdp_type(&y.sdp_type, false)),
        Err(e) => return fail(format!("{l:?} prints as {text:?}, which is rejected: {e}")),
    }
    // the other family
    if typed {
        let l2 = p.replace("{t}", &gen::rcase(s, other_family(a.ty))).replace("{a}", &a.wire);
        let r = parse_sdp_line(&l2, 0);
        if a.is_name {
            let y = match r {
                Ok(y) => proj::sdp_type(&y.sdp_type, false),
                Err(e) => return fail(format!("{l2:?} is rejected: {e}")),
            };
            ensure!(y != pr, "the declared type of a name is lost: {l:?} and {l2:?} both give {y}");
        } else {
            cx.class("contradicting family");
            match r {
                Err(SdpParserError::Line { error, .. }) => ensure!(
                    matches!(error, SdpParserInternalError::AddressTypeMismatch { .. }),
                    "{l2:?} is rejected for another reason: {error}"
                ),
                r => return fail(format!("{l2:?} is not rejected: {}", kind_of(&r))),
            }
        }
    }
    Ok(())
}
const NO_ADDRESS: &[&str] = &[
    "256.1.1.1", "1.2.3.256", "1.2.3.4.5", "1.2.3.4.999", "::1::", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "12345::", "::g", "::ffff:1.2.3", "::ffff:1.2.3.256",
    "1.2.3.4:80", ":", ":1", "1::2::3", "fe80::1%eth0", "0x1g::", "[::1", "a:b", "localhost:1", "::1.2.3.4.5", "999999999999",
];
fn c15_not(s: &mut Src, cx: &mut Ctx) -> Res {
    let w = *s.pick(NO_ADDRESS);
    let (p, _) = *s.pick(PLACES);
    let t = if w.contains(':') { "IP6" } else { "IP4" };
    let l = p.replace("{t}", t).replace("{a}", w);
    cx.input(&l);
    cx.nontrivial = true;
    fatal(&l, "not an address")?;
    ensure!(Address::from_str(w).is_err(), "Address::from_str accepts {w:?}");
    ensure!(network::parse_unicast_address(w).is_err(), "parse_unicast_address accepts {w:?}");
    for t in [AddressType::IpV4, AddressType::IpV6] {
        ensure!(ExplicitlyTypedAddress::try_from((t, w)).is_err(), "ExplicitlyTypedAddress::try_from({t}, {w:?}) succeeds");
    }
    Ok(())
}
fn c15_api(s: &mut Src, cx: &mut Ctx) -> Res {
    let a = gen::gaddr(s);
    // the second one is often close to the first
    let b: GAddr = match s.below(4) {
        0 => gen::gaddr(s),
        1 => a.clone(),
        2 => {
            let mut b = a.clone();
            if b.is_name {
                b.wire = gen::rcase(s, &a.wire);
                if s.flip() {
                    b.ty = other_family(b.ty);
                    b.typed = format!("fqdn{}:{}", &b.ty[2..], &b.canon[5..]);
                }
            }
            b
        }
        _ => {
            let mut b = a.clone();
            if b.is_name {
                b.wire = format!("x{}", a.wire);
                if b.wire.split('.').next().map_or(0, |l| l.len()) > 63 {
                    return Ok(());
                }
                let c = b.wire.to_ascii_lowercase();
                b.canon = format!("fqdn:{c:?}");
                b.typed = format!("fqdn{}:{c:?}", &b.ty[2..]);
            }
            b
        }
    };
    cx.input(format!("{} {} / {} {}", a.ty, a.wire, b.ty, b.wire));
    cx.nontrivial = true;
    let get = |x: &GAddr| -> Result<(Address, ExplicitlyTypedAddress), Fail> {
        let u = Address::from_str(&x.wire).map_err(|e| Fail { msg: format!("Address::from_str({:?}): {e}", x.wire) })?;
        ensure!(proj::addr(&u) == x.canon, "Address::from_str({:?}) gives {} instead of {}", x.wire, proj::addr(&u), x.canon);
        let v = network::parse_unicast_address(&x.wire).map_err(|e| Fail { msg: format!("parse_unicast_address({:?}): {e}", x.wire) })?;
        ensure!(proj::addr(&v) == x.canon, "parse_unicast_address({:?}) gives {}", x.wire, proj::addr(&v));
        let t = ExplicitlyTypedAddress::try_from((a_type(x.ty), x.wire.as_str())).map_err(|e| Fail { msg: format!("try_from({}, {:?}): {e}", x.ty, x.wire) })?;
        ensure!(proj::typed(&t) == x.typed, "try_from({}, {:?}) gives {} instead of {}", x.ty, x.wire, proj::typed(&t), x.typed);
        ensure!(t.address_type() == a_type(x.ty), "address_type of {:?} is {}", x.wire, t.address_type());
        let n = t.address_type() as i32;
        ensure!(x.ty == format!("IP{n}"), "the number of the address type {} is {n}", x.ty);
        ensure!(proj::addr(&Address::from(t.clone())) == x.canon, "Address::from({}) gives {}", x.typed, proj::addr(&Address::from(t.clone())));
        let r = ExplicitlyTypedAddress::try_from((a_type(other_family(x.ty)), x.wire.as_str()));
        match r {
            Ok(r) => ensure!(x.is_name && r != t, "{:?} is accepted with type {}", x.wire, other_family(x.ty)),
            Err(SdpParserInternalError::AddressTypeMismatch { found, expected }) => {
                ensure!(!x.is_name && found == a_type(x.ty) && expected == a_type(other_family(x.ty)), "wrong mismatch reported for {:?}", x.wire)
            }
            Err(e) => return fail(format!("{:?} with the other type: {e}", x.wire)),
        }
        // printed forms
        let p = u.to_string();
        ensure!(Address::from_str(&p).is_ok_and(|y| y == u && proj::addr(&y) == x.canon), "{:?} prints as {p:?}", x.wire);
        let p = t.to_string();
        let w: Vec<&str> = p.split(' ').collect();
        ensure!(w.len() == 3 && w[0] == "IN" && w[1] == x.ty, "{} prints as {p:?}", x.typed);
        ensure!(Address::from_str(w[2]).is_ok_and(|y| y == u), "{} prints as {p:?}", x.typed);
        if let Address::Ip(i) = &u {
            ensure!(network::ip_address_to_string(*i) == p, "ip_address_to_string gives {:?}", network::ip_address_to_string(*i));
            ensure!(i.address_type() == a_type(x.ty), "IpAddr::address_type of {i} is {}", i.address_type());
            let f = match i {
                IpAddr::V4(v) => ExplicitlyTypedAddress::from(*v),
                IpAddr::V6(v) => ExplicitlyTypedAddress::from(*v),
            };
            ensure!(proj::typed(&f) == x.typed && proj::typed(&ExplicitlyTypedAddress::from(*i)) == x.typed, "ExplicitlyTypedAddress::from({i}) gives {}", proj::typed(&f));
        }
        Ok((u, t))
    };
    let (ua, ta) = get(&a)?;
    let (ub, tb) = get(&b)?;
    ensure!((ua == ub) == (a.canon == b.canon) && (ub == ua) == (ua == ub), "{ua:?} == {ub:?} is {}", ua == ub);
    ensure!((ta == tb) == (a.typed == b.typed) && (tb == ta) == (ta == tb), "{ta:?} == {tb:?} is {}", ta == tb);
    // names made by hand, in any letter case
    if a.is_name {
        let f = |w: &str| (Address::Fqdn(w.to_string()), ExplicitlyTypedAddress::Fqdn { address_type: a_type(a.ty), domain: w.to_string() });
        let (x, y) = f(&gen::rcase(s, &a.wire));
        ensure!(x == ua && ua == x, "{x:?} differs from {ua:?}");
        ensure!(y == ta && ta == y, "{y:?} differs from {ta:?}");
        ensure!(y.address_type() == a_type(a.ty), "address_type of {y:?}");
    } else {
        let x = Address::Fqdn(ua.to_string());
        ensure!(x != ua && ua != x, "the name {x:?} equals the address {ua:?}");
        let y = ExplicitlyTypedAddress::Fqdn { address_type: a_type(a.ty), domain: ua.to_string() };
        ensure!(y != ta && ta != y, "the name {y:?} equals the address {ta:?}");
    }
    Ok(())
}
fn c15_types(s: &mut Src, cx: &mut Ctx) -> Res {
    let w = match s.below(4) {
        0 => gen::rcase(s, "IP4"),
        1 => gen::rcase(s, "IP6"),
        2 => (*s.pick(&["", "IP", "4", "6", "IP5", "IPV4", "IP4 ", " IP4", "IP44", "IP4\u{0}", "I P4", "IN", "ip64", "IP-4", "\u{ff29}P4", "ıp4"])).to_string(),
        _ => gen::text(s),
    };
    cx.input(&w);
    cx.nontrivial = true;
    let want = if w.eq_ignore_ascii_case("IP4") {
        Some(AddressType::IpV4)
    } else if w.eq_ignore_ascii_case("IP6") {
        Some(AddressType::IpV6)
    } else {
        None
    };
    // "ı" becomes "I" in upper case: no claim about letters outside ASCII
    if !w.is_ascii() {
        return Ok(());
    }
    ensure!(AddressType::from_str(&w).ok() == want, "AddressType::from_str({w:?})");
    ensure!(network::parse_address_type(&w).ok() == want, "parse_address_type({w:?})");
    if let Some(t) = want {
        ensure!(t.to_string() == w.to_ascii_uppercase(), "{w:?} prints as {t}");
    } else if !w.is_empty() && w.trim() == w && !w.contains(' ') && !w.contains('\t') {
        for l in [format!("c=IN {w} example.com"), format!("o=- 1 1 IN {w} example.com"), format!("a=rtcp:9 IN {w} example.com")] {
            let r = parse_sdp_line(&l, 0);
            ensure!(matches!(r, Err(SdpParserError::Line { .. })), "{l:?} is not rejected: {}", kind_of(&r));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16

/// what an independent reading of the value gives
#[derive(Debug, PartialEq)]
enum Fp {
    Good(&'static str, Vec<u8>),
    Unknown,
    Bad,
}
fn read_octets(t: &str, n: usize) -> Option<Vec<u8>> {
    // n times two hexadecimal digits with a colon between each two
    let b = t.as_bytes();
    if n == 0 || b.len() != 3 * n - 1 {
        return None;
    }
    let mut v = vec![];
    for i in 0..n {
        let h = (b[3 * i] as char).to_digit(16)?;
        let l = (b[3 * i + 1] as char).to_digit(16)?;
        if i + 1 < n && b[3 * i + 2] != b':' {
            return None;
        }
        v.push((h * 16 + l) as u8);
    }
    Some(v)
}
fn read_fp(v: &str) -> Fp {
    let w: Vec<&str> = v.split_whitespace().collect();
    if w.len() != 2 {
        return Fp::Bad;
    }
    match gen::HASHES.iter().find(|h| h.0 == w[0]) {
        None => Fp::Unknown,
        Some((h, n)) => read_octets(w[1], *n).map_or(Fp::Bad, |b| Fp::Good(h, b)),
    }
}
fn hash_of(n: &str) -> SdpAttributeFingerprintHashType {
    use SdpAttributeFingerprintHashType as H;
    match n {
        "sha-1" => H::Sha1,
        "sha-224" => H::Sha224,
        "sha-256" => H::Sha256,
        "sha-384" => H::Sha384,
        _ => H::Sha512,
    }
}
fn c16_text(s: &mut Src, cx: &mut Ctx) -> Res {
    let (h, n) = *s.pick(gen::HASHES);
    let name = match s.below(12) {
        0 => (*s.pick(gen::HASHES)).0.to_string(),
        1 => (*s.pick(&["md5", "md2", "sha1", "sha256", "sha-512/256", "sha-", "sha-2", "sha-25", "sha-2566", "sha-3-256", "sha", "SHA_256", "sha-1 ", "", "x"])).to_string(),
        _ => h.to_string(),
    };
    let len = match s.below(14) {
        0 => n - 1,
        1 => n + 1,
        2 => s.range(0, 70) as usize,
        3 => *s.pick(&[20usize, 28, 32, 48, 64]),
        4 => n * 2,
        _ => n,
    };
    let b = gen::fp_bytes(s, len);
    let style = s.below(3);
    let mut tok: Vec<String> = b
        .iter()
        .map(|x| match style {
            0 => format!("{x:02x}"),
            1 => {
                let t = format!("{x:02x}");
                gen::rcase(s, &t)
            }
            _ => format!("{x:02X}"),
        })
        .collect();
    let mut t;
    if s.pct(45) && !tok.is_empty() {
        // damage
        let i = match s.below(3) {
            0 => tok.len() - 1,
            1 => 0,
            _ => s.idx(tok.len()),
        };
        match s.below(11) {
            0 => tok[i] = format!("{}0", tok[i]),
            1 => tok[i] = tok[i][..1].to_string(),
            2 => tok[i] = String::new(),
            3 => tok[i] = (*s.pick(&["G0", "0G", "+1", "-1", "1+", " 1", "0x", "é", "٣٣", "１", "1.", "\u{0}0", "zz", "00 ", "ﬀ", "0b", "0o", "_1", "1_", "/0", "0:", "0@", "0`", "0g", ":0"])).to_string(),
            4 => {
                let x = tok[i].clone();
                tok.insert(i, x);
            }
            5 => {
                tok.remove(i);
            }
            6 => tok.push(String::new()),
            7 => tok.insert(0, String::new()),
            8 => {
                // two bytes run together
                if i + 1 < tok.len() {
                    let x = tok.remove(i + 1);
                    tok[i].push_str(&x);
                }
            }
            9 => {
                // the right length by merging and splitting
                if i + 1 < tok.len() {
                    let x = tok.remove(i + 1);
                    tok[i].push_str(&x);
                    tok.push("00".into());
                }
            }
            _ => {
                let c = tok[i].clone();
                let k = s.idx(c.len().max(1)).min(c.len());
                if c.is_char_boundary(k) {
                    let w = *s.pick(&["-", ".", ";", ",", " ", "::"]);
                    tok[i] = format!("{}{w}{}", &c[..k], &c[k..]);
                }
            }
        }
        t = tok.join(":");
        if s.pct(15) {
            let sep = *s.pick(&["", "-", " ", ";", "::", ": ", " :", ".", ","]);
            t = tok.join(sep);
        } else if s.pct(10) {
            // one separator only
            if let Some(p) = t.rfind(':') {
                let sep = *s.pick(&["", "-", " ", ";", "::", "."]);
                t.replace_range(p..p + 1, sep);
            }
        }
    } else {
        t = tok.join(":");
    }
    let gap = gen::gap(s);
    let mut v = format!("{name}{gap}{t}");
    match s.below(30) {
        0 => v.push_str(" x"),
        1 => v.push_str(" 00"),
        2 => v = t.clone(),
        _ => (),
    }
    cx.input(format!("a=fingerprint:{v}"));
    cx.nontrivial = true;
    let want = read_fp(&v);
    cx.class(match want {
        Fp::Good(..) => "complete",
        Fp::Unknown => "unknown hash",
        Fp::Bad => "damaged",
    });
    let wire = format!("fingerprint:{v}");
    let line = parse_sdp_line(&format!("a={wire}"), 0);
    let attr = SdpAttribute::from_str(&wire);
    match want {
        Fp::Good(h, ref b) => {
            let c = format!("fingerprint {h} {}", proj::hex(b));
            let a = match attr {
                Ok(a) => a,
                Err(e) => return fail(format!("a complete fingerprint is rejected: {e}")),
            };
            ensure!(proj::attr(&a, false) == c, "expected {c}\n  found {}", proj::attr(&a, false));
            ensure!(line.is_ok(), "parse_sdp_line rejects it");
            let p = a.to_string();
            ensure!(read_fp(p.trim_start_matches("fingerprint:")) == want, "printed as {p:?}");
            let hh = hash_of(h);
            let o = hh.parse_octets(v.split_whitespace().nth(1).unwrap());
            ensure!(o.as_ref().ok() == Some(b), "parse_octets gives {:?}", o.map_err(|e| e.to_string()));
            let f = SdpAttributeFingerprint::try_from((hh, b.clone()));
            ensure!(f.is_ok_and(|f| SdpAttribute::Fingerprint(f).to_string() == p), "try_from disagrees");
        }
        Fp::Unknown => {
            ensure!(matches!(line, Err(SdpParserError::Unsupported { .. })), "an unknown hash is not reported as unsupported: {}", kind_of(&line));
            ensure!(matches!(attr, Err(SdpParserInternalError::Unsupported(_))), "an unknown hash is not reported as unsupported by from_str");
        }
        Fp::Bad => {
            ensure!(matches!(line, Err(SdpParserError::Line { .. })), "not rejected: {}", kind_of(&line));
            ensure!(attr.is_err(), "from_str accepts it");
        }
    }
    // the same octets with every hash
    for (h2, n2) in gen::HASHES {
        let r = hash_of(h2).parse_octets(&t);
        let want = read_octets(&t, *n2);
        ensure!(r.as_ref().ok() == want.as_ref(), "{h2}.parse_octets({t:?}) gives {:?} instead of {want:?}", r.map_err(|e| e.to_string()));
    }
    Ok(())
}
fn c16_extra(e: &mut Extra) -> Res {
    use SdpAttributeFingerprintHashType as H;
    for (h, n) in gen::HASHES {
        let hh = hash_of(h);
        let ok = hh.octet_count() == *n && hh.to_string() == *h && H::try_from_name(h).is_ok_and(|x| x == hh);
        e.evaluations += 1;
        if !ok {
            e.failing_input = h.to_string();
            return fail(format!("{h}: octet_count {}, printed as {hh}", hh.octet_count()));
        }
        // every length
        for len in 0..=200usize {
            e.evaluations += 1;
            e.nontrivial += 1;
            let b: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
            let t: Vec<String> = b.iter().map(|x| format!("{x:02X}")).collect();
            let t = t.join(":");
            e.failing_input = format!("{h} {len} bytes");
            let r = SdpAttributeFingerprint::try_from((hh, b.clone()));
            ensure!(r.is_ok() == (len == *n), "try_from with {len} bytes for {h}: {}", if r.is_ok() { "accepted" } else { "rejected" });
            if let Ok(r) = r {
                ensure!(r.fingerprint == b && r.hash_algorithm == hh && r.to_string() == format!("{h} {t}"), "try_from for {h} gives {r}");
            }
            ensure!(hh.parse_octets(&t).is_ok() == (len == *n), "{h}.parse_octets with {len} bytes");
            let l = SdpAttribute::from_str(&format!("fingerprint:{h} {t}"));
            ensure!(l.is_ok() == (len == *n), "an attribute with {len} bytes for {h}: {}", if l.is_ok() { "accepted" } else { "rejected" });
        }
        // every byte value at every place, and every pair of ASCII characters as a byte
        for i in 0..*n {
            for v in 0..=255u8 {
                e.evaluations += 1;
                let mut b = vec![0x5a; *n];
                b[i] = v;
                let t = b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(":");
                e.failing_input = format!("{h} {t}");
                let r = hh.parse_octets(&t);
                ensure!(r.as_ref().ok() == Some(&b), "{h}.parse_octets gives {:?}", r.map_err(|e| e.to_string()));
            }
        }
        let head = "00:".repeat(n - 1);
        for x in 0..128u8 {
            for y in 0..128u8 {
                e.evaluations += 1;
                let t = format!("{head}{}{}", x as char, y as char);
                let want = (x as char).is_ascii_hexdigit() && (y as char).is_ascii_hexdigit();
                if hh.parse_octets(&t).is_ok() != want {
                    e.failing_input = format!("{h} {t:?}");
                    return fail(format!("{h}.parse_octets {} it", if want { "rejects" } else { "accepts" }));
                }
            }
        }
    }
    e.failing_input.clear();
    e.samples.push(serde_json::json!({"sub": "lengths", "input": "sha-256 with 0 to 200 bytes"}));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

fn c21_line(s: &mut Src, cx: &mut Ctx) -> Res {
    let m = gen::mline(s);
    cx.input(format!("m={}", m.wire));
    cx.nontrivial = true;
    cx.class_if(m.formats.len() > 10, "over 10 formats");
    let want = format!("M {}", m.canon);
    let c = match parse_media(&m.wire) {
        Ok(t) => {
            let c = proj::sdp_type(&t, false);
            ensure!(c == want, "expected {want}\n  found {c}");
            match t {
                SdpType::Media(x) => {
                    let p = x.to_string();
                    ensure!(
                        parse_media(&p).is_ok_and(|y| proj::sdp_type(&y, false) == want),
                        "printed as {p:?}, which means something else"
                    );
                    x
                }
                _ => return fail("parse_media gives something else than a media line"),
            }
        }
        Err(e) => return fail(format!("a valid media line is rejected: {e}")),
    };
    let _ = c;
    let l = format!("m={}", m.wire);
    match parse_sdp(&format!("{}{l}\r\n", sess::HEAD), true) {
        Ok(p) => {
            let mut out = vec![];
            ensure!(p.media.len() == 1, "{} media sections", p.media.len());
            proj::media(&p.media[0], false, &mut out);
            ensure!(out == vec![want.clone()], "in a description: expected {want}\n  found {out:?}");
        }
        Err(e) => return fail(format!("a description with it is rejected: {e}")),
    }
    // one token replaced
    let mut w: Vec<String> = m.wire.split_whitespace().map(|x| x.to_string()).collect();
    let app = w[0].eq_ignore_ascii_case("application");
    enum Want {
        Fatal,
        Unsupported,
    }
    let want = match s.below(6) {
        0 => {
            w[0] = (*s.pick(&["text", "message", "image", "audiox", "audi", "vide", "videos", "app", "m", "*", "0"])).to_string();
            Want::Unsupported
        }
        1 => {
            w[2] = (*s.pick(&["UDP", "RTP", "RTP/AVPX", "RTP/SAVPFX", "TCP/RTP/AVP", "UDP/RTP/AVP", "SCTP", "DTLS/SCTP/", "UDP/TLS/RTP", "UDP/TLS/RTP/AVP", "udptl", "/", "TCP/TLS/RTP/SAVPF", "UDP/DTLS/RTP/SAVPF", "TCP/TLS/SCTP", "RTP/SAVP/F"])).to_string();
            Want::Unsupported
        }
        2 => {
            let hi = *s.pick(&[65_536u64, 65_537, 70_000, 99_999, 131_072, 131_081, 4_294_967_295, 4_294_967_296, 4_294_967_305]);
            let rest = w[1].split_once('/').map(|x| format!("/{}", x.1)).unwrap_or_default();
            w[1] = format!("{hi}{rest}");
            Want::Fatal
        }
        3 => {
            let n = s.below(4) as usize;
            w.truncate(n);
            Want::Fatal
        }
        4 => {
            w[1] = (*s.pick(&["-1", "a", "9/", "/9", "9/a", "9/-1", "9/4294967296", "0x9", "9.0", "9/2.0"])).to_string();
            Want::Fatal
        }
        _ => {
            if app {
                return Ok(());
            }
            let i = 3 + s.idx(w.len() - 3);
            let (x, _) = invalid::wrong(s, Slot::Fmt);
            w[i] = x;
            Want::Fatal
        }
    };
    let l = w.join(" ");
    cx.add_input(&format!("\nm={l}"));
    let r = parse_sdp_line(&format!("m={l}"), 0);
    match (want, &r) {
        (Want::Fatal, Err(SdpParserError::Line { .. })) | (Want::Unsupported, Err(SdpParserError::Unsupported { .. })) => Ok(()),
        (Want::Fatal, _) => fail(format!("m={l} is not rejected: {}", kind_of(&r))),
        (Want::Unsupported, _) => fail(format!("m={l} is not reported as unsupported: {}", kind_of(&r))),
    }
}
fn c21_extra(e: &mut Extra) -> Res {
    // every port with every media type, every format with every protocol
    for m in ["audio", "video", "application"] {
        for p in 0..=66_000u32 {
            e.evaluations += 1;
            let r = parse_media(&format!("{m} {p} UDP/TLS/RTP/SAVPF 96"));
            let good = match &r {
                Ok(SdpType::Media(l)) => p <= 65_535 && l.port == p && l.port_count == 0,
                _ => p > 65_535,
            };
            if !good {
                e.failing_input = format!("m={m} {p} UDP/TLS/RTP/SAVPF 96");
                return fail(format!("port {p}: {:?}", r.map(|t| proj::sdp_type(&t, false)).map_err(|e| e.to_string())));
            }
        }
        for pr in gen::PROTOS {
            for f in 0..=1100u64 {
                for pos in 0..3 {
                    e.evaluations += 1;
                    e.nontrivial += 1;
                    let mut fs = vec!["0", "96", "127"];
                    let t = f.to_string();
                    fs[pos] = &t;
                    let w = format!("{m} 9 {pr} {}", fs.join(" "));
                    let r = parse_media(&w);
                    let ok = m == "application" || gen::valid_fmt(f);
                    let good = match &r {
                        Ok(t) => {
                            let list = if m == "application" { format!("str{fs:?}") } else { format!("int[{}]", fs.join(", ")) };
                            ok && proj::sdp_type(t, false) == format!("M {m} 9/0 {pr} {list}")
                        }
                        Err(SdpParserInternalError::Unsupported(_)) => false,
                        Err(_) => !ok,
                    };
                    if !good {
                        e.failing_input = format!("m={w}");
                        return fail(format!("m={w}: {:?}", r.map(|t| proj::sdp_type(&t, false)).map_err(|e| e.to_string())));
                    }
                }
            }
        }
    }
    // printing of lines made by hand
    for fmts in [SdpFormatList::Integers(vec![0, 127, 96]), SdpFormatList::Strings(vec!["webrtc-datachannel".into(), "5000".into()])] {
        for port_count in [0u32, 1, 2, u32::MAX] {
            e.evaluations += 1;
            let app = matches!(fmts, SdpFormatList::Strings(_));
            let l = SdpMediaLine {
                media: if app { SdpMediaValue::Application } else { SdpMediaValue::Video },
                port: 65_535,
                port_count,
                proto: webrtc_sdp::media_type::SdpProtocolValue::TcpDtlsSctp,
                formats: fmts.clone(),
            };
            let want = proj::sdp_type(&SdpType::Media(l.clone()), false);
            let r = parse_media(&l.to_string());
            if !r.as_ref().is_ok_and(|t| proj::sdp_type(t, false) == want) {
                e.failing_input = l.to_string();
                return fail(format!("{want} prints as {l}"));
            }
        }
    }
    e.samples.push(serde_json::json!({"sub": "formats", "input": "m=audio 9 RTP/AVP 0 1100 127"}));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![
        Prop {
            id: "C01",
            rule: "a case is a text (generated, mutated or arbitrary description; a line of any kind with wide characters, NULs and odd blanks; a run of plain and then wide characters in it; a very long token; a sequence of parsed lines) sent through every entry point with logging off and on, and through printing, debug printing, JSON and masking; non-trivial: at least four lines, or a line of more than two characters",
            subs: vec![
                sub("texts", 80_000, 2_500_000, c01_text),
                sub("lines", 250_000, 8_000_000, c01_line),
                sub("runs", 300_000, 8_000_000, c01_runs),
                sub("long", 400, 6_000, c01_long),
                sub("vectors", 60_000, 1_000_000, c01_vectors),
            ],
            extra: None,
        },
        Prop {
            id: "C14",
            rule: "a case is a line with one value inside or outside its range (table of bounded fields), or one with a mandatory part missing, a word outside its set or another fault, or a list of telephone events; all are non-trivial. Extra: every bounded field at, just inside and just outside its bounds and at values that wrap to small ones, fields of up to 16 bits value by value",
            subs: vec![sub("fields", 400_000, 8_000_000, c14_fields), sub("broken", 300_000, 6_000_000, c14_broken), sub("open sets", 100_000, 1_000_000, c14_open), sub("telephone events", 60_000, 1_000_000, c14_events)],
            extra: Some(c14_extra),
        },
        Prop {
            id: "C15",
            rule: "a case is a generated address in a generated place, a pair of addresses (often close to each other) through the address interface, a text that is no address, or a word as address type; all are non-trivial",
            subs: vec![
                sub("places", 400_000, 8_000_000, c15_places),
                sub("interface", 400_000, 8_000_000, c15_api),
                sub("no address", 20_000, 100_000, c15_not),
                sub("types", 60_000, 500_000, c15_types),
            ],
            extra: None,
        },
        Prop {
            id: "C16",
            rule: "a case is a fingerprint attribute, whole or damaged, judged by an independent reading and compared through every constructor; all are non-trivial. Extra: all lengths from 0 to 200, all byte values at all places, all pairs of ASCII characters as a byte, for every hash",
            subs: vec![sub("texts", 400_000, 8_000_000, c16_text)],
            extra: Some(c16_extra),
        },
        Prop {
            id: "C21",
            rule: "a case is a generated media line and a variant with one token replaced; all are non-trivial. Extra: all ports to 66000 for each media type, all formats to 1100 in three places for each media type and protocol",
            subs: vec![sub("lines", 400_000, 8_000_000, c21_line)],
            extra: Some(c21_extra),
        },
    ]
}
