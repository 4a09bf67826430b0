//! Properties of whole descriptions: C02, C03, C08 to C13.

use crate::engine::*;
use crate::gen::{self, Env, Meta};
use crate::invalid;
use crate::model::{judge, Verdict};
use crate::proj;
use crate::sess::{self, Opt, Sess, L};
use std::str::FromStr;
use webrtc_sdp::attribute_type::{SdpAttribute, SdpAttributeType};
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

pub fn ok(text: &str, strict: bool) -> Result<SdpSession, Fail> {
    match parse_sdp(text, strict) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("a valid description is rejected (warnings fatal: {strict}): {e}\n{text}")),
    }
}
pub fn same(what: &str, expected: &[String], found: &[String]) -> Res {
    if expected == found {
        Ok(())
    } else {
        fail(format!("{what}:\n{}", proj::diff(expected, found)))
    }
}

/// kind of error, kind of cause, text, number, message
pub fn err_full(e: &SdpParserError) -> String {
    let (k, l, n) = proj::error(e);
    let m = match e {
        SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => format!("{}: {error}", proj::internal_kind(error)),
        SdpParserError::Sequence { message, .. } => message.clone(),
    };
    format!("{k} {l:?} {n} {m}")
}

// ---------------------------------------------------------------------------------------------
// C02

/// Ok(false) when the text was not accepted to begin with
pub fn round_trip(text: &str, cx: &mut Ctx) -> Result<bool, Fail> {
    let a = match parse_sdp(text, false) {
        Err(_) => return Ok(false),
        Ok(s) => s,
    };
    cx.class_if(!a.warnings.is_empty(), "with warnings");
    let t1 = a.to_string();
    let b = match parse_sdp(&t1, true) {
        Ok(b) => b,
        Err(e) => return fail(format!("the printed form is rejected: {e}\n--- printed\n{t1}--- original\n{text}")),
    };
    let (pa, pb) = (proj::session(&a, true), proj::session(&b, true));
    if pa != pb {
        return fail(format!("the printed form has another meaning:\n{}--- printed\n{t1}", proj::diff(&pa, &pb)));
    }
    let t2 = b.to_string();
    ensure!(t1 == t2, "printing is not stable\n--- first\n{t1}--- second\n{t2}");
    ensure!(b.warnings.is_empty(), "warnings on the printed form");
    Ok(true)
}
fn c02_gen(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt::default());
    let t = x.plain();
    cx.input(&t);
    cx.nontrivial = true;
    ensure!(round_trip(&t, cx)?, "a valid description is rejected: {:?}", parse_sdp(&t, false).map(|_| ()).map_err(|e| e.to_string()));
    Ok(())
}
fn c02_mut(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = sess::mutated(s);
    cx.input(&t);
    if round_trip(&t, cx)? {
        cx.class("accepted");
        cx.nontrivial = true;
    }
    Ok(())
}
/// one attribute line, mutated, in a small description: reaches deep into each attribute parser
fn c02_line(s: &mut Src, cx: &mut Ctx) -> Res {
    c02_one(s, cx, |s, l| {
        for _ in 0..s.range(1, 3) {
            mutate_line(s, l);
        }
    })
}
/// the same with blanks and empty elements at the separators
fn c02_seps(s: &mut Src, cx: &mut Ctx) -> Res {
    c02_one(s, cx, |s, l| {
        for _ in 0..s.range(1, 3) {
            sess::separators(s, l);
        }
    })
}
fn c02_one(s: &mut Src, cx: &mut Ctx, change: fn(&mut Src, &mut String)) -> Res {
    let mut l = match s.below(8) {
        0 => format!("m={}", gen::mline(s).wire),
        1 => format!("c={}", gen::connection(s).0),
        2 => format!("o={}", gen::origin(s).0),
        3 => format!("b={}", gen::bandwidth(s).0),
        4 => {
            let (t, slot) = *s.pick(invalid::FIELDS);
            let r = invalid::right(s, slot);
            t.replace("{}", &r)
        }
        _ => {
            let kinds = gen::VALUED;
            let k = *s.pick(kinds);
            format!("a={}", gen::attr(s, k, &Env::default()).plain())
        }
    };
    change(s, &mut l);
    let t = if l.starts_with("o=") {
        format!("v=0\r\n{l}\r\ns=-\r\nt=0 0\r\n")
    } else if l.starts_with("m=") {
        format!("{}{l}\r\n", sess::HEAD)
    } else {
        sess::minimal(&l, s.pct(25))
    };
    cx.input(&t);
    if round_trip(&t, cx)? {
        cx.class("accepted");
        cx.nontrivial = true;
    }
    Ok(())
}
pub fn mutate_line(s: &mut Src, l: &mut String) {
    let mut t = l.clone();
    for _ in 0..4 {
        sess::mutate_once(s, &mut t);
        let first = t.lines().next().unwrap_or("").to_string();
        if first != *l && !first.is_empty() {
            *l = first;
            return;
        }
    }
}
const C02_FIXED: &[&str] = &[
    "a=fmtp:96 foo=1;bar=2",
    "a=fmtp:96 max-fs=1; max-fr=2 ; x=3",
    "a=fmtp:96 profile-level-id=42000a",
    "a=fmtp:96 apt=97;rtx-time=3000;foo=1",
    "a=fmtp:96 rtx-time=3000;apt=97;foo=1",
    "a=fmtp:96 apt=97;x=1;y=2",
    "a=rid:1 send foo=1;pt=96",
    "a=simulcast:send rid=1=2",
    "a=imageattr:* send [x=1,y=1",
    "a=msid-semantic:WMS",
    "a=msid-semantic: WMS *",
    "a=ssrc:1 cname:",
    "a=ssrc:1 :x",
    "a=ssrc:1 a:b:c",
    "a=ice-options:a  b",
    "a=rtpmap:96 /90000",
    "a=candidate:1 1 UDP 1 10.0.0.1 9 typ host foo bar raddr 1.1.1.1",
    "a=rtcp:9 IN IP6 ::ffff:1.2.3.4",
    "b=:1",
    "b=as:1",
    "c=IN IP4 1.1.1.1/1/1/1",
    "c=IN IP4 EXAMPLE.com",
];
fn c02_fixed(s: &mut Src, cx: &mut Ctx) -> Res {
    let l = *s.pick(C02_FIXED);
    let at = s.flip();
    let t = sess::minimal(l, at);
    cx.input(&t);
    if round_trip(&t, cx)? {
        cx.nontrivial = true;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03_session(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt { max_media: 60, max_attrs: 300, kinds: None });
    let v = x.texts();
    let (t, at) = sess::present(s, &v);
    cx.input(&t);
    cx.nontrivial = x.lines.len() > 4;
    cx.class(match x.media {
        0 => "no media",
        1 => "1 media",
        2..=5 => "2-5 media",
        _ => "6 or more media",
    });
    cx.class_if(x.lines.len() > 50, "over 50 lines");
    cx.class_if(x.lines.len() > 250, "over 250 lines");
    let a = ok(&t, true)?;
    let b = ok(&t, false)?;
    let want = x.canon(false);
    same("the session does not hold what the lines say", &want, &proj::session(&a, false))?;
    same("the session does not hold what the lines say (lenient)", &want, &proj::session(&b, false))?;
    ensure!(a.warnings.is_empty() && b.warnings.is_empty(), "warnings on a valid description: {}", b.warnings[0]);
    ensure!(a.media.len() == x.media, "{} media sections instead of {}", a.media.len(), x.media);
    getters(&a)?;
    // each line for itself
    for (i, (n, l)) in at.iter().enumerate().take(40) {
        match parse_sdp_line(l, *n) {
            Err(e) => return fail(format!("line {l:?} is rejected by itself: {e}")),
            Ok(r) => {
                ensure!(r.line_number == *n && r.text == *l, "line {l:?} number {n} reports {:?} number {}", r.text, r.line_number);
                let c = match r.sdp_type {
                    // the text of a session name is trimmed by the session
                    SdpType::Session(ref t) if t.trim().is_empty() => "s None".to_string(),
                    SdpType::Session(ref t) => format!("s Some({:?})", t.trim()),
                    ref o => proj::sdp_type(o, false),
                };
                ensure!(c == x.lines[i].canon, "line {l:?} means\n  {}\n  but parses as\n  {c}", x.lines[i].canon);
            }
        }
    }
    Ok(())
}
/// the getters show the fields
pub fn getters(a: &SdpSession) -> Res {
    ensure!(a.get_version() == a.version, "get_version");
    ensure!(proj::origin(a.get_origin()) == proj::origin(&a.origin), "get_origin");
    ensure!(a.get_session() == &a.session, "get_session");
    ensure!(a.get_connection().as_ref().map(proj::connection) == a.connection.as_ref().map(proj::connection), "get_connection");
    match &a.session {
        Some(t) => ensure!(a.get_session_text() == t, "get_session_text gives {:?} for {t:?}", a.get_session_text()),
        None => ensure!(a.get_session_text().trim().is_empty(), "get_session_text gives {:?} for no name", a.get_session_text()),
    }
    for at in &a.attribute {
        let k = SdpAttributeType::from(at);
        let ks = k.to_string();
        let first = a.attribute.iter().find(|x| SdpAttributeType::from(*x).to_string() == ks).unwrap();
        let got = a.get_attribute(k);
        ensure!(got.map(|x| proj::attr(x, false)) == Some(proj::attr(first, false)), "get_attribute({ks}) does not give the first one");
    }
    Ok(())
}

/// parse_session_vector and parse_media_vector by themselves
fn c03_vectors(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt { max_media: 12, max_attrs: 40, kinds: None });
    cx.input(x.plain());
    cx.nontrivial = x.media > 0;
    let fm = x.first_media();
    let parse = |ls: &[L]| -> Result<Vec<webrtc_sdp::SdpLine>, Fail> {
        ls.iter()
            .enumerate()
            .map(|(i, l)| parse_sdp_line(&l.text(), i).map_err(|e| Fail { msg: format!("valid line rejected: {e}") }))
            .collect()
    };
    let mut v = parse(&x.lines[fm..])?;
    let m: Vec<SdpMedia> = match webrtc_sdp::media_type::parse_media_vector(&mut v) {
        Ok(m) => m,
        Err(e) => return fail(format!("parse_media_vector rejects valid lines: {e}")),
    };
    let mut found = vec![];
    for i in &m {
        proj::media(i, false, &mut found);
    }
    let all = x.canon(false);
    let from = all.iter().position(|l| l.starts_with("M ")).unwrap_or(all.len());
    same("parse_media_vector", &all[from..], &found)?;
    let full = ok(&x.plain(), true)?;
    let name = full.session.clone().unwrap_or_default();
    let mut b = SdpSession::new(full.version, full.origin.clone(), name);
    let mut v = parse(&x.lines[3..fm])?;
    if let Err(e) = b.parse_session_vector(&mut v) {
        return fail(format!("parse_session_vector rejects valid lines: {e}"));
    }
    b.extend_media(m);
    same("assembling the parts", &all, &proj::session(&b, false))?;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn any_text(s: &mut Src) -> (String, &'static str) {
    match s.below(10) {
        0 => (sess::garbage(s), "arbitrary text"),
        1..=4 => (sess::mutated(s), "mutated description"),
        _ => {
            // valid lines, unsupported lines and broken lines together
            let x = sess::session(s, &Opt { max_media: 5, max_attrs: 20, kinds: None });
            let mut v = x.texts();
            let nu = if s.pct(35) { 0 } else { gen::count(s, 1, 4, 60) };
            for _ in 0..nu {
                let i = s.idx(v.len() + 1);
                let l = sess::unsupported(s).0;
                v.insert(i, l);
            }
            let nb = if s.pct(60) { 0 } else { gen::count(s, 1, 3, 40) };
            for _ in 0..nb {
                let i = s.idx(v.len() + 1);
                let l = invalid::line(s).0;
                v.insert(i, l);
            }
            if s.pct(20) {
                let i = s.idx(v.len());
                v.remove(i);
            }
            (sess::present(s, &v).0, "lines put together")
        }
    }
}
fn c08(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, class) = any_text(s);
    cx.input(&t);
    cx.class(class);
    modes(&t, cx)
}
pub fn modes(t: &str, cx: &mut Ctx) -> Res {
    // which lines are unsupported by themselves, told by the public line parser
    let unsup: Vec<usize> = t
        .lines()
        .enumerate()
        .filter(|(_, l)| !l.trim().is_empty())
        .filter(|(n, l)| matches!(parse_sdp_line(l, *n), Err(SdpParserError::Unsupported { .. })))
        .map(|x| x.0)
        .collect();
    let lenient = parse_sdp(t, false);
    let strict = parse_sdp(t, true);
    match (&lenient, &strict) {
        (Ok(a), Ok(b)) => {
            cx.class("accepted by both");
            cx.nontrivial = true;
            ensure!(a.warnings.is_empty(), "accepted with warnings fatal in spite of {}", a.warnings[0]);
            ensure!(b.warnings.is_empty(), "strict parsing gives a session with warnings");
            same("the two modes give different sessions", &proj::session(a, false), &proj::session(b, false))?;
        }
        (Ok(a), Err(e)) => {
            cx.class("accepted with warnings");
            cx.nontrivial = true;
            match a.warnings.first() {
                None => return fail(format!("no warning, but rejected with warnings fatal: {e}")),
                Some(w) => ensure!(err_full(w) == err_full(e), "first warning\n  {}\nbut warnings fatal gives\n  {}", err_full(w), err_full(e)),
            }
            ensure!(a.warnings.len() == unsup.len(), "{} unsupported lines but {} warnings", unsup.len(), a.warnings.len());
        }
        (Err(e), Ok(_)) => return fail(format!("accepted with warnings fatal, rejected without: {e}")),
        (Err(a), Err(b)) => {
            cx.class("rejected by both");
            cx.nontrivial = t.lines().filter(|l| !l.trim().is_empty()).count() >= 4;
            if unsup.is_empty() {
                ensure!(err_full(a) == err_full(b), "no unsupported line, but lenient parsing reports\n  {}\nand strict parsing\n  {}", err_full(a), err_full(b));
                ensure!(!matches!(a, SdpParserError::Unsupported { .. }), "unsupported reported without an unsupported line: {a}");
            } else {
                cx.class("rejected, unsupported lines too");
                ensure!(
                    !matches!(a, SdpParserError::Unsupported { .. }),
                    "lenient parsing fails because of an unsupported line: {}",
                    err_full(a)
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09

fn c09(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt { max_media: 12, max_attrs: 60, kinds: None });
    let base = x.texts();
    let mut v: Vec<(String, bool)> = base.iter().map(|l| (l.clone(), false)).collect();
    let n = gen::count(s, 1, 5, 150);
    for _ in 0..n {
        let i = s.idx(v.len() + 1);
        let (l, c) = sess::unsupported(s);
        cx.class(c);
        v.insert(i, (l, true));
    }
    let texts: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    let (t, at) = sess::present(s, &texts);
    cx.input(&t);
    cx.nontrivial = true;
    let a = match parse_sdp(&t, false) {
        Ok(a) => a,
        Err(e) => return fail(format!("a valid description with unsupported lines is rejected: {e}")),
    };
    let want: Vec<&(usize, String)> = at.iter().zip(&v).filter(|(_, x)| x.1).map(|(a, _)| a).collect();
    for (i, w) in a.warnings.iter().enumerate() {
        let (k, l, num) = proj::error(w);
        let cause = match w {
            SdpParserError::Unsupported { error, .. } => proj::internal_kind(error),
            _ => "",
        };
        ensure!(k == "unsupported" && cause == "unsupported", "warning {i} is a {k} ({cause}) error: {w}");
        match want.get(i) {
            None => return fail(format!("too many warnings: {w}")),
            Some((n, l2)) => {
                ensure!(num == *n && l.as_deref() == Some(l2), "warning {i} is about line {num} {l:?} instead of line {n} {l2:?}")
            }
        }
    }
    ensure!(a.warnings.len() == want.len(), "{} warnings for {} unsupported lines; missing: {:?}", a.warnings.len(), want.len(), want.get(a.warnings.len()));
    same("the session with the unsupported lines", &x.canon(false), &proj::session(&a, false))?;
    // a line by itself
    let k = s.idx(want.len());
    let (n, l) = want[k];
    match parse_sdp_line(l, *n) {
        Err(SdpParserError::Unsupported { line, line_number, .. }) => {
            ensure!(line == *l && line_number == *n, "parse_sdp_line({l:?}, {n}) reports {line:?} {line_number}")
        }
        r => return fail(format!("parse_sdp_line({l:?}): {:?}", r.map(|_| ()).map_err(|e| e.to_string()))),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

fn c10_fault(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt { max_media: 8, max_attrs: 30, kinds: None });
    let mut v = x.texts();
    let (bad, why) = invalid::line(s);
    cx.class(why);
    let i;
    if s.pct(25) {
        i = s.idx(v.len());
        v[i] = bad.clone();
    } else {
        i = s.idx(v.len() + 1);
        v.insert(i, bad.clone());
    }
    let strict = s.flip();
    if !strict && s.pct(30) {
        // unsupported lines do not get in the way
        let l = sess::unsupported(s).0;
        v.push(l);
    }
    let (t, at) = sess::present(s, &v);
    let (n, l) = &at[i];
    cx.input(&t);
    cx.nontrivial = true;
    match parse_sdp(&t, strict) {
        Ok(_) => fail(format!("accepted in spite of line {n} {l:?} ({why})")),
        Err(SdpParserError::Line { line, line_number, error }) => {
            ensure!(line_number == *n && line == *l, "line {n} {l:?} is at fault ({why}), but line {line_number} {line:?} is reported");
            ensure!(!matches!(error, SdpParserInternalError::Unsupported(..)), "a fatal error with an unsupported cause");
            Ok(())
        }
        Err(e) => fail(format!("line {n} {l:?} is at fault ({why}), but the report is {}", err_full(&e))),
    }
}

/// the lines of a valid description with structural changes
fn shuffled(s: &mut Src, cx: &mut Ctx) -> Vec<L> {
    let x = sess::session(s, &Opt { max_media: 6, max_attrs: 15, kinds: None });
    disturb(s, cx, x.lines)
}
pub fn disturb(s: &mut Src, cx: &mut Ctx, mut v: Vec<L>) -> Vec<L> {
    let k = match s.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => s.range(2, 6),
    };
    for _ in 0..k {
        if v.is_empty() {
            break;
        }
        match s.below(9) {
            0 => {
                cx.class("line moved");
                let i = s.idx(v.len());
                let l = v.remove(i);
                let j = s.idx(v.len() + 1);
                v.insert(j, l);
            }
            1 => {
                cx.class("lines swapped");
                let (i, j) = (s.idx(v.len()), s.idx(v.len()));
                v.swap(i, j);
            }
            2 => {
                cx.class("line repeated");
                let i = s.idx(v.len());
                let l = v[i].clone();
                let j = s.idx(v.len() + 1);
                v.insert(j, l);
            }
            3 => {
                cx.class("line removed");
                let i = s.idx(v.len());
                v.remove(i);
            }
            4 => {
                cx.class("head line among the others");
                let i = s.idx(3.min(v.len()));
                let l = v[i].clone();
                let j = s.idx(v.len() + 1);
                v.insert(j, l);
            }
            5 => {
                cx.class("head lines in another order");
                let n = 4.min(v.len());
                s.shuffle(&mut v[..n]);
            }
            6 => {
                cx.class("attribute anywhere");
                let kinds = gen::all_kinds();
                let k = *s.pick(&kinds);
                let g = gen::attr(s, k, &Env { ctx: true, rid_pts: Some(vec![]), send_rids: vec!["1".into()], recv_rids: vec!["2".into()], ..Env::default() });
                let l = L::attr(s, &g);
                let j = s.idx(v.len() + 1);
                v.insert(j, l);
            }
            7 => {
                cx.class("timing or connection anywhere");
                let l = if s.flip() {
                    L::new('t', "1 2".into(), "t 1 2".into())
                } else {
                    let (w, c) = gen::connection(s);
                    L::new('c', w, format!("c {c}"))
                };
                let j = s.idx(v.len() + 1);
                v.insert(j, l);
            }
            _ => {
                cx.class("cut off");
                let n = if s.flip() { s.idx(6.min(v.len()) + 1) } else { s.idx(v.len()) };
                v.truncate(n);
            }
        }
    }
    v
}

/// checks parse_sdp against the model on these lines
pub fn against_model(s: &mut Src, cx: &mut Ctx, v: &[L], where_: bool) -> Res {
    let texts: Vec<String> = v.iter().map(|l| l.text()).collect();
    let (t, at) = sess::present(s, &texts);
    cx.input(crate::big::short(&t));
    if t.is_empty() {
        return Ok(());
    }
    let strict = s.flip();
    let r = parse_sdp(&t, strict);
    match judge(v) {
        Verdict::Ok(want) => {
            cx.class("= allowed");
            match r {
                Err(e) => return fail(format!("a valid description is rejected: {e}")),
                Ok(a) => same("the session does not hold what the lines say", &want, &proj::session(&a, false))?,
            }
        }
        Verdict::Misplaced(i) => {
            cx.class("= line not allowed at its place");
            let (n, l) = &at[i];
            match r {
                Ok(_) => return fail(format!("accepted although line {n} {l:?} is not allowed at its place")),
                Err(SdpParserError::Sequence { line_number, message }) => {
                    if where_ {
                        ensure!(line_number == *n, "line {n} {l:?} is not allowed at its place, but line {line_number} is reported: {message}");
                    }
                }
                Err(e) => return fail(format!("line {n} {l:?} is not allowed at its place, but the report is {}", err_full(&e))),
            }
        }
        Verdict::TooShort => {
            cx.class("= too short");
            ensure!(r.is_err(), "accepted with {} lines", v.len());
        }
        Verdict::Inconsistent(why) => {
            cx.class(why);
            match r {
                Ok(_) => return fail(format!("accepted in spite of: {why}")),
                Err(SdpParserError::Sequence { .. }) => (),
                Err(e) => return fail(format!("the lines contradict each other ({why}), but the report is {}", err_full(&e))),
            }
        }
    }
    Ok(())
}
fn c10_order(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = shuffled(s, cx);
    cx.nontrivial = matches!(judge(&v), Verdict::Misplaced(_));
    against_model(s, cx, &v, true)
}
fn c10_general(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, class) = any_text(s);
    cx.input(&t);
    cx.class(class);
    places(&t, cx)
}
pub fn places(t: &str, cx: &mut Ctx) -> Res {
    let lines: Vec<&str> = t.lines().collect();
    let check = |e: &SdpParserError, what: &str| -> Res {
        let (k, l, n) = proj::error(e);
        if let Some(l) = l {
            let quoted = lines.get(n).copied().unwrap_or("");
            ensure!(
                quoted == l && (n < lines.len() || t.is_empty()),
                "{what} quotes {l:?} as line {n}, where {:?} stands",
                lines.get(n)
            );
        } else {
            ensure!(n == 0 || n < lines.len(), "{what} ({k}) names line {n} of {}", lines.len());
        }
        Ok(())
    };
    for strict in [false, true] {
        match parse_sdp(t, strict) {
            Err(e) => {
                cx.nontrivial = true;
                cx.class(proj::error(&e).0);
                check(&e, "the error")?
            }
            Ok(a) => {
                for (i, w) in a.warnings.iter().enumerate() {
                    cx.nontrivial = true;
                    check(w, &format!("warning {i}"))?
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C11

pub type Rep = (&'static str, &'static str, usize, String);
fn report(e: &SdpParserError) -> Rep {
    let (k, _, n) = proj::error(e);
    let (c, m) = match e {
        SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => (proj::internal_kind(error), error.to_string()),
        SdpParserError::Sequence { message, .. } => ("", message.clone()),
    };
    // messages quote parts of the line
    let m: String = m.to_lowercase().chars().filter(|c| !c.is_whitespace() && *c != '"' && *c != '\\').collect();
    let m = m.replace("\\t", "");
    (k, c, n, m)
}
/// session or error with numbers turned into ordinals of non-blank lines
pub fn outcome(t: &str, at: &[(usize, String)], strict: bool) -> (Option<Vec<String>>, Vec<Rep>) {
    let fix = |mut r: Rep| {
        // 0 stands for the first line and for no line
        if r.0 == "sequence" && (r.2 == 0 || at.first().is_some_and(|x| x.0 == r.2)) {
            r.2 = 0;
            return r;
        }
        r.2 = at.binary_search_by_key(&r.2, |x| x.0).map_or(1_000_000 + r.2, |p| p + 1);
        r
    };
    match parse_sdp(t, strict) {
        Ok(s) => (Some(proj::session(&s, false)), s.warnings.iter().map(|w| fix(report(w))).collect()),
        Err(e) => (None, vec![fix(report(&e))]),
    }
}
fn c11(s: &mut Src, cx: &mut Ctx) -> Res {
    let (t, class) = any_text(s);
    cx.class(class);
    presentation(&t, s, cx)
}
pub fn presentation(t: &str, s: &mut Src, cx: &mut Ctx) -> Res {
    let lines: Vec<String> = t
        .lines()
        .map(|l| l.trim_matches([' ', '\t']).to_string())
        .filter(|l| !l.trim().is_empty())
        .collect();
    if lines.is_empty() {
        return Ok(());
    }
    let strict = s.flip();
    let plain = sess::plain(&lines);
    let at0: Vec<(usize, String)> = lines.iter().cloned().enumerate().collect();
    let a = outcome(&plain, &at0, strict);
    cx.class(if a.0.is_some() { "accepted" } else { "rejected" });
    // only blanks that the description format knows
    let odd = |l: &str| l.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') || l.contains('\0');
    let mut v2 = vec![];
    for l in &lines {
        v2.push(if odd(l) || s.pct(30) { l.clone() } else { sess::respell(s, l) });
    }
    let (t2, at2) = sess::present(s, &v2);
    cx.input(format!("{plain}-----\n{t2}"));
    cx.nontrivial = lines.len() >= 4 && t2 != plain;
    let b = outcome(&t2, &at2, strict);
    match (&a.0, &b.0) {
        (Some(x), Some(y)) => same("the same lines in another presentation give another session", x, y)?,
        (None, None) => (),
        (Some(_), None) => return fail(format!("accepted, but rejected in another presentation: {:?}", b.1)),
        (None, Some(_)) => return fail(format!("rejected, but accepted in another presentation: {:?}", a.1)),
    }
    ensure!(a.1.len() == b.1.len(), "{} warnings in one presentation and {} in another", a.1.len(), b.1.len());
    for (x, y) in a.1.iter().zip(&b.1) {
        ensure!((x.0, x.1, x.2) == (y.0, y.1, y.2), "the report {x:?} becomes {y:?} in another presentation");
        ensure!(x.3 == y.3, "the report {x:?} becomes {y:?} in another presentation");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

fn c12_order(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = shuffled(s, cx);
    cx.nontrivial = true;
    against_model(s, cx, &v, false)
}
/// an attribute of each kind, with generated values, at both levels, through all interfaces
fn level(s: &mut Src, cx: &mut Ctx, k: &'static str) -> Res {
    let env = Env { ctx: true, rid_pts: Some(vec![96]), send_rids: vec!["1".into()], recv_rids: vec!["2".into()], ..Env::default() };
    let g = gen::attr(s, k, &env);
    let w = g.spelled(s);
    cx.input(format!("a={w}"));
    cx.nontrivial = true;
    cx.class(k);
    let a = match SdpAttribute::from_str(&w) {
        Ok(a) => a,
        Err(e) => return fail(format!("valid attribute rejected: {e}")),
    };
    let (so, mo) = (gen::session_ok(k), gen::media_ok(k));
    ensure!(a.allowed_at_session_level() == so, "{k} allowed_at_session_level gives {}", !so);
    ensure!(a.allowed_at_media_level() == mo, "{k} allowed_at_media_level gives {}", !mo);
    // the rest of what such a section needs
    let around = "a=rtcp-mux\r\na=rid:1 send\r\na=rid:2 recv\r\n";
    let head = sess::HEAD;
    let at_s = format!("{head}a={w}\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\n{around}");
    let at_m = format!("{head}m=video 9 UDP/TLS/RTP/SAVPF 96\r\n{around}m=video 9 UDP/TLS/RTP/SAVPF 96\r\na={w}\r\n{around}");
    match parse_sdp(&at_s, true) {
        Ok(p) => {
            ensure!(so, "{k} is accepted at session level");
            ensure!(p.attribute.len() == 1, "{k} at session level is dropped");
        }
        Err(SdpParserError::Sequence { line_number, .. }) => {
            ensure!(!so && line_number == 5, "{k} at session level: sequence error at line {line_number}")
        }
        Err(e) => return fail(format!("{k} at session level: {e}")),
    }
    let ignored = k == "dtls-message";
    match parse_sdp(&at_m, true) {
        Ok(p) => {
            ensure!(mo || ignored, "{k} is accepted at media level");
            ensure!(p.media[1].get_attributes().len() == if ignored { 3 } else { 4 }, "{k} at media level: {} attributes", p.media[1].get_attributes().len());
        }
        Err(SdpParserError::Sequence { line_number, .. }) => {
            ensure!(!mo && !ignored && line_number == 10, "{k} at media level: sequence error at line {line_number}")
        }
        Err(e) => return fail(format!("{k} at media level: {e}")),
    }
    let mut p = match parse_sdp(&format!("{head}m=video 9 UDP/TLS/RTP/SAVPF 96\r\n"), true) {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}")),
    };
    ensure!(p.add_attribute(a.clone()).is_ok() == so, "SdpSession::add_attribute({k}) disagrees with the level of the attribute");
    ensure!(p.attribute.len() == so as usize, "SdpSession::add_attribute({k}) leaves {} attributes", p.attribute.len());
    ensure!(p.media[0].add_attribute(a.clone()).is_ok() == mo, "SdpMedia::add_attribute({k}) disagrees with the level of the attribute");
    ensure!(p.media[0].get_attributes().len() == mo as usize, "SdpMedia::add_attribute({k})");
    ensure!(p.media[0].set_attribute(a).is_ok() == mo, "SdpMedia::set_attribute({k}) disagrees with the level of the attribute");
    Ok(())
}
fn c12_levels(s: &mut Src, cx: &mut Ctx) -> Res {
    let kinds = gen::all_kinds();
    let k = *s.pick(&kinds);
    level(s, cx, k)
}
fn c12_extra(e: &mut Extra) -> Res {
    // every kind and level once, whatever the random cases picked
    for k in gen::all_kinds() {
        for i in 0..20 {
            let mut cx = Ctx::default();
            let mut s = Src::random(case_seed(e.seed, "C12", k, i), 20);
            let r = level(&mut s, &mut cx, k);
            e.evaluations += 1;
            e.nontrivial += 1;
            if r.is_err() {
                e.failing_input = cx.input;
                return r;
            }
        }
    }
    e.notes.insert("attribute_kinds".into(), serde_json::json!(gen::all_kinds().len()));
    // all orders of the first five lines
    let base = ["v=0", "o=- 1 2 IN IP4 0.0.0.0", "s=x", "t=0 0", "c=IN IP4 0.0.0.0"];
    let mut perms = vec![];
    permute(&mut vec![], &mut [false; 5], &mut perms);
    for p in perms {
        for keep in 1..=5 {
            let v: Vec<String> = p.iter().take(keep).map(|i| base[*i].to_string()).collect();
            let ls: Vec<L> = v
                .iter()
                .map(|t| {
                    let c = proj::sdp_type(&parse_sdp_line(t, 0).unwrap().sdp_type, false);
                    let mut l = L::raw(t);
                    l.canon = if let Some(x) = c.strip_prefix("s ") { format!("s Some({x})") } else { c };
                    l
                })
                .collect();
            let t = sess::plain(&v);
            e.evaluations += 1;
            let r = parse_sdp(&t, true);
            let want = judge(&ls);
            let good = match (&want, &r) {
                (Verdict::Ok(w), Ok(a)) => *w == proj::session(a, false),
                (Verdict::Ok(_), Err(_)) => false,
                (_, Ok(_)) => false,
                _ => true,
            };
            if !good {
                e.failing_input = t.clone();
                return fail(format!("the model says {want:?}, parsing says {:?}", r.map(|_| ()).map_err(|e| e.to_string())));
            }
        }
    }
    Ok(())
}
fn permute(cur: &mut Vec<usize>, used: &mut [bool; 5], out: &mut Vec<Vec<usize>>) {
    if cur.len() == 5 {
        out.push(cur.clone());
        return;
    }
    for i in 0..5 {
        if !used[i] {
            used[i] = true;
            cur.push(i);
            permute(cur, used, out);
            cur.pop();
            used[i] = false;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13

/// valid lines in valid places, with the rules across lines kept or broken at random
fn c13(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = loose(s);
    cx.nontrivial = v.iter().any(|l| l.ty == 'm');
    against_model(s, cx, &v, false)
}
pub fn loose(s: &mut Src) -> Vec<L> {
    let mut lines: Vec<L> = vec![L::new('v', "0".into(), "v 0".into())];
    let (w, c) = gen::origin(s);
    lines.push(L::new('o', w, format!("o {c}")));
    lines.push(L::new('s', "-".into(), "s Some(\"-\")".into()));
    let media = gen::count(s, 0, 4, 40);
    // one rule at most is in danger in most cases, so that each decides often enough
    let danger = s.below(8);
    let mut body = vec![];
    if danger != 1 || s.flip() {
        body.push(L::new('t', "0 0".into(), "t 0 0".into()));
    }
    let sess_conn = match danger {
        2 => s.pct(40),
        _ => true,
    };
    let conn = |s: &mut Src| {
        let (w, c) = gen::connection(s);
        L::new('c', w, format!("c {c}"))
    };
    if sess_conn {
        body.push(conn(s));
    }
    let attr = |s: &mut Src, k: &'static str| {
        let g = gen::attr(s, k, &Env::default());
        L::attr(s, &g)
    };
    let ext_s = if danger == 3 { s.pct(60) } else { s.pct(15) };
    if ext_s {
        body.push(attr(s, "extmap"));
    }
    while body.is_empty() || s.pct(40) {
        let k = *s.pick(&["group", "ice-lite", "ice-options", "msid-semantic", "sendrecv", "setup", "fingerprint"]);
        body.push(attr(s, k));
    }
    s.shuffle(&mut body);
    lines.extend(body);
    // which single media section breaks the rule
    let victim = s.idx(media.max(1));
    for m in 0..media {
        let ml = gen::mline(s);
        let pts = ml.rid_pts.clone();
        lines.push(sess::mline_l(ml));
        let mut body = vec![];
        let here = m == victim;
        if (!sess_conn && !(here && s.flip())) || s.pct(20) {
            body.push(conn(s));
        }
        if (danger == 3 && s.pct(30)) || (!ext_s && s.pct(30)) {
            body.push(attr(s, "extmap"));
        }
        // rtcp-mux
        let only = s.pct(40);
        let mux = if only && danger == 4 && here { s.flip() } else { only || s.pct(30) };
        for _ in 0..(only as usize) * (1 + s.idx(2)) {
            body.push(attr(s, "rtcp-mux-only"));
        }
        if mux {
            body.push(attr(s, "rtcp-mux"));
        }
        // rids
        let nr = if s.pct(30) { 0 } else { gen::count(s, 1, 3, 30) };
        let (mut send, mut recv) = (vec![], vec![]);
        for _ in 0..nr {
            let id = if s.pct(70) { (*s.pick(&["a", "b", "c", "1", "11", "A"])).to_string() } else { gen::rid_id(s) };
            let dir = *s.pick(&["send", "recv"]);
            let mut p = pts.clone();
            if danger == 5 && here {
                // formats near the ones on the media line
                for x in pts.iter().take(3) {
                    p.push(x.wrapping_add(1));
                    p.push(x.wrapping_mul(10));
                    p.push(x / 10);
                    p.push(x.wrapping_add(256));
                    p.push(x.wrapping_add(128));
                }
                p.push(96);
            }
            let env = Env { rid_pts: Some(p), ctx: true, ..Env::default() };
            let g = gen::rid_with(s, &env, &id, Some(dir));
            body.push(L::attr(s, &g));
            if dir == "send" {
                send.push(id);
            } else {
                recv.push(id);
            }
        }
        let ns = if s.pct(30) { 0 } else { 1 + (s.pct(25) as usize) };
        for _ in 0..ns {
            let (mut us, mut ur) = (send.clone(), recv.clone());
            if danger >= 6 && here {
                for x in ["a", "b", "1"] {
                    us.push(x.into());
                    ur.push(x.into());
                }
                us.extend(recv.iter().cloned());
                ur.extend(send.iter().cloned());
                for x in us.clone().iter().take(2) {
                    us.push(x.to_uppercase());
                    us.push(format!("{x}1"));
                }
            }
            if us.is_empty() && ur.is_empty() {
                continue;
            }
            let env = Env { send_rids: us, recv_rids: ur, ctx: true, ..Env::default() };
            let g = gen::simulcast(s, &env);
            body.push(L::attr(s, &g));
        }
        while s.pct(30) {
            let k = *s.pick(&["mid", "rtpmap", "fmtp", "sendonly", "ssrc", "rtcp-rsize", "candidate", "bundle-only"]);
            body.push(attr(s, k));
        }
        s.shuffle(&mut body);
        lines.extend(body);
    }
    // `judge` reads the formats and identifiers of the lines, `Meta`
    debug_assert!(lines.iter().all(|l| l.ty != 'm' || matches!(l.meta, Meta::Media { .. })));
    lines
}

// ---------------------------------------------------------------------------------------------

pub fn valid(s: &mut Src) -> Sess {
    sess::session(s, &Opt::default())
}

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![
        Prop {
            id: "C02",
            rule: "a case is a text: generated from the grammar, or a description, sample or single line changed in a few places; non-trivial: it is accepted, so that its printed form is parsed back and compared",
            subs: vec![
                sub("generated", 60_000, 1_500_000, c02_gen),
                sub("mutated", 150_000, 4_000_000, c02_mut),
                sub("lines", 1_000_000, 25_000_000, c02_line),
                sub("separators", 400_000, 10_000_000, c02_seps),
                sub("fixed", 200, 200, c02_fixed),
            ],
            extra: None,
        },
        Prop {
            id: "C03",
            rule: "a case is a valid description of generated lines in any presentation, with the session it must give written down by the generator; non-trivial: it has more than the minimal four lines (media sections for the second sub-check)",
            subs: vec![sub("session", 80_000, 2_000_000, c03_session), sub("vectors", 40_000, 600_000, c03_vectors)],
            extra: None,
        },
        Prop {
            id: "C08",
            rule: "a case is any text (valid lines mixed with unsupported and broken ones, mutated descriptions, arbitrary text) parsed in both modes; non-trivial: accepted in lenient mode, or at least four lines",
            subs: vec![sub("modes", 150_000, 4_000_000, c08)],
            extra: None,
        },
        Prop {
            id: "C09",
            rule: "a case is a valid description with one or more unsupported lines at any positions; all are non-trivial",
            subs: vec![sub("warnings", 120_000, 3_000_000, c09)],
            extra: None,
        },
        Prop {
            id: "C10",
            rule: "a case is a valid description with one broken line, or with its lines rearranged, or any text; non-trivial: there is an error or warning to compare with",
            subs: vec![sub("broken line", 150_000, 4_000_000, c10_fault), sub("misplaced line", 120_000, 3_000_000, c10_order), sub("any text", 100_000, 3_000_000, c10_general)],
            extra: None,
        },
        Prop {
            id: "C11",
            rule: "a case is a pair of texts with the same lines in different presentation, one of them plain; non-trivial: at least four lines and the texts differ",
            subs: vec![sub("presentation", 150_000, 4_000_000, c11)],
            extra: None,
        },
        Prop {
            id: "C12",
            rule: "a case is a valid description with lines moved, repeated, removed or inserted, judged by a model, or one attribute of any kind at both levels through every interface; all are non-trivial. Extra: all kinds at both levels and all orders of the first five lines",
            subs: vec![sub("order", 150_000, 4_000_000, c12_order), sub("levels", 40_000, 1_000_000, c12_levels)],
            extra: Some(c12_extra),
        },
        Prop {
            id: "C13",
            rule: "a case is a description whose lines are fine but whose rules across lines are kept or broken at random, judged by a model; non-trivial: it has a media section",
            subs: vec![sub("rules", 300_000, 8_000_000, c13)],
            extra: None,
        },
    ]
}
