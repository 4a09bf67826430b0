//! "big" sub-checks: the properties on descriptions far beyond every size that a table, a counter
//! or a buffer of the code might have.

use super::anon::check_copy;
use super::attrs::{check_attr, CODEC, ICE, IDENT, IMAGE};
use super::report;
use super::session::{against_model, disturb, err_full, getters, ok, outcome, round_trip, same};
use super::values::{both, drive, drive_line, drive_piece};
use crate::big::{self, amount, short};
use crate::engine::*;
use crate::gen::{self, Env, GAttr, Meta};
use crate::invalid;
use crate::proj;
use crate::sess::{self, Opt, L};
use std::str::FromStr;
use webrtc_sdp::anonymizer::StatefulSdpAnonymizer;
use webrtc_sdp::attribute_type::{SdpAttribute, SdpAttributeType};
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

/// a source of its own, so that the presentation of very many lines is one choice of the case
fn inner(s: &mut Src) -> Src {
    let k = s.below(1 << 32);
    Src::random(k, s.size)
}
fn input(cx: &mut Ctx, t: &str) {
    cx.input(short(t));
    cx.nontrivial = t.len() > 5000;
    cx.class(match t.lines().count() {
        0..=50 => "lines: up to 50",
        51..=1000 => "lines: 51 to 1000",
        1001..=10_000 => "lines: 1001 to 10000",
        10_001..=65_535 => "lines: 10001 to 65535",
        _ => "lines: over 65535",
    });
    cx.class(match t.len() {
        0..=10_000 => "bytes: up to 10 k",
        10_001..=100_000 => "bytes: up to 100 k",
        100_001..=1_000_000 => "bytes: up to 1 M",
        _ => "bytes: over 1 M",
    });
}
/// an error that may quote very long lines
fn brief(f: Fail) -> Fail {
    Fail { msg: clip(&f.msg, 6000) }
}

// ---------------------------------------------------------------------------------------------

/// the stack of a thread that nobody has given a larger one
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| match std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, f).unwrap().join() {
        Ok(x) => x,
        Err(p) => std::panic::resume_unwind(p),
    })
}

fn c01(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let mut t = x.plain();
    match s.below(6) {
        0 => {
            cx.class("cut off");
            let mut i = s.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            t.truncate(i);
        }
        1 => {
            cx.class("one character repeated");
            let c = *s.pick(&[",", ";", "/", " ", "=", ":", "[", "]", "~", "-", ".", "*", "0", "9", "x", "é", "\"", "\\", "\t"]);
            let mut i = s.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(i) {
                i -= 1;
            }
            let n = amount(s, 70_000);
            t.insert_str(i, &c.repeat(n));
        }
        2 => {
            cx.class("one line repeated");
            let l = invalid::line(s).0;
            let n = amount(s, 20_000);
            t.push_str(&format!("{l}\r\n").repeat(n));
        }
        3 => {
            cx.class("a piece of a line repeated");
            let v: Vec<&str> = t.lines().collect();
            let l = clip(s.pick(&v), 2000);
            let at: Vec<usize> = l.char_indices().map(|c| c.0).chain([l.len()]).collect();
            let (mut i, mut j) = (*s.pick(&at), *s.pick(&at));
            if i > j {
                std::mem::swap(&mut i, &mut j);
            }
            let n = amount(s, 70_000).min(2_000_000 / (j - i + 1));
            let line = format!("{}{}{}", &l[..i], l[i..j].repeat(n), &l[j..]);
            let k = s.idx(v.len() + 1);
            let mut w: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            w.insert(k, line);
            t = sess::plain(&w);
        }
        _ => (),
    }
    input(cx, &t);
    let deep = s.pct(40);
    let ls: Vec<&str> = t.lines().collect();
    let longest = ls.iter().copied().max_by_key(|l| l.len()).unwrap_or("");
    let piece = longest.split_once('=').map_or("", |x| x.1);
    on_small_stack(|| {
        both("parsing, printing or serialising", cx, || drive(&t, deep))?;
        both("parsing a line", cx, || drive_line(longest, usize::MAX))?;
        both("parsing a piece", cx, || drive_piece(piece))
    })
    .map_err(brief)
}

fn c02(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let t = x.plain();
    input(cx, &t);
    match round_trip(&t, cx).map_err(brief)? {
        true => Ok(()),
        false => match parse_sdp(&t, false) {
            Err(e) => fail(clip(&format!("a valid description is rejected: {e}"), 3000)),
            Ok(_) => Ok(()),
        },
    }
}

fn c03(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let v = x.texts();
    let (t, at) = sess::present(&mut inner(s), &v);
    input(cx, &t);
    let want = x.canon(false);
    for strict in [true, false] {
        let a = ok(&t, strict).map_err(brief)?;
        same("the session does not hold what the lines say", &want, &proj::session(&a, false)).map_err(brief)?;
        ensure!(a.warnings.is_empty(), "{} warnings on a valid description", a.warnings.len());
        ensure!(a.media.len() == x.media, "{} media sections instead of {}", a.media.len(), x.media);
        if strict && a.attribute.len() < 1500 {
            getters(&a).map_err(brief)?;
        }
        for m in a.media.iter().take(30) {
            if let Some(f) = m.get_attributes().last() {
                let k = SdpAttributeType::from(f).to_string();
                let n = m.get_attributes().iter().filter(|x| SdpAttributeType::from(*x).to_string() == k).count();
                let got = m.get_attributes_of_type(SdpAttributeType::from(f)).len();
                ensure!(got == n, "get_attributes_of_type({k}) gives {got} of {n}");
            }
        }
    }
    // the lines at the end and some others
    let n = at.len();
    let mut which: Vec<usize> = (n.saturating_sub(4)..n).collect();
    for _ in 0..20 {
        which.push(s.idx(n));
    }
    for i in which {
        let (k, l) = &at[i];
        match parse_sdp_line(l, *k) {
            Err(e) => return fail(clip(&format!("line {l:?} is rejected by itself: {e}"), 3000)),
            Ok(r) => {
                ensure!(r.line_number == *k && r.text == *l, "a line reports another text or number");
                let c = match r.sdp_type {
                    SdpType::Session(ref t) if t.trim().is_empty() => "s None".to_string(),
                    SdpType::Session(ref t) => format!("s Some({:?})", t.trim()),
                    ref o => proj::sdp_type(o, false),
                };
                if c != x.lines[i].canon {
                    return fail(clip(&format!("line means\n  {}\n  but parses as\n  {c}", x.lines[i].canon), 6000));
                }
            }
        }
    }
    Ok(())
}

fn one_attr(s: &mut Src, cx: &mut Ctx, kinds: &[&'static str]) -> Res {
    let lists: Vec<&'static str> = kinds.iter().copied().filter(|k| big::LISTS.contains(k)).collect();
    let mut g: Option<GAttr> = None;
    if !lists.is_empty() && s.pct(70) {
        let k = *s.pick(&lists);
        let n = amount(s, if k == "imageattr" { 20_000 } else { 70_000 });
        g = Some(big::list(s, k, n));
    } else {
        let n = amount(s, 70_000) * s.range(1, 4) as usize;
        for _ in 0..40 {
            let x = big::wide(s, n);
            if kinds.contains(&x.kind) {
                g = Some(x);
                break;
            }
        }
    }
    let g = match g {
        None => return Ok(()),
        Some(g) => g,
    };
    let r = check_attr(s, cx, &g).map_err(brief);
    cx.input = short(&cx.input);
    r
}
fn c04(s: &mut Src, cx: &mut Ctx) -> Res {
    one_attr(s, cx, ICE)
}
fn c05(s: &mut Src, cx: &mut Ctx) -> Res {
    one_attr(s, cx, CODEC)
}
fn c06(s: &mut Src, cx: &mut Ctx) -> Res {
    one_attr(s, cx, IMAGE)
}
fn c07(s: &mut Src, cx: &mut Ctx) -> Res {
    one_attr(s, cx, IDENT)
}

/// very many unsupported lines in a valid description of any size
fn unsupported_texts(s: &mut Src) -> (sess::Sess, Vec<(String, bool)>) {
    let x = if s.pct(30) { big::big(s, 1).0 } else { sess::session(s, &Opt { max_media: 6, max_attrs: 20, kinds: None }) };
    let n = amount(s, 70_000);
    let pool: Vec<String> = (0..s.range(1, 12)).map(|_| sess::unsupported(s).0).collect();
    let mut v: Vec<(String, bool)> = vec![];
    let base = x.texts();
    let spread = s.flip();
    let place = s.idx(base.len() + 1);
    for i in 0..=base.len() {
        let here = if spread { n * (i + 1) / (base.len() + 1) - n * i / (base.len() + 1) } else if i == place { n } else { 0 };
        for j in 0..here {
            v.push((pool[(i + j * 3) % pool.len()].clone(), true));
        }
        if let Some(l) = base.get(i) {
            v.push((l.clone(), false));
        }
    }
    (x, v)
}
fn c08(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, v) = if s.pct(25) {
        let x = big::big(s, 1).0;
        let v = x.texts().into_iter().map(|t| (t, false)).collect();
        (x, v)
    } else {
        unsupported_texts(s)
    };
    let texts: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    let (t, _) = sess::present(&mut inner(s), &texts);
    input(cx, &t);
    let n = v.iter().filter(|x| x.1).count();
    let a = match parse_sdp(&t, false) {
        Ok(a) => a,
        Err(e) => return fail(clip(&format!("a valid description with unsupported lines is rejected: {e}"), 3000)),
    };
    ensure!(a.warnings.len() == n, "{} warnings for {n} unsupported lines", a.warnings.len());
    match (parse_sdp(&t, true), a.warnings.first()) {
        (Ok(b), None) => same("the two modes", &proj::session(&a, false), &proj::session(&b, false)).map_err(brief)?,
        (Ok(_), Some(w)) => return fail(format!("accepted with warnings fatal in spite of {w}")),
        (Err(e), None) => return fail(clip(&format!("no warning, but rejected with warnings fatal: {e}"), 3000)),
        (Err(e), Some(w)) => ensure!(err_full(w) == err_full(&e), "first warning\n  {}\nbut warnings fatal gives\n  {}", err_full(w), err_full(&e)),
    }
    same("the session with the unsupported lines", &x.canon(false), &proj::session(&a, false)).map_err(brief)
}
fn c09(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, v) = unsupported_texts(s);
    let texts: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    let (t, at) = sess::present(&mut inner(s), &texts);
    input(cx, &t);
    let a = match parse_sdp(&t, false) {
        Ok(a) => a,
        Err(e) => return fail(clip(&format!("a valid description with unsupported lines is rejected: {e}"), 3000)),
    };
    let want: Vec<&(usize, String)> = at.iter().zip(&v).filter(|(_, x)| x.1).map(|(a, _)| a).collect();
    ensure!(a.warnings.len() == want.len(), "{} warnings for {} unsupported lines", a.warnings.len(), want.len());
    for (i, (w, (n, l))) in a.warnings.iter().zip(want).enumerate() {
        match w {
            SdpParserError::Unsupported { line, line_number, error: SdpParserInternalError::Unsupported(..) } => {
                ensure!(line_number == n && line == l, "warning {i} is about line {line_number} {line:?} instead of line {n} {l:?}")
            }
            _ => return fail(format!("warning {i} is {w}")),
        }
    }
    same("the session with the unsupported lines", &x.canon(false), &proj::session(&a, false)).map_err(brief)
}

/// one broken line at a high number, after many valid, blank or unsupported lines
fn c10(s: &mut Src, cx: &mut Ctx) -> Res {
    let strict = s.flip();
    let (bad, why) = invalid::line(s);
    cx.class(why);
    let mut v;
    let i;
    let mut blank_at = None;
    let mut more = usize::MAX;
    match s.below(4) {
        0 | 1 => {
            v = big::big(s, 1).0.texts();
            // mostly far from the start
            let n = v.len() + 1;
            i = if s.pct(70) { n - 1 - s.idx(n.min(40)) } else { s.idx(n) };
            v.insert(i, bad.clone());
        }
        2 => {
            cx.class("blank lines");
            v = sess::session(s, &Opt { max_media: 3, max_attrs: 8, kinds: None }).texts();
            i = s.idx(v.len() + 1);
            v.insert(i, bad.clone());
            blank_at = Some(s.idx(i + 1));
        }
        _ => {
            cx.class("many broken lines");
            v = sess::session(s, &Opt { max_media: 3, max_attrs: 8, kinds: None }).texts();
            i = s.idx(v.len() + 1);
            v.insert(i, bad.clone());
            let n = amount(s, 30_000);
            more = v.len();
            for _ in 0..n {
                v.push(bad.clone());
            }
        }
    }
    let (mut t, mut at) = sess::present(&mut inner(s), &v);
    if let Some(p) = blank_at {
        let n = amount(s, 70_000);
        let e = *s.pick(&["\n", "\r\n", " \n", "\t\r\n"]);
        // before the p-th line
        let mut pos = 0;
        for (k, l) in t.split_inclusive('\n').enumerate() {
            if k == at[p].0 {
                break;
            }
            pos += l.len();
        }
        t.insert_str(pos, &e.repeat(n));
        for x in at[p..].iter_mut() {
            x.0 += n;
        }
    }
    let (n, l) = &at[i];
    input(cx, &t);
    cx.nontrivial = true;
    cx.class_if(*n > 65_535, "line number over 65535");
    match parse_sdp(&t, strict) {
        Ok(_) => fail(format!("accepted in spite of line {n} {l:?} ({why})")),
        Err(SdpParserError::Line { line, line_number, error }) => {
            // when several lines are at fault it may be any of them
            let mut fault = at.iter().enumerate().filter(|(k, _)| *k == i || *k >= more);
            ensure!(
                fault.any(|(_, x)| line_number == x.0 && line == x.1),
                "line {n} {l:?} is at fault ({why}), but line {line_number} {line:?} is reported"
            );
            ensure!(!matches!(error, SdpParserInternalError::Unsupported(..)), "a fatal error with an unsupported cause");
            Ok(())
        }
        Err(e) => fail(clip(&format!("line {n} {l:?} is at fault ({why}), but the report is {}", err_full(&e)), 3000)),
    }
}
/// lines moved, repeated or removed in a big description: the misplaced one is named
fn c10_order(s: &mut Src, cx: &mut Ctx) -> Res {
    order(s, cx, true)
}
fn order(s: &mut Src, cx: &mut Ctx, where_: bool) -> Res {
    let (x, class) = big::big(s, 1);
    let n = x.lines.len();
    let mut v = x.lines;
    if s.pct(40) {
        // far from the start
        match s.below(4) {
            0 => v.push(L::new('t', "1 2".into(), "t 1 2".into())),
            1 => v.push(L::new('v', "0".into(), "v 0".into())),
            2 => v.push(L::new('c', "IN IP4 10.0.0.7".into(), "c ip4:10.0.0.7 ttl=None n=None".into())),
            _ => {
                let kinds = gen::all_kinds();
                let k = *s.pick(&kinds);
                let g = gen::attr(s, k, &Env { ctx: true, rid_pts: Some(vec![]), send_rids: vec!["1".into()], recv_rids: vec!["2".into()], ..Env::default() });
                v.push(L::attr(s, &g));
            }
        }
        if s.flip() {
            let k = v.len() - 1 - s.idx(v.len().min(30));
            let l = v.pop().unwrap();
            v.insert(k.min(v.len()), l);
        }
    } else {
        v = disturb(s, cx, v);
    }
    cx.class(class);
    cx.class_if(n > 65_535, "over 65535 lines");
    cx.nontrivial = true;
    let mut i = inner(s);
    against_model(&mut i, cx, &v, where_).map_err(brief)
}
fn c12(s: &mut Src, cx: &mut Ctx) -> Res {
    order(s, cx, false)
}

fn c11(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut lines: Vec<String> = if s.pct(60) { big::big(s, 1).0.texts() } else { unsupported_texts(s).1.into_iter().map(|x| x.0).collect() };
    if s.pct(40) {
        let n = lines.len();
        let i = n - s.idx(n.min(50));
        let l = if s.flip() { invalid::line(s).0 } else { lines[s.idx(n)].clone() };
        lines.insert(i, l);
    }
    let lines: Vec<String> = lines.into_iter().map(|l| l.trim_matches([' ', '\t']).to_string()).filter(|l| !l.trim().is_empty()).collect();
    let strict = s.flip();
    let plain = sess::plain(&lines);
    let odd = |l: &str| l.len() > 20_000 || l.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') || l.contains('\0');
    let mut i = inner(s);
    let spell = s.flip();
    let v2: Vec<String> = lines.iter().map(|l| if odd(l) || !spell || i.pct(30) { l.clone() } else { sess::respell(&mut i, l) }).collect();
    let (mut t2, mut at2) = sess::present(&mut i, &v2);
    if s.pct(40) {
        let n = amount(s, 70_000);
        t2.insert_str(0, &s.pick(&["\n", "\r\n", " \n"]).repeat(n));
        for x in at2.iter_mut() {
            x.0 += n;
        }
    }
    input(cx, &t2);
    // the position of a line number, without searching for each
    let number = |text: &str, at: &[(usize, String)]| -> (Option<Vec<String>>, Vec<super::session::Rep>) {
        let few: Vec<(usize, String)> = at.iter().map(|x| (x.0, String::new())).collect();
        outcome(text, &few, strict)
    };
    let at0: Vec<(usize, String)> = (0..lines.len()).map(|i| (i, String::new())).collect();
    let (a, b) = (number(&plain, &at0), number(&t2, &at2));
    cx.class(if a.0.is_some() { "accepted" } else { "rejected" });
    match (&a.0, &b.0) {
        (Some(x), Some(y)) => same("the same lines in another presentation give another session", x, y).map_err(brief)?,
        (None, None) => (),
        _ => return fail(clip(&format!("accepted {} in one presentation and {} in another: {:?} {:?}", a.0.is_some(), b.0.is_some(), a.1.first(), b.1.first()), 3000)),
    }
    ensure!(a.1.len() == b.1.len(), "{} reports in one presentation and {} in another", a.1.len(), b.1.len());
    for (x, y) in a.1.iter().zip(&b.1) {
        if x != y {
            return fail(clip(&format!("the report {x:?} becomes {y:?} in another presentation"), 3000));
        }
    }
    Ok(())
}

/// very many rids, formats, versions or media sections, with the rules kept or broken once
fn c13(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut lines: Vec<L> = vec![L::new('v', "0".into(), "v 0".into())];
    let (w, c) = gen::origin(s);
    lines.push(L::new('o', w, format!("o {c}")));
    lines.push(L::new('s', "-".into(), "s Some(\"-\")".into()));
    lines.push(L::new('t', "0 0".into(), "t 0 0".into()));
    let conn = || L::new('c', "IN IP4 10.0.0.1".into(), "c ip4:10.0.0.1 ttl=None n=None".into());
    let ml = |n: usize, fmts: &[u32]| {
        let t: Vec<String> = fmts.iter().map(|x| x.to_string()).collect();
        let mut l = L::new('m', format!("video {n} RTP/AVP {}", t.join(" ")), format!("M video {n}/0 RTP/AVP int{fmts:?}"));
        l.meta = Meta::Media { formats: t };
        l
    };
    let plain = |g: GAttr| L::attr(&mut Src::replay(vec![], 0), &g);
    let rid = |id: &str, send: bool, pts: &[u16]| {
        let p: Vec<String> = pts.iter().map(|x| x.to_string()).collect();
        let dir = if send { "send" } else { "recv" };
        let mut g = GAttr::new(
            "rid",
            format!("{id} {dir}{}", if pts.is_empty() { String::new() } else { format!(" pt={}", p.join(",")) }),
            format!("rid {id:?} {dir} pt={pts:?} w=0 h=0 fps=0 fs=0 br=0 pps=0 unknown=[] depends=[]"),
        );
        g.meta = Meta::Rid { id: id.into(), send, pts: pts.to_vec() };
        plain(g)
    };
    let bad = s.flip();
    cx.class_if(bad, "one rule broken once");
    match s.below(5) {
        0 | 1 => {
            // many rids, one simulcast with all of them, one of them undeclared or of the other direction
            let n = amount(s, 15_000);
            lines.push(conn());
            lines.push(ml(9, &[96]));
            let victim = if s.pct(60) { n - 1 - s.idx(n.min(20)) } else { s.idx(n) };
            let sepv = s.flip();
            let mut body: Vec<L> = vec![];
            for i in 0..n {
                let id = format!("r{i}");
                let broken = bad && i == victim;
                if !broken {
                    body.push(rid(&id, true, &[]));
                } else if s.flip() {
                    body.push(rid(&id, false, &[]));
                }
            }
            let ids: Vec<String> = (0..n).map(|i| format!("r{i}")).collect();
            let c: Vec<String> = ids.iter().map(|i| format!("{i:?}")).collect();
            let mut g = GAttr::new(
                "simulcast",
                format!("send {}", ids.join(if sepv { ";" } else { "," })),
                format!("simulcast send={} recv=", c.join(if sepv { " ; " } else { "|" })),
            );
            g.meta = Meta::Simulcast { send: ids, recv: vec![] };
            let k = s.idx(body.len() + 1);
            body.insert(k, plain(g));
            lines.extend(body);
            cx.class("rids and a simulcast list");
        }
        2 => {
            // many rids, one of which names a format that the media line does not list
            let n = amount(s, 40_000);
            lines.push(conn());
            lines.push(ml(9, &[96, 97, 98]));
            let victim = if s.pct(60) { n - 1 - s.idx(n.min(20)) } else { s.idx(n) };
            for i in 0..n {
                let p: &[u16] = if bad && i == victim { &[97, 99] } else { &[97] };
                lines.push(rid(&format!("r{i}"), i % 2 == 0, p));
            }
            cx.class("rids with formats");
        }
        3 => {
            // many media sections, one of which breaks a rule
            let n = amount(s, 20_000);
            let victim = if s.pct(60) { n - 1 - s.idx(n.min(20)) } else { s.idx(n) };
            let rule = s.below(3);
            if rule != 0 {
                lines.push(conn());
            }
            if rule == 1 {
                let g = gen::attr(s, "extmap", &Env::default());
                lines.push(L::attr(s, &g));
            }
            let e = gen::attr(s, "extmap", &Env::default());
            for i in 0..n {
                let b = bad && i == victim;
                lines.push(ml(i % 65536, &[0]));
                match rule {
                    0 if !b => lines.push(conn()),
                    1 if b => lines.push(plain(e.clone())),
                    2 => {
                        lines.push(plain(gen::flag("rtcp-mux-only")));
                        if !b {
                            lines.push(plain(gen::flag("rtcp-mux")));
                        }
                    }
                    _ => lines.push(plain(gen::flag("sendonly"))),
                }
            }
            cx.class("media sections");
        }
        _ => {
            // many attributes, then the one that breaks the rule
            let n = amount(s, 60_000);
            lines.push(conn());
            lines.push(ml(9, &[96]));
            for _ in 0..n {
                lines.push(plain(gen::flag("sendonly")));
            }
            let last = match (s.below(3), bad) {
                (0, false) => vec![rid("a", true, &[96])],
                (0, true) => vec![rid("a", true, &[95])],
                (1, b) => {
                    let mut v = vec![plain(gen::flag("rtcp-mux-only"))];
                    if !b {
                        v.push(plain(gen::flag("rtcp-mux")));
                    }
                    v
                }
                (_, b) => {
                    let mut g = GAttr::new("simulcast", "recv a".into(), "simulcast send= recv=\"a\"".into());
                    g.meta = Meta::Simulcast { send: vec![], recv: vec!["a".into()] };
                    vec![rid("a", b, &[]), plain(g)]
                }
            };
            lines.extend(last);
            cx.class("attributes");
        }
    }
    cx.nontrivial = true;
    let mut i = inner(s);
    against_model(&mut i, cx, &lines, false).map_err(brief)
}

fn c18(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let t = x.plain();
    input(cx, &t);
    let a = ok(&t, true).map_err(brief)?;
    let mut an = StatefulSdpAnonymizer::new();
    check_copy(&a, &mut an, cx).map_err(brief)?;
    Ok(())
}

/// a large session built through the interface means what it holds
fn c20(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let t = x.plain();
    input(cx, &t);
    let a = ok(&t, true).map_err(brief)?;
    let mut b = SdpSession::new(a.version, a.origin.clone(), a.session.clone().unwrap_or_else(|| " ".into()));
    if let Some(tm) = &a.timing {
        b.set_timing(tm.clone());
    }
    if let Some(c) = &a.connection {
        b.set_connection(c.clone());
    }
    for w in &a.bandwidth {
        b.add_bandwidth(w.clone());
    }
    for l in x.lines.iter().filter(|l| l.ty == 'a' && l.sec == 0) {
        let v = SdpAttribute::from_str(&l.text()[2..]).or_else(|e| fail(format!("valid attribute rejected: {e}")))?;
        if let Err(e) = b.add_attribute(v) {
            return fail(clip(&format!("add_attribute on the session: {e}"), 3000));
        }
    }
    let mut media: Vec<SdpMedia> = vec![];
    for m in &a.media {
        let line = webrtc_sdp::media_type::SdpMediaLine {
            media: m.get_type().clone(),
            port: m.get_port(),
            port_count: m.get_port_count(),
            proto: m.get_proto().clone(),
            formats: m.get_formats().clone(),
        };
        let mut n = SdpMedia::new(line);
        if let Some(c) = m.get_connection() {
            n.set_connection(c.clone());
        }
        for w in m.get_bandwidth() {
            n.add_bandwidth(w.clone());
        }
        for v in m.get_attributes() {
            if let Err(e) = n.add_attribute(v.clone()) {
                return fail(clip(&format!("add_attribute: {e}"), 3000));
            }
        }
        media.push(n);
    }
    b.extend_media(media);
    let want = x.canon(false);
    let found = proj::session(&b, false);
    if a.session.is_some() {
        same("the built session", &want, &found).map_err(brief)?;
    }
    let text = b.to_string();
    let c = match parse_sdp(&text, true) {
        Ok(c) => c,
        Err(e) => return fail(clip(&format!("the printed form is rejected: {e}"), 3000)),
    };
    same("the printed form of the built session", &proj::session(&b, true), &proj::session(&c, true)).map_err(brief)
}

fn c23(s: &mut Src, cx: &mut Ctx) -> Res {
    let (x, class) = big::big(s, 1);
    cx.class(class);
    let mut v = x.texts();
    if s.pct(30) {
        for _ in 0..amount(s, 3000) {
            v.push("a=nothing-known".into());
        }
    }
    if v.len() > 20_000 {
        // the debug form is large
        v.truncate(20_000);
    }
    let t = sess::plain(&v);
    input(cx, &t);
    match parse_sdp(&t, false) {
        Ok(a) => report::whole(&a, cx).map_err(brief),
        Err(_) => Ok(()),
    }
}

/// the sub-check of a property
pub fn sub(id: &str) -> Option<Sub> {
    let (quick, thorough, f): (u64, u64, CaseFn) = match id {
        "C01" => (640, 16000, c01),
        "C02" => (400, 12000, c02),
        "C03" => (640, 16000, c03),
        "C04" => (480, 12000, c04),
        "C05" => (480, 12000, c05),
        "C06" => (640, 12000, c06),
        "C07" => (640, 12000, c07),
        "C08" => (400, 12000, c08),
        "C09" => (400, 12000, c09),
        "C10" => (640, 16000, c10),
        "C11" => (400, 12000, c11),
        "C12" => (480, 12000, c12),
        "C13" => (640, 16000, c13),
        "C18" => (320, 10000, c18),
        "C20" => (400, 12000, c20),
        "C23" => (320, 10000, c23),
        _ => return None,
    };
    Some(Sub { name: "big", quick, thorough, f })
}
pub fn more(id: &str) -> Option<Sub> {
    match id {
        "C10" => Some(Sub { name: "big order", quick: 400, thorough: 12_000, f: c10_order }),
        _ => None,
    }
}
