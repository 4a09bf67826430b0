//! C25: outcomes depend on the arguments only.

use crate::engine::*;
use crate::{big, proj, sess};
use serde_json::json;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{BuildHasher, BuildHasherDefault};
use std::io::{Read, Write as _};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};
use webrtc_sdp::address::Address;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::{SdpAttribute, SdpAttributeType};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession, SdpType};

// ---------------------------------------------------------------------------------------------
// C25

fn hash(s: &str) -> u64 {
    BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(s)
}
fn values(x: &SdpSession) -> String {
    let w: Vec<String> = x.warnings.iter().map(|e| format!("{:?} {e}", proj::error(e))).collect();
    format!("{}\nwarnings: {}", proj::session(x, false).join("\n"), w.join("\n"))
}
/// everything that comes of a text
fn outcome(t: &str) -> String {
    let mut out = String::new();
    for strict in [true, false] {
        match parse_sdp(t, strict) {
            Ok(x) => {
                let _ = write!(out, "{strict} accepted\n{}\n{x}\n", values(&x));
                if !strict {
                    let before = x.to_string();
                    let mut an = StatefulSdpAnonymizer::new();
                    let m = x.masked_clone(&mut an);
                    let _ = write!(out, "masked\n{m}\n{}\n", x.masked_clone(&mut an));
                    let mut c = x.clone();
                    c.attribute.truncate(1);
                    for m in c.media.iter_mut() {
                        m.remove_codecs();
                        m.set_port(1);
                    }
                    c.session = None;
                    if before != x.to_string() {
                        let _ = write!(out, "changed by what was done with copies: {x}");
                    }
                    if x.media.len() < 50 {
                        let _ = write!(out, "{x:?}\n{}", serde_json::to_string(&x).unwrap_or_default());
                    }
                }
            }
            Err(e) => {
                let _ = write!(out, "{strict} {:?} {e}\n{}", proj::error(&e), serde_json::to_string(&e).unwrap_or_default());
            }
        }
    }
    let mut k = 0;
    for (i, l) in t.lines().enumerate() {
        k += l.len();
        if i == 60 || k > 20_000 {
            break;
        }
        match parse_sdp_line(l, i) {
            Ok(p) => {
                let _ = write!(out, "\n{} {:?} {}", p.line_number, p.text, proj::sdp_type(&p.sdp_type, false));
                if let SdpType::Attribute(ref a) = p.sdp_type {
                    let _ = write!(out, " {a} {}", SdpAttributeType::from(a));
                }
            }
            Err(e) => {
                let _ = write!(out, "\n{:?} {e}", proj::error(&e));
            }
        }
        for w in l.split([' ', ':', '=']).take(12) {
            if w.len() < 300 {
                let _ = write!(out, " {:?}", Address::from_str(w).map(|a| proj::addr(&a)).map_err(|e| e.to_string()));
            }
        }
    }
    out
}
fn outcome_safe(t: &str) -> String {
    guarded(|| outcome(t)).unwrap_or_else(|e| format!("panic: {e}"))
}

/// texts that have much in common: what a cache would confuse
fn related(s: &mut Src, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let t = match s.below(10) {
            0 | 1 => sess::mutated(s),
            2 => sess::minimal(&sess::some_line(s), s.flip()),
            3..=7 if !v.is_empty() => {
                let mut t = s.pick(&v).clone();
                match s.below(8) {
                    5 | 6 => {
                        // a word, a line or all of it in other letters
                        let sep: &[char] = *s.pick(&[&[' ', ':', '=', '/', ';', ',', '\r', '\n'][..], &['\n'][..], &[][..]]);
                        let ws: Vec<&str> = t.split_inclusive(sep).collect();
                        let (i, k) = (s.idx(ws.len()), s.below(3));
                        t = ws
                            .iter()
                            .enumerate()
                            .map(|(j, w)| match k {
                                _ if i != j => w.to_string(),
                                0 => w.to_ascii_uppercase(),
                                1 => w.to_ascii_lowercase(),
                                _ => w.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
                            })
                            .collect();
                    }
                    0 => {
                        // a digit or letter replaced: same length, nearly the same text
                        let b: Vec<usize> = t.char_indices().filter(|c| c.1.is_ascii_alphanumeric()).map(|c| c.0).collect();
                        if !b.is_empty() {
                            let i = *s.pick(&b);
                            let c = *s.pick(b"0123456789afx") as char;
                            t.replace_range(i..i + 1, &c.to_string());
                        }
                    }
                    1 => {
                        let ls: Vec<&str> = t.split_inclusive('\n').collect();
                        let k = s.idx(ls.len() + 1);
                        t = ls[..k].concat();
                    }
                    2 => {
                        let a = sess::some_line(s);
                        let _ = write!(t, "{a}\r\n");
                    }
                    3 => {
                        // two lines change places
                        let mut ls: Vec<&str> = t.split_inclusive('\n').collect();
                        if ls.len() > 1 {
                            let (i, j) = (s.idx(ls.len()), s.idx(ls.len()));
                            ls.swap(i, j);
                        }
                        t = ls.concat();
                    }
                    _ => sess::mutate_once(s, &mut t),
                }
                t
            }
            _ => sess::session(s, &sess::Opt { max_media: 4, max_attrs: 20, kinds: None }).plain(),
        };
        v.push(t);
    }
    v
}

/// one process, several texts, every one more than once and some in several threads at once
fn c25_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.range(2, 7) as usize;
    let pool = related(s, n);
    let mut first: Vec<Option<String>> = vec![None; n];
    let steps = s.range(n as u64, 3 * n as u64 + 4);
    let mut log = String::new();
    let (mut again, mut threads) = (0, 0);
    let mut held: Vec<(SdpSession, String)> = vec![];
    for _ in 0..steps {
        let i = s.idx(n);
        let op = s.below(12);
        let _ = writeln!(log, "step {op} text {i}");
        let got: Vec<String> = match op {
            0 => {
                threads += 1;
                let ts: Vec<&String> = (0..4).map(|k| &pool[(i + k % 2) % n]).collect();
                let r: Vec<String> = std::thread::scope(|sc| {
                    let hs: Vec<_> = ts.iter().map(|t| sc.spawn(move || outcome_safe(t))).collect();
                    hs.into_iter().map(|h| h.join().expect("thread")).collect()
                });
                ensure_same(cx, &pool, &log, (i + 1) % n, &mut first, r[1].clone())?;
                ensure_same(cx, &pool, &log, (i + 1) % n, &mut first, r[3].clone())?;
                vec![r[0].clone(), r[2].clone()]
            }
            1 => {
                if let Ok(x) = parse_sdp(&pool[i], false) {
                    let v = values(&x);
                    held.push((x, v));
                }
                vec![]
            }
            _ => vec![outcome_safe(&pool[i])],
        };
        for g in got {
            again += first[i].is_some() as u32;
            ensure_same(cx, &pool, &log, i, &mut first, g)?;
        }
    }
    for (x, v) in &held {
        if values(x) != *v {
            cx.input = format!("{log}\n{}", pool.join("\n-----\n"));
            return fail("a session has changed while other texts were parsed");
        }
    }
    cx.input(pool.join("\n-----\n"));
    cx.nontrivial = again > 0 && first.iter().flatten().any(|f| f.contains("accepted"));
    cx.class_if(threads > 0, "in several threads at once");
    cx.class_if(!held.is_empty(), "sessions held meanwhile");
    Ok(())
}
fn ensure_same(cx: &mut Ctx, pool: &[String], log: &str, i: usize, first: &mut [Option<String>], g: String) -> Res {
    match &first[i] {
        None => first[i] = Some(g),
        Some(f) if *f == g => {}
        Some(f) => {
            cx.input = format!("{log}\n{}", pool.join("\n-----\n"));
            let (a, b): (Vec<String>, Vec<String>) = (f.lines().map(|x| x.to_string()).collect(), g.lines().map(|x| x.to_string()).collect());
            return fail(format!("text {i} has two outcomes: {}", proj::diff(&a, &b)));
        }
    }
    Ok(())
}

/// several anonymisers at a time
fn c25_instances(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.range(2, 4) as usize;
    let k = s.range(1, 4) as usize;
    let texts: Vec<String> = (0..k).map(|_| sess::session(s, &sess::Opt { max_media: 3, max_attrs: 15, kinds: None }).plain()).collect();
    cx.input(texts.join("\n-----\n"));
    let xs: Vec<SdpSession> = texts.iter().filter_map(|t| parse_sdp(t, false).ok()).collect();
    if xs.is_empty() {
        return Ok(());
    }
    let mut ans: Vec<StatefulSdpAnonymizer> = (0..n).map(|_| StatefulSdpAnonymizer::new()).collect();
    let mut calls: Vec<Vec<(usize, String)>> = vec![vec![]; n];
    let steps = s.range(2, 12);
    for _ in 0..steps {
        let (a, x) = (s.idx(n), s.idx(xs.len()));
        let got = xs[x].masked_clone(&mut ans[a]);
        calls[a].push((x, proj::session(&got, false).join("\n")));
    }
    for (a, cs) in calls.iter().enumerate() {
        let mut alone = StatefulSdpAnonymizer::new();
        for (j, (x, got)) in cs.iter().enumerate() {
            let want = proj::session(&xs[*x].masked_clone(&mut alone), false).join("\n");
            let (w, g): (Vec<String>, Vec<String>) = (want.lines().map(|x| x.to_string()).collect(), got.lines().map(|x| x.to_string()).collect());
            ensure!(want == *got, "copy {j} by anonymiser {a} of {n} differs from that of an anonymiser which is alone: {}", proj::diff(&w, &g));
        }
    }
    cx.nontrivial = calls.iter().filter(|c| !c.is_empty()).count() > 1;
    cx.class_if(xs.len() > 1, "several sessions");
    Ok(())
}

/// reads texts from its input, each with its length before it, and writes a hash of what came of each.
/// `mode`: "row" in the order given, or "threads"
pub fn child(mode: &str) {
    let mut data = vec![];
    std::io::stdin().read_to_end(&mut data).expect("input");
    let mut texts: Vec<String> = vec![];
    let mut i = 0;
    while i + 4 <= data.len() {
        let n = u32::from_le_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]) as usize;
        texts.push(String::from_utf8_lossy(&data[i + 4..i + 4 + n]).into_owned());
        i += 4 + n;
    }
    let out: Vec<u64> = if mode == "threads" {
        // all at once, each thread from another place
        let n = texts.len();
        let all: Vec<Vec<(usize, u64)>> = std::thread::scope(|sc| {
            let texts = &texts;
            let hs: Vec<_> = (0..4)
                .map(|w| sc.spawn(move || (0..n).map(|j| (j + w * n / 4) % n).map(|j| (j, hash(&outcome_safe(&texts[j])))).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let mut out = vec![0u64; n];
        for (j, h) in all.into_iter().flatten() {
            // unequal ones give something that is equal to nothing
            out[j] = if out[j] == 0 || out[j] == h { h } else { 1 };
        }
        out
    } else {
        texts.iter().map(|t| hash(&outcome_safe(t))).collect()
    };
    let s: String = out.iter().map(|h| format!("{h:x}\n")).collect();
    let _ = std::io::stdout().write_all(s.as_bytes());
}
/// Err: the process has died or does not end
fn in_child(texts: &[&String], mode: &str) -> Result<Vec<u64>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe).args(["pure", mode]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut data = vec![];
    for t in texts {
        data.extend((t.len() as u32).to_le_bytes());
        data.extend(t.as_bytes());
    }
    let mut input = c.stdin.take().expect("pipe");
    let mut output = c.stdout.take().expect("pipe");
    let w = std::thread::spawn(move || {
        let _ = input.write_all(&data);
    });
    let r = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = output.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let status = loop {
        match c.try_wait() {
            Ok(Some(st)) => break st.to_string(),
            _ if t0.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                break "does not end".to_string();
            }
            _ => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 20 { 1 } else { 5 })),
        }
    };
    let _ = w.join();
    let s = r.join().unwrap_or_default();
    let v: Vec<u64> = s.lines().filter_map(|l| u64::from_str_radix(l, 16).ok()).collect();
    if v.len() == texts.len() {
        Ok(v)
    } else {
        Err(status)
    }
}

/// the outcome of the last text behind the others, and alone
fn differs(history: &[&String], t: &String) -> bool {
    let mut v = history.to_vec();
    v.push(t);
    match (in_child(&v, "row"), in_child(&[t], "row")) {
        (Ok(a), Ok(b)) => a.last() != b.last(),
        (a, b) => a.is_err() != b.is_err(),
    }
}
fn report(e: &mut Extra, mut history: Vec<&String>, t: &String, how: &str) -> Res {
    let t0 = Instant::now();
    let mut k = history.len();
    while k > 0 && t0.elapsed().as_secs() < 30 {
        let mut i = 0;
        while i < history.len() && t0.elapsed().as_secs() < 30 {
            let mut h = history.clone();
            h.drain(i..(i + k).min(h.len()));
            if differs(&h, t) {
                history = h;
            } else {
                i += k;
            }
        }
        k /= 2;
    }
    let h: Vec<String> = history.iter().map(|x| x.to_string()).collect();
    e.failing_input = format!("{}\n===== and then =====\n{t}", h.join("\n-----\n"));
    fail(format!("the last text has another outcome {how} than in a process of its own"))
}

fn c25_extra(e: &mut Extra) -> Res {
    let scale: f64 = std::env::var("SDP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let batches = ((if e.thorough { 1600.0 } else { 64.0 }) * scale).ceil() as u64;
    let per = 300;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut at = 0;
    let (mut alone, mut rows) = (0u64, 0u64);
    while at < batches {
        let group: Vec<u64> = (at..batches.min(at + 8)).collect();
        at += group.len() as u64;
        let seed = e.seed;
        type Found = Option<(Vec<String>, Vec<usize>, usize, &'static str)>;
        let res: Vec<(Vec<String>, u64, u64, Found, Option<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = group
                .iter()
                .map(|b| {
                    let b = *b;
                    sc.spawn(move || {
                        let mut s = Src::random(case_seed(seed, "C25", "order", b), 20 + b % 40);
                        let mut texts = related(&mut s, per);
                        if b % 4 == 0 {
                            texts.push(big::big(&mut s, 1).0.plain());
                        }
                        let n = texts.len();
                        let forward: Vec<usize> = (0..n).collect();
                        let backward: Vec<usize> = (0..n).rev().collect();
                        let mut mixed: Vec<usize> = (0..n).chain(0..n).collect();
                        s.shuffle(&mut mixed);
                        let mut base: Vec<Option<u64>> = vec![None; n];
                        let mut found: Found = None;
                        let mut ended = None;
                        let mut rows = 0;
                        let mut alone = 0;
                        // each of some texts in a process of its own
                        for i in (0..n).filter(|i| i % 5 == (b % 5) as usize) {
                            alone += 1;
                            if let Ok(v) = in_child(&[&texts[i]], "row") {
                                base[i] = Some(v[0]);
                            }
                        }
                        for (order, mode, how) in [(&forward, "row", "behind the others"), (&backward, "row", "behind the others"), (&mixed, "row", "behind the others"), (&forward, "threads", "while others are parsed in other threads")] {
                            let v: Vec<&String> = order.iter().map(|i| &texts[*i]).collect();
                            rows += v.len() as u64;
                            match in_child(&v, mode) {
                                Ok(o) => {
                                    for (pos, i) in order.iter().enumerate() {
                                        match base[*i] {
                                            None => base[*i] = Some(o[pos]),
                                            Some(x) if x == o[pos] => {}
                                            Some(_) if found.is_none() => found = Some((texts.clone(), order[..pos].to_vec(), *i, how)),
                                            Some(_) => {}
                                        }
                                    }
                                }
                                // a text that crashes or hangs even alone is not for this check to report
                                Err(x) => ended = Some(x),
                            }
                        }
                        (texts, alone, rows, found, ended)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        for (texts, a, r, found, ended) in res {
            alone += a;
            rows += r;
            e.evaluations += a + r;
            for t in &texts {
                if t.lines().count() >= 4 {
                    distinct.insert(hash(t));
                }
            }
            if e.samples.len() < 3 {
                e.samples.push(json!({"sub": "order", "input": texts.iter().skip(10).take(4).map(|t| t.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n-----\n")}));
            }
            e.nontrivial = distinct.len() as u64;
            if let Some((texts, before, i, how)) = found {
                let h: Vec<&String> = before.iter().map(|j| &texts[*j]).collect();
                return report(e, h, &texts[i], how);
            }
            if let Some(x) = ended {
                *e.classes.entry(format!("a process ended early ({x})")).or_insert(0) += 1;
            }
        }
    }
    e.classes.insert("in a process of their own".into(), alone);
    e.classes.insert("in a row with others".into(), rows);
    Ok(())
}

/// a clone of a session has the values of the session and is another one
fn c25_clones(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = if s.pct(70) { sess::session(s, &sess::Opt { max_media: 4, max_attrs: 20, kinds: None }).plain() } else { sess::mutated(s) };
    cx.input(t.clone());
    let Ok(x) = parse_sdp(&t, false) else { return Ok(()) };
    let before = (values(&x), x.to_string(), format!("{x:?}"));
    let mut c = x.clone();
    ensure!((values(&c), c.to_string(), format!("{c:?}")) == before, "the clone differs: {}", proj::diff(&proj::session(&x, false), &proj::session(&c, false)));
    cx.nontrivial = !x.media.is_empty();
    for m in c.media.iter_mut() {
        match s.below(4) {
            0 => m.remove_codecs(),
            1 => m.set_port(7),
            2 => m.remove_attribute(SdpAttributeType::Rtpmap),
            _ => {
                let _ = m.add_attribute(SdpAttribute::RtcpMux);
            }
        }
    }
    c.bandwidth.clear();
    let _ = c.add_attribute(SdpAttribute::IceLite);
    ensure!((values(&x), x.to_string(), format!("{x:?}")) == before, "an edit of the clone shows in the original");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "history: 2 to 7 texts that have much in common, parsed, printed, masked and serialised repeatedly in one thread and in several at once, with sessions held meanwhile; instances: sessions masked by several anonymisers in turn; clones: a session before and after its clone is edited; extra: batches of 300 texts run in fresh processes forwards, backwards, mixed with each text twice, in four threads at once, and every fifth text in a process of its own. Non-trivial: a text run more than once and an accepted one among them; at least two anonymisers used; a session with media; for the extra, texts of at least four lines",
            subs: vec![
                Sub { name: "history", quick: 20_000, thorough: 600_000, f: c25_history },
                Sub { name: "instances", quick: 20_000, thorough: 600_000, f: c25_instances },
                Sub { name: "clones", quick: 60_000, thorough: 2_000_000, f: c25_clones },
            ],
            extra: Some(c25_extra),
        },
    ]
}
