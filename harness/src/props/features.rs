//! C24: builds with every combination of optional features behave alike.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::{invalid, sess};
use serde_json::json;
use std::process::{Command, Stdio};
use std::time::Instant;

const BUILDS: [&str; 4] = ["both", "none", "debug", "serialize"];
const PARTS: [&str; 9] =
    ["outcome (strict)", "outcome (lenient)", "values", "warnings", "printed form", "anonymised form", "lines and words", "edited form", "the end of the process"];

fn dir() -> String {
    let v = std::env::var("SDP_VERIF").unwrap_or_else(|_| "/verif".into());
    format!("{v}/probes")
}

/// Err: what the compiler says
fn build() -> Result<(), Fail> {
    let d = dir();
    let res: Vec<(&str, bool, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = BUILDS
            .iter()
            .map(|b| {
                let d = d.clone();
                sc.spawn(move || {
                    let o = Command::new("cargo")
                        .args(["build", "--release", "--offline", "--manifest-path", &format!("{d}/{b}/Cargo.toml"), "--target-dir", &format!("{d}/target/{b}")])
                        .output();
                    match o {
                        Ok(o) => (*b, o.status.success(), String::from_utf8_lossy(&o.stderr).to_string()),
                        Err(e) => (*b, false, e.to_string()),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("builder")).collect()
    });
    for (b, ok, log) in res {
        if ok {
            continue;
        }
        // this harness has been built with both features, so the code compiles in one configuration
        if b != "both" && (log.contains("could not compile `webrtc-sdp`")) {
            let first = log.find("error").unwrap_or(0);
            return fail(format!("the crate does not build with features {b:?}: {}", &log[first..].chars().take(800).collect::<String>()));
        }
        return fail(format!("ERROR: the probe {b} does not build: {}", log.chars().rev().take(1500).collect::<String>().chars().rev().collect::<String>()));
    }
    Ok(())
}

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn write_corpus(path: &str, texts: &[String]) -> Res {
    let mut v = vec![];
    for t in texts {
        v.extend((t.len() as u32).to_le_bytes());
        v.extend(t.as_bytes());
    }
    std::fs::write(path, v).or_else(|e| fail(format!("ERROR: corpus: {e}")))
}
/// how one build came off
enum Ran {
    /// one answer for each text
    Done(Vec<String>),
    /// it ended before its time at one of these texts
    Ended(String, Vec<usize>),
}
fn run_one(sc: &Scratch, b: &str, corpus: &str, n: usize, show: bool) -> Result<Ran, String> {
    let (o, d) = (format!("{}/{b}.out", sc.0), dir());
    let _ = std::fs::remove_file(&o);
    let mut cmd = Command::new(format!("{d}/target/{b}/release/sdp-probe-{b}"));
    cmd.args([corpus, &o]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if show {
        cmd.arg("show");
    }
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    let mut since = Instant::now();
    let mut seen: Vec<u8> = vec![];
    let how = loop {
        match child.try_wait() {
            Ok(Some(s)) if s.success() => break None,
            Ok(Some(s)) => break Some(format!("ends with {s}")),
            Ok(None) => (),
            Err(e) => return Err(e.to_string()),
        }
        // no worker has come any further for a long time
        let at = std::fs::read(format!("{o}.at")).unwrap_or_default();
        if at != seen {
            seen = at;
            since = Instant::now();
        } else if since.elapsed().as_secs() > 20 {
            let _ = child.kill();
            let _ = child.wait();
            break Some("does not come to an end".to_string());
        }
        std::thread::sleep(std::time::Duration::from_millis(if n < 50 { 1 } else { 10 }));
    };
    match how {
        None => {
            let t = std::fs::read_to_string(&o).map_err(|e| e.to_string())?;
            Ok(Ran::Done(if show { vec![t] } else { t.lines().map(|l| l.to_string()).collect() }))
        }
        Some(how) => {
            let at = std::fs::read(format!("{o}.at")).unwrap_or_default();
            let v = at.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize).filter(|i| *i > 0 && *i <= n).map(|i| i - 1).collect();
            Ok(Ran::Ended(how, v))
        }
    }
}
/// output of each build; a text at which a build ends has that as its outcome
fn probe(sc: &Scratch, texts: &[String], show: bool) -> Result<Vec<Vec<String>>, Fail> {
    let mut ended: Vec<Vec<Option<String>>> = vec![vec![None; texts.len()]; BUILDS.len()];
    let mut rounds = 0;
    loop {
        // the texts at which no build has ended so far
        let left: Vec<usize> = (0..texts.len()).filter(|i| ended.iter().all(|e| e[*i].is_none())).collect();
        let part: Vec<String> = left.iter().map(|i| texts[*i].clone()).collect();
        let c = format!("{}/corpus", sc.0);
        write_corpus(&c, &part)?;
        let runs = |show: bool, c: &str, n: usize| -> Vec<Result<Ran, String>> {
            std::thread::scope(|th| {
                let hs: Vec<_> = BUILDS.iter().map(|b| th.spawn(move || run_one(sc, b, c, n, show))).collect();
                hs.into_iter().map(|h| h.join().expect("prober")).collect()
            })
        };
        let mut outs = vec![];
        let mut suspects: Vec<usize> = vec![];
        let mut any = false;
        for (o, b) in runs(show, &c, part.len()).into_iter().zip(BUILDS) {
            match o {
                Ok(Ran::Done(v)) => outs.push(v),
                Ok(Ran::Ended(_, at)) => {
                    any = true;
                    suspects.extend(at);
                }
                Err(e) => return fail(format!("ERROR: the probe {b} fails: {e}")),
            }
        }
        if !any {
            return Ok(outs
                .into_iter()
                .enumerate()
                .map(|(b, v)| {
                    if show {
                        let e: String = ended[b].iter().flatten().map(|e| format!("{e}\n")).collect();
                        return vec![format!("{e}{}", v.concat())];
                    }
                    let mut v = v.into_iter();
                    (0..texts.len())
                        .map(|i| {
                            if ended.iter().any(|e| e[i].is_some()) {
                                ended[b][i].clone().unwrap_or_else(|| "an outcome".to_string())
                            } else {
                                v.next().unwrap_or_default()
                            }
                        })
                        .collect()
                })
                .collect());
        }
        rounds += 1;
        suspects.sort();
        suspects.dedup();
        let mut found = false;
        for i in suspects {
            let one = format!("{}/one", sc.0);
            write_corpus(&one, &part[i..=i])?;
            for (b, r) in runs(false, &one, 1).into_iter().enumerate() {
                if let Ok(Ran::Ended(how, _)) = r {
                    ended[b][left[i]] = Some(how);
                    found = true;
                }
            }
        }
        if !found {
            return fail("ERROR: a probe ends before its time, at no text in particular");
        }
        // not all builds alike: that is enough.  Alike, again and again: nothing left to compare
        let differ = (0..texts.len()).any(|i| ended.iter().any(|e| e[i].is_some() != ended[0][i].is_some()));
        if differ || rounds > 40 {
            return Ok(ended.iter().map(|e| e.iter().map(|x| x.clone().unwrap_or_else(|| "an outcome".to_string())).collect()).collect());
        }
    }
}
const ENDED: usize = 8;
fn ended_one(o: &str) -> bool {
    o.starts_with("ends with") || o.starts_with("does not")
}
/// for each text the first build that differs from the first one, and in which part
fn differing(sc: &Scratch, texts: &[String]) -> Result<Vec<Option<(usize, usize)>>, Fail> {
    let o = probe(sc, texts, false)?;
    if o.iter().any(|x| x.len() != texts.len()) {
        return fail("ERROR: a probe has not answered for every text");
    }
    Ok((0..texts.len())
        .map(|i| {
            for b in 1..o.len() {
                if o[b][i] != o[0][i] {
                    if ended_one(&o[0][i]) || ended_one(&o[b][i]) {
                        return Some((b, ENDED));
                    }
                    let (x, y): (Vec<&str>, Vec<&str>) = (o[0][i].split(' ').skip(1).collect(), o[b][i].split(' ').skip(1).collect());
                    let part = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(0);
                    return Some((b, part));
                }
            }
            None
        })
        .collect())
}

fn text(s: &mut Src) -> String {
    match s.below(20) {
        0 => sess::garbage(s),
        1..=3 => {
            let l = invalid::line(s).0;
            sess::minimal(&l, s.flip())
        }
        4 | 5 => {
            let (t, slot) = *s.pick(invalid::FIELDS);
            let w = if s.flip() { invalid::right(s, slot) } else { invalid::wrong(s, slot).0 };
            sess::minimal(&t.replace("{}", &w), s.flip())
        }
        6..=9 => {
            let kinds = gen::all_kinds();
            let k = *s.pick(&kinds);
            let g = gen::attr(s, k, &Env::default());
            sess::minimal(&format!("a={}", g.spelled(s)), gen::session_ok(k) && (!gen::media_ok(k) || s.flip()))
        }
        10..=13 => sess::mutated(s),
        14 | 15 => {
            let x = sess::session(s, &sess::Opt { max_media: 4, max_attrs: 30, kinds: None });
            sess::present(s, &x.texts()).0
        }
        16 => {
            let mut t = sess::session(s, &sess::Opt { max_media: 3, max_attrs: 20, kinds: None }).plain();
            for _ in 0..s.range(1, 4) {
                t.push_str(&sess::unsupported(s).0);
                t.push_str("\r\n");
            }
            t
        }
        _ => sess::session(s, &sess::Opt { max_media: 6, max_attrs: 40, kinds: None }).plain(),
    }
}

fn c24_extra(e: &mut Extra) -> Res {
    build()?;
    let sc = Scratch(format!("{}/target/scratch-{}", dir(), std::process::id()));
    std::fs::create_dir_all(&sc.0).or_else(|x| fail(format!("ERROR: scratch: {x}")))?;
    let scale: f64 = std::env::var("SDP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if e.thorough { 1_500_000.0 } else { 80_000.0 }) * scale) as u64;
    let batch = 20_000;
    let mut at = 0;
    let mut distinct = std::collections::HashSet::new();
    let (mut accepted, mut bytes) = (0u64, 0u64);
    while at < total {
        let n = batch.min(total - at);
        let mut texts: Vec<String> = crate::dict::samples().iter().filter(|_| at == 0).cloned().collect();
        for i in at..at + n {
            let mut s = Src::random(case_seed(e.seed, "C24", "corpus", i), 10 + i % 60);
            texts.push(text(&mut s));
        }
        // a few that are large
        for i in 0..n / 400 {
            let mut s = Src::random(case_seed(e.seed, "C24", "big", at + i), 60);
            texts.push(crate::big::big(&mut s, 1).0.plain());
        }
        at += n;
        e.evaluations += texts.len() as u64 * BUILDS.len() as u64;
        let o = differing(&sc, &texts)?;
        for t in &texts {
            bytes += t.len() as u64;
            if t.lines().count() >= 4 {
                distinct.insert(std::hash::BuildHasher::hash_one(&std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default(), t));
            }
        }
        // for the statistics
        if let Ok(l) = std::fs::read_to_string(format!("{}/both.out", sc.0)) {
            accepted += l.lines().filter(|l| l.starts_with("true")).count() as u64;
        }
        if e.samples.len() < 6 {
            for i in [3usize, 11, 17] {
                if let Some(t) = texts.get(texts.len() / 20 * i) {
                    e.samples.push(json!({"sub": "corpus", "input": t.chars().take(900).collect::<String>()}));
                }
            }
        }
        if let Some(i) = o.iter().position(|x| x.is_some()) {
            e.nontrivial = distinct.len() as u64;
            // the shortest of those that differ, cut down line by line, then character by character
            let mut best = (0..o.len()).filter(|i| o[*i].is_some()).map(|i| texts[i].clone()).min_by_key(|t| t.len()).unwrap_or_else(|| texts[i].clone());
            let gone = o.iter().any(|x| matches!(x, Some((_, ENDED))));
            for unit in 0..if gone { 0 } else { 2 } {
                loop {
                    let pieces: Vec<String> = if unit == 0 { best.split_inclusive('\n').map(|l| l.to_string()).collect() } else { best.chars().map(|c| c.to_string()).collect() };
                    if pieces.len() > 2000 {
                        break;
                    }
                    let mut cands: Vec<String> = vec![];
                    for k in [8usize, 4, 2, 1] {
                        for a in (0..pieces.len()).step_by(k) {
                            if a + k <= pieces.len() {
                                cands.push([&pieces[..a], &pieces[a + k..]].concat().concat());
                            }
                        }
                    }
                    let d = differing(&sc, &cands)?;
                    match (0..cands.len()).filter(|i| d[*i].is_some()).min_by_key(|i| cands[*i].len()) {
                        Some(i) => best = cands[i].clone(),
                        None => break,
                    }
                }
            }
            let (b, part) = match differing(&sc, &[best.clone()])?[0] {
                Some(x) => x,
                None => return fail("a text gives different outcomes in different builds, but not every time"),
            };
            if gone && part == ENDED {
                // piece by piece, each text in a process of its own
                let t0 = Instant::now();
                let hangs = probe(&sc, &[best.clone()], false)?.iter().any(|o| o[0].starts_with("does not"));
                for unit in 0..if hangs { 0 } else { 2 } {
                    let mut k = best.len();
                    while k > 0 && t0.elapsed().as_secs() < 60 {
                        let pieces: Vec<String> = if unit == 0 { best.split_inclusive('\n').map(|l| l.to_string()).collect() } else { best.chars().map(|c| c.to_string()).collect() };
                        k = k.min(pieces.len());
                        let (mut a, mut kept): (usize, Vec<String>) = (0, vec![]);
                        while a < pieces.len() && t0.elapsed().as_secs() < 60 {
                            let z = (a + k).min(pieces.len());
                            let cand = format!("{}{}", kept.concat(), pieces[z..].concat());
                            if matches!(differing(&sc, &[cand])?[0], Some((_, ENDED))) {
                                a = z;
                            } else {
                                kept.push(pieces[a..z].concat());
                                a = z;
                            }
                        }
                        best = format!("{}{}", kept.concat(), pieces[a..].concat());
                        k /= 2;
                    }
                }
                let o = probe(&sc, &[best.clone()], false)?;
                e.failing_input = best;
                return fail(format!("the build with both features {}, that with {} {}", o[0][0], BUILDS[b], if ended_one(&o[b][0]) { o[b][0].as_str() } else { "gives an outcome" }));
            }
            let full = probe(&sc, &[best.clone()], true)?;
            let show = |t: &String| {
                let from = t.find(&format!("-- {part}\n")).unwrap_or(0);
                let to = t[from..].find(&format!("-- {}\n", part + 1)).map(|x| x + from).unwrap_or(t.len());
                t[from..to].chars().take(700).collect::<String>()
            };
            e.failing_input = best;
            return fail(format!(
                "{} differs between the build with both features and that with {}\n{}: {}\n{}: {}",
                PARTS[part], BUILDS[b], BUILDS[0], show(&full[0][0]), BUILDS[b], show(&full[b][0])
            ));
        }
    }
    e.nontrivial = distinct.len() as u64;
    e.classes.insert("accepted".into(), accepted);
    e.classes.insert("rejected".into(), at - accepted);
    e.notes.insert("builds".into(), json!(BUILDS));
    e.notes.insert("bytes".into(), json!(bytes));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "a case is a text (generated, mutated or arbitrary description, a line of any kind in a small description, broken lines) run through one of four builds of the crate, one for each combination of features; outcomes, values, warnings, printed, masked and edited forms are compared. Non-trivial: a text of at least four lines, counted once for all builds",
        subs: vec![],
        extra: Some(c24_extra),
    }]
}
