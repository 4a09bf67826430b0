//! Property-based testing engine: choice-sequence generation, internal shrinking, replay files,
//! case classification and the evidence writer.
//!
//! Every random decision of a generator is one bounded choice drawn from a `Src`.  A case is the
//! sequence of its choices, so that it can be replayed and shrunk without knowing what it means.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

// ---------------------------------------------------------------------------------------------
// choices

/// a case that runs alone writes its choices and its input down as it makes them, so that they are
/// known even when the process ends
static LOG: OnceLock<(String, Option<File>)> = OnceLock::new();
pub fn log_to(path: &str) {
    let _ = LOG.set((path.to_string(), File::create(format!("{path}.choices")).ok()));
}
fn choice_log() -> Option<&'static File> {
    LOG.get().and_then(|l| l.1.as_ref())
}
fn log_path() -> Option<&'static str> {
    LOG.get().map(|l| l.0.as_str())
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// 0..=100: how large the case may be
    pub size: u64,
    log: Option<&'static File>,
    /// values made earlier in the case, for values that are equal or near
    pub echo: Echo,
    /// choices of an earlier part that are to be made again
    forced: std::collections::VecDeque<u64>,
    in_part: bool,
    /// the choices as bytes, written while they are made at random (see `coded`)
    pub code: Option<Vec<u8>>,
    /// choices come from bytes
    bytes: Option<Vec<u8>>,
}
#[derive(Default)]
pub struct Echo {
    pub ints: Vec<u64>,
    pub tokens: Vec<String>,
    pub hosts: Vec<String>,
    pub v4: Vec<[u8; 4]>,
    pub v6: Vec<[u16; 8]>,
    parts: Vec<Vec<u64>>,
}
/// the last few are enough
pub fn keep<T>(v: &mut Vec<T>, x: T) {
    if v.len() < 48 {
        v.push(x);
    } else {
        let i = v.len() - 1;
        v[i] = x;
        v.rotate_right(1);
    }
}

/// sizes of a coverage-guided search are below
pub const SEARCH_SIZE: u64 = 61;

/// how many bytes a choice in 0..n takes (0: any number)
fn width(n: u64) -> usize {
    match n {
        0 => 8,
        1 => 0,
        2..=0x100 => 1,
        0x101..=0x1_0000 => 2,
        0x1_0001..=0x1_0000_0000 => 4,
        _ => 8,
    }
}

impl Src {
    pub fn random(seed: u64, size: u64) -> Src {
        Src { rng: Some(Rng(seed)), replay: vec![], pos: 0, rec: vec![], size, log: choice_log(), echo: Echo::default(), forced: Default::default(), in_part: false, code: None, bytes: None }
    }
    pub fn replay(choices: Vec<u64>, size: u64) -> Src {
        Src { rng: None, replay: choices, pos: 0, rec: vec![], size, log: choice_log(), echo: Echo::default(), forced: Default::default(), in_part: false, code: None, bytes: None }
    }
    /// choices read from bytes, as a coverage-guided search makes them: as many bytes as the range needs,
    /// and the simplest choice when there are no more
    pub fn coded(bytes: Vec<u8>, size: u64) -> Src {
        Src { bytes: Some(bytes), ..Src::replay(vec![], size) }
    }
    fn decode(&mut self, n: u64) -> u64 {
        let Some(ref b) = self.bytes else { return 0 };
        let k = width(n);
        let mut v = 0u64;
        for i in (0..k).rev() {
            v = v << 8 | b.get(self.pos + i).copied().unwrap_or(0) as u64;
        }
        self.pos += k;
        if n == 0 {
            v
        } else {
            v % n
        }
    }
    fn encode(&mut self, v: u64, n: u64) {
        if let Some(ref mut c) = self.code {
            c.extend_from_slice(&v.to_le_bytes()[..width(n)]);
        }
    }
    /// bytes as they come (0 ends them): a text nobody has built
    pub fn raw(&mut self) -> Vec<u8> {
        let mut out = vec![];
        loop {
            match self.below(256) {
                0 => return out,
                b => out.push(b as u8),
            }
        }
    }
    /// a choice in 0..n; 0 is the simplest one
    pub fn below(&mut self, n: u64) -> u64 {
        let v = self.draw(n.max(1));
        self.encode(v, n.max(1));
        v
    }
    fn draw(&mut self, n: u64) -> u64 {
        let v = match self.rng {
            Some(ref mut r) => {
                // the odd choice is not made again
                let again = self.forced.pop_front().filter(|_| r.next() >> 56 > 4);
                if let Some(v) = again {
                    let v = v.min(n - 1);
                    self.record(v);
                    return v;
                }
                // multiply-shift keeps small ranges unbiased enough for testing
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
            None if self.bytes.is_some() => self.decode(n),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.record(v);
        v
    }
    pub fn full(&mut self) -> u64 {
        let v = match self.rng {
            Some(_) if !self.forced.is_empty() => self.forced.pop_front().unwrap_or(0),
            Some(ref mut r) => r.next(),
            None if self.bytes.is_some() => self.decode(0),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.record(v);
        self.encode(v, 0);
        v
    }
    fn record(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(mut f) = self.log {
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    /// makes a part of the case with `f`: with probability p percent the way an earlier part was made,
    /// apart from the odd choice
    pub fn part<T>(&mut self, p: u64, f: impl FnOnce(&mut Src) -> T) -> T {
        if self.in_part {
            return f(self);
        }
        let n = self.echo.parts.len();
        if n > 0 && self.pct(p) {
            let i = self.idx(n);
            if self.rng.is_some() {
                self.forced = self.echo.parts[n - 1 - i].clone().into();
            }
        }
        self.in_part = true;
        let at = self.rec.len();
        let x = f(self);
        self.in_part = false;
        self.forced.clear();
        if self.rec.len() - at <= 300 {
            let part = self.rec[at..].to_vec();
            let parts = &mut self.echo.parts;
            if parts.len() >= 12 {
                parts.remove(0);
            }
            parts.push(part);
        }
        x
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 1..xs.len() {
            let j = i - self.idx(i + 1);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// cases

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::engine::fail(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Ctx {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub input: String,
    /// what the running case is doing with which text, for the report of a panic
    pub quiet: bool,
}
impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c)
        }
    }
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        self.log_input();
    }
    fn log_input(&self) {
        if let Some(p) = log_path() {
            let _ = std::fs::write(format!("{p}.input"), &self.input);
        }
    }
    pub fn add_input(&mut self, s: &str) {
        self.input.push_str(s);
        self.input.push('\n');
        self.log_input();
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    /// extra work that is not a random case (exhaustive enumerations, measurements)
    pub extra: Option<fn(&mut Extra) -> Res>,
}

/// what a non-random part of a check reports
#[derive(Default)]
pub struct Extra {
    pub thorough: bool,
    pub seed: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failing_input: String,
    pub notes: BTreeMap<String, Value>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}

/// runs f; a panic in it becomes Err(description)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub struct Outcome {
    pub res: Res,
    pub ctx: Ctx,
    pub rec: Vec<u64>,
}

pub fn run_case(f: CaseFn, mut src: Src) -> Outcome {
    let mut ctx = Ctx::default();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut ctx)));
    let res = match r {
        Ok(r) => r,
        Err(_) => fail(PANIC_MSG.with(|p| p.borrow().clone())),
    };
    Outcome { res, ctx, rec: src.rec }
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

pub fn case_seed(seed: u64, id: &str, sub: &str, i: u64) -> u64 {
    let mut h = hash_bytes(format!("{seed}/{id}/{sub}").as_bytes());
    h = h.wrapping_add(i.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    let mut r = Rng(h);
    r.next()
}

pub fn case_size(i: u64) -> u64 {
    // sizes cycle so that every stretch of cases has small, medium and large ones
    const S: [u64; 20] = [3, 8, 12, 15, 20, 20, 25, 30, 30, 35, 40, 40, 45, 50, 55, 60, 70, 80, 90, 100];
    S[(i % 20) as usize]
}

// ---------------------------------------------------------------------------------------------
// shrinking

/// `seconds`: how long to go on (a check that has found one violation does not spend its time on others)
pub fn shrink(f: CaseFn, start: Vec<u64>, size: u64, budget: usize, seconds: u64) -> (Vec<u64>, Outcome) {
    let first = run_case(f, Src::replay(start.clone(), size));
    if first.res.is_ok() {
        return (start, first);
    }
    let t0 = Instant::now();
    let mut n = 0u64;
    let best = shrink_with(start, budget, |cand| {
        if t0.elapsed().as_secs() >= seconds {
            return None;
        }
        n += 1;
        HEARTBEAT[SHRINKING].store(n, Ordering::Relaxed);
        let o = run_case(f, Src::replay(cand, size));
        o.res.is_err().then_some(o.rec)
    });
    let out = run_case(f, Src::replay(best.clone(), size));
    HEARTBEAT[SHRINKING].store(0, Ordering::Relaxed);
    (best, out)
}

/// makes a sequence of choices shorter and lower while `fails` says (with the choices really made)
/// that it still fails
pub fn shrink_with(start: Vec<u64>, budget: usize, mut fails: impl FnMut(Vec<u64>) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut used = 0;
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>, used: &mut usize| -> bool {
        if *used >= budget {
            return false;
        }
        *used += 1;
        match fails(cand) {
            Some(rec) if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) => {
                *best = rec;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i >= k && k > 0 {
                i = i.min(best.len());
                if i < k {
                    break;
                }
                let mut c = best.clone();
                c.drain(i - k..i);
                if !try_(c, &mut best, &mut used) {
                    // deleting one and lowering a preceding length often goes together
                    if i > k && best.get(i - k - 1).copied().unwrap_or(0) > 0 && k <= 8 {
                        let mut c = best.clone();
                        c[i - k - 1] -= 1;
                        c.drain(i - k..i);
                        try_(c, &mut best, &mut used);
                    }
                    i = i.saturating_sub(if k > 8 { k / 2 } else { 1 });
                } else {
                    i = i.saturating_sub(k);
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero and minimise single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_(c, &mut best, &mut used) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_(c, &mut best, &mut used) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if used >= budget {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || used >= budget {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// known findings

/// what /verif/known_findings.json lists as known: key and description
pub fn known_list() -> &'static BTreeMap<String, String> {
    static L: std::sync::OnceLock<BTreeMap<String, String>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let dir = std::env::var("SDP_VERIF").ok().filter(|s| !s.is_empty()).unwrap_or_else(|| "/verif".into());
        let t = std::fs::read_to_string(format!("{dir}/known_findings.json")).unwrap_or_default();
        let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
        let mut m = BTreeMap::new();
        for k in v["known"].as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
            if let (Some(k), Some(w)) = (k["key"].as_str(), k["what"].as_str()) {
                m.insert(k.to_string(), w.to_string());
            }
        }
        m
    })
}
/// the case fails exactly as the finding `key` ("known: ...") says: a violation unless it is listed
pub fn known(cx: &mut Ctx, key: &'static str, msg: String) -> Res {
    if known_list().contains_key(key.trim_start_matches("known: ")) {
        cx.class(key);
        Ok(())
    } else {
        fail(msg)
    }
}

// ---------------------------------------------------------------------------------------------
// running a check

pub struct Settings {
    pub verif: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub threads: usize,
    pub only: Option<String>,
}

#[derive(Default)]
struct Shared {
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
}

const SHRINKING: usize = 62;
const EXTRA: usize = 63;
static HEARTBEAT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

const STACK: usize = 16 << 20;
/// runs f with the stack every case gets
pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, f).unwrap().join().unwrap())
}

/// the quick tier of the cheap checks does more (subs of few cases have them all, or are slow ones)
fn often(id: &str, sub: &Sub) -> u64 {
    if sub.quick < 20_000 {
        return 1;
    }
    match id {
        "C04" | "C07" | "C12" | "C15" | "C16" | "C17" | "C19" | "C21" => 3,
        "C05" | "C06" | "C08" | "C09" | "C10" | "C11" | "C13" | "C14" | "C18" | "C27" | "C28" => 2,
        _ => 1,
    }
}
pub fn run_prop(p: &Prop, st: &Settings) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let mut evaluations = 0u64;
    let mut distinct_total = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut per_sub: BTreeMap<String, Value> = BTreeMap::new();
    let mut violations: Vec<(String, String, String, Vec<u64>, u64)> = vec![]; // sub,msg,input,choices,size
    // a case that never returns ends this process: see guard.rs
    let extra_limit = if st.thorough { 6 * 3600 } else { 700 };
    let watchdog_on = std::sync::Arc::new(AtomicBool::new(true));
    {
        let on = watchdog_on.clone();
        let id = p.id;
        std::thread::spawn(move || {
            let mut last = [0u64; 64];
            let mut since = [Instant::now(); 64];
            while on.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for t in 0..64 {
                    let h = HEARTBEAT[t].load(Ordering::Relaxed);
                    if h == 0 || h != last[t] {
                        last[t] = h;
                        since[t] = Instant::now();
                    } else if since[t].elapsed().as_secs() > if t == EXTRA { extra_limit } else { crate::guard::LIMIT } {
                        eprintln!("{id}: one case has been running for too long");
                        std::process::exit(crate::guard::HUNG);
                    }
                }
            }
        });
    }
    for (si, sub) in p.subs.iter().enumerate() {
        if let Some(ref o) = st.only {
            if o != sub.name {
                continue;
            }
        }
        let n = ((if st.thorough { sub.thorough } else { sub.quick * often(p.id, sub) }) as f64 * st.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let lowest_fail = AtomicU64::new(u64::MAX);
        let fails: Mutex<Vec<(u64, Vec<u64>, u64, String, String)>> = Mutex::new(vec![]);
        let shared = Mutex::new(Shared::default());
        let done = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..st.threads {
                let (next, lowest_fail, fails, shared, done) = (&next, &lowest_fail, &fails, &shared, &done);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut local = Shared::default();
                        let mut cnt = 0usize;
                        let batch = (n / (st.threads as u64 * 4)).clamp(1, 64);
                        loop {
                            let b = next.fetch_add(batch, Ordering::Relaxed);
                            if b >= n || b > lowest_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            for i in b..(b + batch).min(n) {
                                if i > lowest_fail.load(Ordering::Relaxed) {
                                    break;
                                }
                                HEARTBEAT[t].store((si as u64 + 1) << 48 | (i + 1), Ordering::Relaxed);
                                crate::guard::at(t, si, i);
                                let size = case_size(i);
                                let o = run_case(sub.f, Src::random(case_seed(st.seed, p.id, sub.name, i), size));
                                cnt += 1;
                                for c in &o.ctx.classes {
                                    *local.classes.entry(c).or_insert(0) += 1;
                                }
                                if o.ctx.nontrivial {
                                    local.distinct.insert(hash_bytes(o.ctx.input.as_bytes()));
                                    if i < 2000 {
                                        local.samples.push((i, clip(&o.ctx.input, 900)));
                                        if local.samples.len() > 400 {
                                            local.samples.sort();
                                            local.samples.truncate(20);
                                        }
                                    }
                                }
                                if let Err(e) = o.res {
                                    lowest_fail.fetch_min(i, Ordering::Relaxed);
                                    fails.lock().unwrap().push((i, o.rec, size, e.msg, o.ctx.input));
                                }
                            }
                        }
                        HEARTBEAT[t].store(0, Ordering::Relaxed);
                        crate::guard::idle(t);
                        done.fetch_add(cnt, Ordering::Relaxed);
                        let mut s = shared.lock().unwrap();
                        s.distinct.extend(local.distinct);
                        for (k, v) in local.classes {
                            *s.classes.entry(k).or_insert(0) += v;
                        }
                        s.samples.extend(local.samples);
                    })
                    .unwrap();
            }
        });
        let s = shared.into_inner().unwrap();
        let ev = done.load(Ordering::Relaxed) as u64;
        evaluations += ev;
        distinct_total += s.distinct.len() as u64;
        for (k, v) in &s.classes {
            *classes.entry(format!("{}: {}", sub.name, k)).or_insert(0) += v;
        }
        let mut sm = s.samples;
        sm.sort();
        sm.dedup_by(|a, b| a.1 == b.1);
        // spread the samples over the sizes
        for k in [4usize, 11, 17] {
            if let Some(x) = sm.get(k.min(sm.len().saturating_sub(1))) {
                if samples.len() < 60 {
                    samples.push(json!({"sub": sub.name, "case": x.0, "input": x.1}));
                }
            }
        }
        per_sub.insert(sub.name.to_string(), json!({"evaluations": ev, "distinct_nontrivial": s.distinct.len()}));
        let mut f = fails.into_inner().unwrap();
        f.sort();
        if let Some((i, rec, size, msg, input)) = f.into_iter().next() {
            eprintln!("{} {}: case {} fails, shrinking ({} choices)", p.id, sub.name, i, rec.len());
            crate::guard::at(SHRINKING, si, i);
            let seconds = std::env::var("SDP_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if violations.is_empty() { 40 } else { 10 });
            let (best, out) = on_big_stack(|| shrink(sub.f, rec.clone(), size, 40_000, seconds));
            crate::guard::idle(SHRINKING);
            match out.res {
                Err(e) => violations.push((sub.name.to_string(), e.msg, out.ctx.input, best, size)),
                // a case is a pure function of its choices and of the code: when it fails among
                // others and passes alone, the code carries state from one call to the next
                Ok(()) => violations.push((
                    sub.name.to_string(),
                    format!("fails after other inputs and passes alone (the code keeps state between calls): {msg}"),
                    input,
                    rec,
                    size,
                )),
            }
        }
    }
    let mut notes: BTreeMap<String, Value> = BTreeMap::new();
    if let (Some(x), None) = (p.extra, &st.only) {
        let mut e = Extra { thorough: st.thorough, seed: st.seed, ..Extra::default() };
        crate::guard::at(EXTRA, 255, 0);
        HEARTBEAT[EXTRA].store(1, Ordering::Relaxed);
        let r = on_big_stack(|| {
            catch_unwind(AssertUnwindSafe(|| x(&mut e)))
                .unwrap_or_else(|_| fail(PANIC_MSG.with(|p| p.borrow().clone())))
        });
        HEARTBEAT[EXTRA].store(0, Ordering::Relaxed);
        crate::guard::idle(EXTRA);
        evaluations += e.evaluations;
        distinct_total += e.nontrivial;
        for (k, v) in &e.classes {
            *classes.entry(format!("extra: {k}")).or_insert(0) += v;
        }
        samples.extend(e.samples.iter().cloned());
        notes = e.notes.clone();
        per_sub.insert("extra".into(), json!({"evaluations": e.evaluations, "distinct_nontrivial": e.nontrivial}));
        if let Err(f) = r {
            if let Some(m) = f.msg.strip_prefix("ERROR:") {
                eprintln!("ERROR property={}: {}", p.id, m);
                return 4;
            }
            violations.push(("extra".into(), f.msg, e.failing_input.clone(), vec![], 0));
        }
    }
    watchdog_on.store(false, Ordering::Relaxed);
    let mut code = 0;
    for (k, w) in known_list() {
        if let Some((_, n)) = classes.iter().find(|c| c.0.ends_with(&format!("known: {k}"))) {
            println!("KNOWN-FINDING: property={} {w} ({k}, {n} cases)", p.id);
        }
    }
    for (sub, msg, input, choices, size) in &violations {
        let h = hash_bytes(format!("{sub}{msg}{input}").as_bytes());
        let dir = format!("{}/replays", st.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{:08x}.json", p.id, sub.replace(' ', "_"), h as u32);
        let body = json!({"property": p.id, "sub": sub, "size": size, "seed": st.seed, "message": msg, "input": input, "choices": choices,
            "how": format!("cd /verif && bash tools/run.sh replay {path}")});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        eprintln!("--- {} / {} ---\n{}\ninput:\n{}\n", p.id, sub, clip(msg, 3000), clip(input, 3000));
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    let ev = json!({
        "property": p.id,
        "tier": if st.thorough {"thorough"} else {"quick"},
        "seed": st.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct_total,
            "rule": p.rule,
            "samples": samples,
            "per_sub_check": per_sub,
            "classes": classes,
            "dictionary": crate::dict::stats(),
            "notes": notes,
            "exhaustive": false,
        },
        "assumptions": ["the generators and oracles in /verif/harness are right", "std number and address parsing"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", st.verif));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", st.verif, p.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR property={}: cannot write the evidence file: {e}", p.id);
        return 5;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        p.id,
        if st.thorough { "thorough" } else { "quick" },
        evaluations,
        distinct_total,
        violations.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}
