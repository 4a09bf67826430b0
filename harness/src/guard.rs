//! A check runs in a child process, so that a case that kills the process (an exhausted stack, an
//! aborted allocation) or never returns is an answer about the code, found, repeated alone and
//! minimised, instead of the end of the check.

use crate::engine::{case_seed, clip, install_panic_hook, on_big_stack, run_case, shrink_with, CaseFn, Prop, Settings, Src};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// how long one case may take; the slowest one takes well below a second
pub const LIMIT: u64 = 60;
pub const HUNG: i32 = 3;

// ---- child side: where each thread is -------------------------------------------------------

static PROGRESS: OnceLock<Option<File>> = OnceLock::new();

/// thread t is about to run case i of sub-check s (s = 255: the part that is not a random case)
pub fn at(t: usize, s: usize, i: u64) {
    let f = PROGRESS.get_or_init(|| {
        let p = std::env::var("SDP_PROGRESS").ok()?;
        std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
    });
    if let Some(f) = f {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(s as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&(i + 1).to_le_bytes());
        let _ = f.write_at(&b, t as u64 * 16);
    }
}
pub fn idle(t: usize) {
    if let Some(Some(f)) = PROGRESS.get() {
        let _ = f.write_at(&[0u8; 16], t as u64 * 16);
    }
}

fn read_progress(path: &str) -> Vec<(usize, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .filter(|c| c.0 > 0)
        .map(|c| (c.0 as usize - 1, c.1 - 1))
        .collect()
}

// ---- parent side ----------------------------------------------------------------------------

enum End {
    Code(i32),
    Killed(i32),
    Hung,
}

fn wait(mut c: std::process::Child, limit: Option<u64>) -> End {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(HUNG), _) => End::Hung,
                    (Some(x), _) => End::Code(x),
                    (None, s) => End::Killed(s.unwrap_or(0)),
                }
            }
            Ok(None) => {}
            Err(_) => return End::Code(5),
        }
        if limit.is_some_and(|l| t0.elapsed().as_secs() >= l) {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hung;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 300 { 1 } else { 10 }));
    }
}

fn base(st: &Settings, id: &str, what: &str) -> String {
    format!("{}/harness/target/{what}-{id}-{}", st.verif, std::process::id())
}

/// runs one case alone: Some(how it dies) or None
fn alone(st: &Settings, id: &str, sub: &str, size: u64, case: &Value, limit: u64) -> (Option<String>, Vec<u64>, String) {
    // (a case that only fails, without ending the process, is one whose minimisation ended it)
    let path = base(st, id, "one");
    let _ = std::fs::write(&path, json!({"property": id, "sub": sub, "size": size, "case": case}).to_string());
    for x in ["choices", "input"] {
        let _ = std::fs::remove_file(format!("{path}.{x}"));
    }
    let c = Command::new(std::env::current_exe().unwrap())
        .args(["one", &path])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    let how = match c.map(|c| wait(c, Some(limit))) {
        Ok(End::Killed(s)) => Some(format!("the process is killed by signal {s} (stack or memory exhausted, or an abort)")),
        Ok(End::Hung) => Some(format!("the case does not end within {limit} s")),
        Ok(End::Code(1)) => Some("the case fails, and others like it end the process".to_string()),
        _ => None,
    };
    let ch = std::fs::read(format!("{path}.choices")).unwrap_or_default();
    let ch = ch.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let input = String::from_utf8_lossy(&std::fs::read(format!("{path}.input")).unwrap_or_default()).into_owned();
    for x in ["", ".choices", ".input"] {
        let _ = std::fs::remove_file(format!("{path}{x}"));
    }
    (how, ch, input)
}

/// runs the check in a child and judges how the child ends
pub fn run_guarded(p: &Prop, st: &Settings) -> i32 {
    let t0 = Instant::now();
    let progress = base(st, p.id, "progress");
    let _ = std::fs::remove_file(&progress);
    let c = Command::new(std::env::current_exe().unwrap())
        .args(["inner", p.id])
        .env("SDP_PROGRESS", &progress)
        .spawn();
    let end = match c {
        Ok(c) => wait(c, None),
        Err(e) => {
            eprintln!("ERROR property={}: cannot start the check: {e}", p.id);
            return 5;
        }
    };
    let places = read_progress(&progress);
    let _ = std::fs::remove_file(&progress);
    let how = match end {
        End::Code(x) => return x,
        End::Hung => format!("a case does not end within {LIMIT} s"),
        End::Killed(s) => format!("the process is killed by signal {s}"),
    };
    eprintln!("{}: {how}; looking for the case", p.id);
    for (s, i) in places {
        if s == 255 {
            let msg = format!("{how}, in the part of the check that is not a random case (part {i})");
            return report(p, st, "extra", 0, &msg, "", &[], t0);
        }
        let Some(sub) = p.subs.get(s) else { continue };
        let size = crate::engine::case_size(i);
        let seed = json!({"seed": case_seed(st.seed, p.id, sub.name, i)});
        let (died, choices, input) = alone(st, p.id, sub.name, size, &seed, LIMIT);
        let Some(msg) = died else { continue };
        let best = shrink_dying(st, p.id, sub.name, size, choices, &msg, input);
        return report(p, st, sub.name, size, &best.0, &best.1, &best.2, t0);
    }
    eprintln!("ERROR property={}: {how}, and no case does so alone; no verdict", p.id);
    3
}

/// minimises a case that ends its process: message, input, choices
fn shrink_dying(st: &Settings, id: &str, sub: &str, size: u64, choices: Vec<u64>, msg: &str, input: String) -> (String, String, Vec<u64>) {
    let limit = if msg.contains("signal") { LIMIT } else { 8 };
    let kills = !msg.starts_with("the case fails");
    let (mut best_msg, mut best_input) = (msg.to_string(), input);
    let begin = Instant::now();
    let best = shrink_with(choices, 400, |cand| {
        if begin.elapsed().as_secs() > 90 {
            return None;
        }
        let (died, ch, input) = alone(st, id, sub, size, &json!({ "choices": cand }), limit);
        let m = died.filter(|m| !kills || !m.starts_with("the case fails"))?;
        best_msg = m;
        best_input = input;
        Some(ch)
    });
    (best_msg, best_input, best)
}

#[allow(clippy::too_many_arguments)]
fn report(p: &Prop, st: &Settings, sub: &str, size: u64, msg: &str, input: &str, choices: &[u64], t0: Instant) -> i32 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in format!("{sub}{msg}{input}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01B3);
    }
    let _ = std::fs::create_dir_all(format!("{}/replays", st.verif));
    let path = format!("{}/replays/{}-{}-{:08x}.json", st.verif, p.id, sub.replace(' ', "_"), h as u32);
    let body = json!({"property": p.id, "sub": sub, "size": size, "seed": st.seed, "message": msg, "input": input, "choices": choices,
        "how": format!("cd /verif && bash tools/run.sh replay {path}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    eprintln!("--- {} / {} ---\n{}\ninput:\n{}\n", p.id, sub, msg, clip(input, 3000));
    println!("VIOLATION property={} replay={}", p.id, path);
    let ev = json!({
        "property": p.id, "tier": if st.thorough {"thorough"} else {"quick"}, "seed": st.seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [{"sub": sub, "input": clip(input, 900)}],
            "classes": BTreeMap::<String, u64>::new(), "notes": {"ended early": msg}, "exhaustive": false},
        "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", st.verif));
    let _ = std::fs::write(format!("{}/evidence/{}.json", st.verif, p.id), serde_json::to_string_pretty(&ev).unwrap());
    1
}

fn settings() -> Settings {
    let verif = std::env::var("SDP_VERIF").ok().filter(|s| !s.is_empty()).unwrap_or_else(|| "/verif".into());
    Settings { verif, seed: 1, thorough: true, scale: 1.0, threads: 1, only: None }
}

/// minimises and reports an input of the coverage-guided search (a byte for the size, then the choices)
pub fn judge(id: &str, sub: &str, file: &str) -> i32 {
    let t0 = Instant::now();
    let st = settings();
    let f = crate::props::case(id, sub).expect("sub check");
    let all = crate::props::all();
    let p = all.iter().find(|p| p.id == id).expect("property");
    let bytes = std::fs::read(file).unwrap_or_default();
    let size = bytes.first().copied().unwrap_or(0) as u64 % crate::engine::SEARCH_SIZE;
    let bytes = bytes.get(1..).unwrap_or(&[]).to_vec();
    let (died, choices, input) = alone(&st, id, sub, size, &json!({ "bytes": bytes }), LIMIT);
    match died {
        Some(msg) if !msg.starts_with("the case fails") => {
            let best = shrink_dying(&st, id, sub, size, choices, &msg, input);
            report(p, &st, sub, size, &best.0, &best.1, &best.2, t0)
        }
        _ => {
            install_panic_hook();
            let o = on_big_stack(|| run_case(f, Src::coded(bytes, size)));
            if o.res.is_ok() {
                eprintln!("{id}/{sub}: {file} passes when it runs alone");
                return 0;
            }
            let (best, out) = on_big_stack(|| crate::engine::shrink(f, o.rec, size, 40_000, 40));
            report(p, &st, sub, size, &out.res.err().map_or(String::new(), |e| e.msg), &out.ctx.input, &best, t0)
        }
    }
}

/// runs the case of a replay file alone and says how it ends
pub fn replay(path: &str, v: &Value, id: &str, sub: &str, f: CaseFn) -> i32 {
    let size = v["size"].as_u64().unwrap_or(30);
    let st = settings();
    let _ = std::fs::create_dir_all(format!("{}/harness/target", st.verif));
    let (died, _, input) = alone(&st, id, sub, size, &json!({"choices": v["choices"]}), LIMIT);
    let died = died.filter(|m| !m.starts_with("the case fails"));
    let (input, msg) = match died {
        Some(m) => (input, Some(m)),
        None => {
            install_panic_hook();
            let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let o = on_big_stack(|| run_case(f, Src::replay(choices, size)));
            (o.ctx.input, o.res.err().map(|e| e.msg))
        }
    };
    println!("input:\n{input}");
    match msg {
        None => {
            println!("passes");
            0
        }
        Some(m) => {
            println!("fails: {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}
