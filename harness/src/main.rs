use sdp_harness::engine::{install_panic_hook, log_to, on_big_stack, run_case, run_prop, Settings, Src};
use sdp_harness::guard::{replay, run_guarded};
use sdp_harness::props;

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|s| !s.is_empty())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "work" {
        // what C22 counts the instructions of
        let t = std::fs::read_to_string(args.get(2).map(|s| s.as_str()).unwrap_or("")).unwrap_or_default();
        std::hint::black_box(props::cost::work(&t));
        return;
    }
    if cmd == "pure" {
        // C25: texts in a process of their own
        install_panic_hook();
        let mode = args.get(2).cloned().unwrap_or_default();
        on_big_stack(|| props::pure::child(&mode));
        return;
    }
    let all = props::all();
    match cmd {
        "list" => {
            for p in &all {
                println!("{}", p.id);
            }
        }
        "check" | "inner" => {
            let id = args.get(2).cloned().unwrap_or_default();
            let p = match all.iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    eprintln!("no property {id}");
                    std::process::exit(2);
                }
            };
            let st = Settings {
                verif: env("SDP_VERIF").unwrap_or_else(|| "/verif".into()),
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
                scale: env("SDP_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                threads: env("SDP_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
                only: env("SDP_ONLY"),
            };
            std::process::exit(if cmd == "inner" { run_prop(p, &st) } else { run_guarded(p, &st) });
        }
        "one" => {
            // a single case, whose choices and input are written down as they are made
            let path = args.get(2).cloned().unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("case file")).expect("json");
            let f = props::case(v["property"].as_str().unwrap(), v["sub"].as_str().unwrap()).expect("sub check");
            let size = v["size"].as_u64().unwrap_or(30);
            install_panic_hook();
            log_to(&path);
            let src = match (v["case"]["seed"].as_u64(), v["case"]["bytes"].as_array()) {
                (Some(s), _) => Src::random(s, size),
                (_, Some(b)) => Src::coded(b.iter().map(|x| x.as_u64().unwrap() as u8).collect(), size),
                _ => Src::replay(v["case"]["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(), size),
            };
            std::process::exit(on_big_stack(|| run_case(f, src).res.is_err()) as i32);
        }
        "subs" => {
            // what a coverage-guided search can drive (the others measure, or start processes)
            let id = args.get(2).cloned().unwrap_or_default();
            if ["C22", "C24", "C25"].contains(&id.as_str()) {
                return;
            }
            let big = ["large", "long", "more"];
            for s in all.iter().filter(|p| p.id == id).flat_map(|p| &p.subs).filter(|s| s.quick >= 1000 && !big.contains(&s.name)) {
                println!("{}", s.name);
            }
            if props::raw(&id).is_some() {
                println!("raw");
            }
        }
        "seeds" => {
            // random cases as bytes, for a coverage-guided search to start from
            let (id, sub, dir) = (&args[2], &args[3], &args[4]);
            let n: u64 = args[5].parse().expect("count");
            let f = props::case(id, sub).expect("sub check");
            install_panic_hook();
            for i in 0..n {
                let size = 3 + i % 38;
                let mut s = Src::random(sdp_harness::engine::case_seed(1, "seeds", "", i), size);
                let mut b = vec![size as u8];
                if sub == "raw" {
                    b.extend(match i % 4 {
                        0 => sdp_harness::sess::base(&mut s),
                        1 => sdp_harness::sess::mutated(&mut s),
                        _ => sdp_harness::sess::some_line(&mut s),
                    }.bytes());
                } else {
                    s.code = Some(vec![]);
                    b.extend(on_big_stack(|| {
                        let mut cx = Default::default();
                        let _ = sdp_harness::engine::guarded(|| f(&mut s, &mut cx));
                        s.code.take().unwrap()
                    }));
                }
                if b.len() <= 4000 {
                    std::fs::write(format!("{dir}/g{i}"), b).expect("seed file");
                }
            }
        }
        "judge" => std::process::exit(sdp_harness::guard::judge(&args[2], &args[3], &args[4])),
        "replay" => {
            let path = args.get(2).cloned().unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("replay file")).expect("json");
            let (id, sub) = (v["property"].as_str().unwrap(), v["sub"].as_str().unwrap());
            if sub == "extra" {
                println!("this finding is not a random case; run: bash tools/run.sh check {id}\n{}\n{}", v["message"], v["input"]);
                return;
            }
            std::process::exit(replay(&path, &v, id, sub, props::case(id, sub).expect("sub check")));
        }
        _ => {
            eprintln!("usage: sdp-harness list | check ID | replay FILE");
            std::process::exit(2);
        }
    }
}
