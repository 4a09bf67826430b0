//! Constants harvested from the code under test.  They bias the generators towards the values the
//! code treats specially, wherever and whatever these are; nothing is ever concluded from them.

use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub small: Vec<u64>,
    pub strings: Vec<String>,
}

fn repo() -> String {
    std::env::var("SDP_REPO").unwrap_or_else(|_| "/repo".to_string())
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(load)
}

pub fn stats() -> serde_json::Value {
    let d = dict();
    serde_json::json!({"integers": d.ints.len(), "strings": d.strings.len()})
}

fn load() -> Dict {
    let mut ints = vec![];
    let mut strings = vec![];
    let mut files: Vec<_> = std::fs::read_dir(format!("{}/src", repo()))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        if !n.ends_with(".rs") || n.ends_with("_tests.rs") {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(&f) {
            scan(&s, &mut ints, &mut strings);
        }
    }
    ints.sort();
    ints.dedup();
    strings.sort();
    strings.dedup();
    let small = ints.iter().copied().filter(|&x| x >= 3 && x <= 2000).collect();
    Dict { ints, small, strings }
}

fn scan(s: &str, ints: &mut Vec<u64>, strings: &mut Vec<String>) {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match b.get(i) {
                        Some('n') => t.push('\n'),
                        Some('r') => t.push('\r'),
                        Some('t') => t.push('\t'),
                        Some('0') => t.push('\0'),
                        Some('u') => {
                            let mut v = String::new();
                            i += 1;
                            while i + 1 < b.len() && b[i + 1] != '}' {
                                i += 1;
                                v.push(b[i]);
                            }
                            i += 1;
                            if let Some(ch) = u32::from_str_radix(&v, 16).ok().and_then(char::from_u32) {
                                t.push(ch);
                            }
                        }
                        Some(x) => t.push(*x),
                        None => {}
                    }
                } else {
                    t.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if !t.is_empty() && t.chars().count() <= 40 {
                strings.push(t);
            }
        } else if c == '\'' {
            // character literal (or a lifetime)
            if b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' {
                strings.push(b[i + 1].to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut t = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                t.push(b[i]);
                i += 1;
            }
            let t = t.replace('_', "");
            let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"]
                .iter()
                .find_map(|x| if t.starts_with("0x") { None } else { t.strip_suffix(x) })
                .unwrap_or(&t);
            let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { t.parse().ok() };
            if let Some(v) = v {
                ints.push(v);
            }
        } else {
            i += 1;
        }
    }
}

/// the repository's sample descriptions, as seeds for mutation
pub fn samples() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<(String, String)> = std::fs::read_dir(format!("{}/examples/sdps", repo()))
            .map(|d| {
                d.filter_map(|e| e.ok())
                    .filter_map(|e| Some((e.path().to_string_lossy().to_string(), std::fs::read_to_string(e.path()).ok()?)))
                    .collect()
            })
            .unwrap_or_default();
        v.sort();
        v.into_iter().map(|x| x.1).filter(|s| !s.is_empty()).collect()
    })
}
