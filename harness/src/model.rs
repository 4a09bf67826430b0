//! Reference model of which sequences of (individually valid) lines make a description, and of
//! the session they give.  Written from the listed properties C03, C12 and C13.

use crate::gen::{self, Meta};
use crate::sess::L;
use std::collections::HashSet;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// accepted, with this projection
    Ok(Vec<String>),
    /// line with this index does not belong where it stands
    Misplaced(usize),
    /// fewer lines than any description has
    TooShort,
    /// a rule across lines is broken
    Inconsistent(&'static str),
}

#[derive(Default)]
struct Sec<'a> {
    head: Vec<String>,
    c: Option<&'a L>,
    b: Vec<&'a L>,
    a: Vec<&'a L>,
    formats: Vec<String>,
}

pub fn judge(lines: &[L]) -> Verdict {
    if lines.len() < 4 {
        return Verdict::TooShort;
    }
    for (i, t) in ['v', 'o', 's'].iter().enumerate() {
        if lines[i].ty != *t {
            return Verdict::Misplaced(i);
        }
    }
    let mut secs: Vec<Sec> = vec![Sec::default()];
    for l in &lines[..3] {
        secs[0].head.push(l.canon.clone());
    }
    let mut timing: Option<&L> = None;
    for (i, l) in lines.iter().enumerate().skip(3) {
        let media = secs.len() > 1;
        let cur = secs.last_mut().unwrap();
        match l.ty {
            'm' => {
                let formats = match &l.meta {
                    Meta::Media { formats } => formats.clone(),
                    _ => vec![],
                };
                secs.push(Sec { head: vec![l.canon.clone()], formats, ..Sec::default() });
            }
            'c' => {
                if media && cur.c.is_some() {
                    return Verdict::Misplaced(i);
                }
                cur.c = Some(l);
            }
            'b' => cur.b.push(l),
            't' if !media => timing = Some(l),
            'a' => {
                if media && l.kind == "dtls-message" {
                    continue;
                }
                let ok = if media { gen::media_ok(l.kind) } else { gen::session_ok(l.kind) };
                if !ok {
                    return Verdict::Misplaced(i);
                }
                cur.a.push(l);
            }
            _ => return Verdict::Misplaced(i),
        }
    }
    // rules across lines
    let t = match timing {
        None => return Verdict::Inconsistent("no timing"),
        Some(t) => t,
    };
    if secs[0].c.is_none() && secs[1..].iter().any(|s| s.c.is_none()) {
        return Verdict::Inconsistent("no connection");
    }
    let has = |s: &Sec, k: &str| s.a.iter().any(|l| l.kind == k);
    if has(&secs[0], "extmap") && secs[1..].iter().any(|s| has(s, "extmap")) {
        return Verdict::Inconsistent("extmap at both levels");
    }
    for s in &secs[1..] {
        if has(s, "rtcp-mux-only") && !has(s, "rtcp-mux") {
            return Verdict::Inconsistent("rtcp-mux-only without rtcp-mux");
        }
        let (mut send, mut recv): (HashSet<&str>, HashSet<&str>) = Default::default();
        let formats: HashSet<&str> = s.formats.iter().map(|f| f.as_str()).collect();
        for l in &s.a {
            if let Meta::Rid { id, send: d, pts } = &l.meta {
                if *d {
                    send.insert(id);
                } else {
                    recv.insert(id);
                }
                for p in pts {
                    if !formats.contains(p.to_string().as_str()) {
                        return Verdict::Inconsistent("rid format not on the media line");
                    }
                }
            }
        }
        for l in &s.a {
            if let Meta::Simulcast { send: us, recv: ur } = &l.meta {
                if us.iter().any(|i| !send.contains(i.as_str())) || ur.iter().any(|i| !recv.contains(i.as_str())) {
                    return Verdict::Inconsistent("simulcast identifier without rid");
                }
            }
        }
    }
    let mut out = vec![];
    for (i, s) in secs.iter().enumerate() {
        out.extend(s.head.iter().cloned());
        if i == 0 {
            out.push(t.canon.clone());
        }
        out.extend(s.c.iter().map(|l| l.canon.clone()));
        out.extend(s.b.iter().map(|l| l.canon.clone()));
        out.extend(s.a.iter().map(|l| l.canon.clone()));
    }
    Verdict::Ok(out)
}
