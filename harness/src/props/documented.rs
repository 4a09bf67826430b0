//! Forms that the grammar quoted in the code allows and that the code does not take: the known
//! findings of C04, C06 and C07. Each case either comes out right, or exactly as the finding
//! says, or is a violation.

use super::attrs::parse_type;
use crate::engine::*;
use std::str::FromStr;
use crate::gen::{self, Env};
use crate::proj;
use webrtc_sdp::attribute_type::{parse_attribute, SdpAttribute};

fn parsed(v: &str) -> Result<SdpAttribute, String> {
    parse_type(parse_attribute(v))
}
fn words(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))
}

/// remote-candidates with more than one candidate
pub fn c04(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = gen::count(s, 2, 4, 40);
    let g: Vec<gen::GAttr> = (0..n).map(|_| gen::attr(s, "remote-candidates", &Env::default())).collect();
    let vals: Vec<String> = g.iter().map(|g| g.val.clone().unwrap()).collect();
    let t = format!("remote-candidates:{}", gen::join_gap(s, &vals));
    cx.input(format!("a={t}"));
    cx.nontrivial = true;
    let a = match parsed(&t) {
        Ok(a) => a,
        Err(e) => return fail(format!("{t:?}: {e}")),
    };
    let c = proj::attr(&a, false);
    if c == g[0].canon {
        return known(cx, "known: remote-candidates-list", format!("{t:?} with {n} candidates keeps the first only"));
    }
    // whatever holds several candidates must print them all
    let p = a.to_string();
    let want: Vec<String> = vals.iter().flat_map(|v| v.split_whitespace().map(|w| w.to_ascii_lowercase())).collect();
    let got: Vec<String> = p.trim_start_matches("remote-candidates:").split_whitespace().map(|w| w.to_ascii_lowercase()).collect();
    ensure!(got.len() == want.len(), "{t:?} prints as {p:?}");
    for i in 0..want.len() {
        // addresses have several spellings
        ensure!(i % 3 == 1 || want[i].trim_start_matches('0') == got[i].trim_start_matches('0'), "{t:?} prints as {p:?}");
    }
    Ok(())
}

/// what is listed is that these are rejected, not that they are ignored
fn fatal(t: &str) -> Res {
    let e = SdpAttribute::from_str(t);
    ensure!(matches!(e, Err(webrtc_sdp::error::SdpParserInternalError::Generic(_))), "{t:?} is {:?}", e.map(|_| ()).map_err(|e| e.to_string()));
    Ok(())
}

/// "depend=", parameters without a value, and the list of paused streams of the old draft
pub fn c06(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let id = gen::rid_id(s);
    let dir = *s.pick(&["send", "recv"]);
    match s.below(3) {
        0 => {
            let n = gen::count(s, 1, 4, 30);
            let ids: Vec<String> = (0..n).map(|_| gen::rid_id(s)).collect();
            let p = format!("depend={}", ids.join(","));
            let t = format!("rid:{id} {dir} {p}");
            cx.input(format!("a={t}"));
            let c = match parsed(&t) {
                Ok(a) => proj::attr(&a, false),
                Err(e) => return fail(format!("{t:?}: {e}")),
            };
            let form = |u: &str, d: &str| format!("rid {id:?} {dir} pt=[] w=0 h=0 fps=0 fs=0 br=0 pps=0 unknown={u} depends={d}");
            if c == form(&words(&[p.clone()]), "[]") {
                return known(cx, "known: rid-depend", format!("the dependencies of {t:?} end up as an unknown parameter"));
            }
            ensure!(c == form("[]", &words(&ids)), "{t:?} is {c}");
        }
        1 => {
            let k = *s.pick(&["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps", "x-flag", "max-bpp"]);
            let rest = *s.pick(&["", ";max-fps=30", ";x=1"]);
            let t = format!("rid:{id} {dir} {k}{rest}");
            cx.input(format!("a={t}"));
            if let Err(e) = parsed(&t) {
                fatal(&t)?;
                return known(cx, "known: rid-parameter-without-value", format!("{t:?} is {e}"));
            }
        }
        _ => {
            let n = gen::count(s, 1, 3, 10);
            let ids: Vec<String> = (0..n).map(|i| format!("r{i}")).collect();
            let ps: Vec<String> = ids.iter().filter(|_| s.flip()).cloned().collect();
            let ps = if ps.is_empty() { vec![ids[0].clone()] } else { ps };
            let two = s.flip();
            let mut t = format!("simulcast:{dir} rid={}", ids.join(";"));
            if two {
                t += &format!(" {} rid=q", if dir == "send" { "recv" } else { "send" });
            }
            t += &format!(" paused={}", ps.join(","));
            cx.input(format!("a={t}"));
            let a = match parsed(&t) {
                Ok(a) => a,
                Err(e) => {
                    ensure!(!two, "{t:?}: {e}");
                    fatal(&t)?;
                    return known(cx, "known: simulcast-paused-list", format!("{t:?} is {e}"));
                }
            };
            let mark = |p: bool| -> Vec<(String, bool)> { ids.iter().map(|i| (i.clone(), p && ps.contains(i))).collect() };
            let got: Vec<(String, bool)> = match &a {
                SdpAttribute::Simulcast(x) => (if dir == "send" { &x.send } else { &x.receive }).iter().flat_map(|v| v.ids.iter().map(|i| (i.id.clone(), i.paused))).collect(),
                _ => vec![],
            };
            if got == mark(false) {
                return known(cx, "known: simulcast-paused-list", format!("the paused list of {t:?} is dropped"));
            }
            ensure!(got == mark(true), "{t:?} holds {got:?}");
        }
    }
    Ok(())
}

/// header extensions that are inactive
pub fn c07(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let id = gen::int(s, 0, 65535);
    let w = gen::rcase(s, "inactive");
    let u = gen::token(s);
    let t = format!("extmap:{id}/{w} {u}");
    cx.input(format!("a={t}"));
    match parsed(&t) {
        Err(e) => {
            fatal(&t)?;
            known(cx, "known: extmap-inactive", format!("{t:?} is {e}"))
        }
        Ok(a) => {
            let p = a.to_string();
            ensure!(p == format!("extmap:{id}/inactive {u}"), "{t:?} prints as {p:?}");
            Ok(())
        }
    }
}
