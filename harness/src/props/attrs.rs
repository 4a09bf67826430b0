//! C04 to C07: every attribute yields exactly the values written.

use super::documented;
use crate::engine::*;
use crate::gen::{self, Env, GAttr};
use crate::proj;
use std::str::FromStr;
use webrtc_sdp::attribute_type::{parse_attribute, SdpAttribute, SdpAttributeRtcpFbType, SdpAttributeType, SdpSingleDirection};
use webrtc_sdp::{parse_sdp_line, SdpType};

pub const ICE: &[&str] = &[
    "candidate", "remote-candidates", "ice-ufrag", "ice-pwd", "ice-options", "ice-pacing", "fingerprint", "setup", "dtls-message", "rtcp",
    "sctp-port", "sctpmap", "max-message-size",
];
pub const CODEC: &[&str] = &["rtpmap", "fmtp", "rtcp-fb", "framerate", "ptime", "maxptime"];
pub const IMAGE: &[&str] = &["rid", "simulcast", "imageattr"];
pub const IDENT: &[&str] = &["ssrc", "ssrc-group", "group", "msid", "msid-semantic", "mid", "label", "identity", "extmap"];

pub fn parse_type(t: Result<SdpType, webrtc_sdp::error::SdpParserInternalError>) -> Result<SdpAttribute, String> {
    match t {
        Ok(SdpType::Attribute(a)) => Ok(a),
        Ok(x) => Err(format!("not an attribute: {}", proj::sdp_type(&x, false))),
        Err(e) => Err(format!("rejected: {e}")),
    }
}

fn exact(how: &str, wire: &str, r: Result<SdpAttribute, String>, g: &GAttr) -> Result<SdpAttribute, Fail> {
    match r {
        Err(e) => fail(format!("{how} of a valid attribute: {e}\n  text {wire:?}\n  expected {}", g.canon)),
        Ok(a) => {
            let c = proj::attr(&a, false);
            if c == g.canon {
                Ok(a)
            } else {
                fail(format!("{how} of {wire:?}\n  expected {}\n  found    {c}", g.canon))
            }
        }
    }
}

/// the numbers that foreign code knows some of the values by ("explicitly 1 and 2 to match the defines in
/// the C++ glue code", "has \"app\" in the place of 1")
fn numbers(a: &SdpAttribute) -> Res {
    let (what, n, want) = match a {
        SdpAttribute::Rid(r) => match r.direction {
            SdpSingleDirection::Send => ("send", r.direction.clone() as i32, 1),
            SdpSingleDirection::Recv => ("recv", r.direction.clone() as i32, 2),
        },
        SdpAttribute::Rtcpfb(f) => {
            let n = f.feedback_type.clone() as i32;
            match f.feedback_type {
                SdpAttributeRtcpFbType::Ack => ("ack", n, 0),
                SdpAttributeRtcpFbType::Ccm => ("ccm", n, 2),
                SdpAttributeRtcpFbType::Nack => ("nack", n, 3),
                SdpAttributeRtcpFbType::TrrInt => ("trr-int", n, 4),
                SdpAttributeRtcpFbType::Remb => ("goog-remb", n, 5),
                SdpAttributeRtcpFbType::TransCc => ("transport-cc", n, 6),
            }
        }
        _ => return Ok(()),
    };
    ensure!(n == want, "the number of {what} is {n} instead of {want}");
    Ok(())
}

pub fn check_attr(s: &mut Src, cx: &mut Ctx, g: &GAttr) -> Res {
    let wire = g.spelled(s);
    cx.input(format!("a={wire}"));
    cx.nontrivial = true;
    cx.class(g.kind);
    let a = exact("SdpAttribute::from_str", &wire, SdpAttribute::from_str(&wire).map_err(|e| format!("rejected: {e}")), g)?;
    let pad = *s.pick(&["", " ", "\t"]);
    let padded = format!("{pad}{wire}{pad}");
    exact("parse_attribute", &padded, parse_type(parse_attribute(&padded)), g)?;
    let n = s.below(100_000) as usize;
    let line = format!("{}={padded}", if s.flip() { "a" } else { "A" });
    match parse_sdp_line(&line, n) {
        Err(e) => return fail(format!("parse_sdp_line({line:?}): {e}")),
        Ok(l) => {
            ensure!(l.line_number == n, "parse_sdp_line({line:?}, {n}) reports line {}", l.line_number);
            ensure!(l.text == line, "parse_sdp_line({line:?}) reports text {:?}", l.text);
            exact("parse_sdp_line", &line, parse_type(Ok(l.sdp_type)), g)?;
        }
    }
    numbers(&a)?;
    // its kind
    let k = SdpAttributeType::from(&a);
    ensure!(k.to_string() == g.kind, "kind of {wire:?} is {k}");
    // printing
    let t = a.to_string();
    if !g.printed && t.is_empty() {
        cx.class("nothing to print");
        return Ok(());
    }
    ensure!(
        t.split(':').next() == Some(g.kind),
        "{wire:?} prints as {t:?}, which does not start with the attribute's name"
    );
    let b = exact("parsing the printed form", &t, SdpAttribute::from_str(&t).map_err(|e| format!("rejected: {e}")), g);
    let b = match b {
        Ok(b) => b,
        Err(e) => {
            // an empty msid list may come back as the wildcard
            let c = SdpAttribute::from_str(&t).map(|b| proj::attr(&b, true));
            if c.is_ok() && c.ok() == Some(proj::attr(&a, true)) {
                cx.class("normalised on printing");
                return Ok(());
            }
            return Err(Fail { msg: format!("{}\n  printed from {wire:?}", e.msg) });
        }
    };
    let t2 = b.to_string();
    ensure!(t == t2, "printing is not stable: {t:?} then {t2:?}");
    let c2 = proj::attr(&a.clone(), false);
    ensure!(c2 == g.canon, "the clone differs: {c2} instead of {}", g.canon);
    Ok(())
}

fn run_kinds(s: &mut Src, cx: &mut Ctx, kinds: &[&'static str]) -> Res {
    let k = *s.pick(kinds);
    let g = gen::attr(s, k, &Env::default());
    check_attr(s, cx, &g)
}
fn ice(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, ICE)
}
fn candidate(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, &["candidate"])
}
fn codec(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, CODEC)
}
fn fmtp(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, &["fmtp"])
}
fn image(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, IMAGE)
}
fn ident(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, IDENT)
}
fn flags(s: &mut Src, cx: &mut Ctx) -> Res {
    run_kinds(s, cx, gen::FLAGS)
}

const RULE: &str = "a case is one attribute of the property's kinds with generated values, optional parts, order and spelling; non-trivial: every one is valid and carries values chosen by the generator, which also says what must come out (distinct texts are counted)";

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f| Sub { name, quick, thorough, f };
    vec![
        Prop { id: "C04", rule: RULE, subs: vec![sub("attributes", 600_000, 12_000_000, ice as CaseFn), sub("candidate", 300_000, 8_000_000, candidate), sub("documented", 20_000, 500_000, documented::c04)], extra: None },
        Prop { id: "C05", rule: RULE, subs: vec![sub("attributes", 500_000, 10_000_000, codec as CaseFn), sub("fmtp", 400_000, 10_000_000, fmtp)], extra: None },
        Prop { id: "C06", rule: RULE, subs: vec![sub("attributes", 500_000, 10_000_000, image as CaseFn), sub("documented", 30_000, 500_000, documented::c06)], extra: None },
        Prop { id: "C07", rule: RULE, subs: vec![sub("attributes", 600_000, 12_000_000, ident as CaseFn), sub("flags", 20_000, 100_000, flags), sub("documented", 10_000, 100_000, documented::c07)], extra: None },
    ]
}
