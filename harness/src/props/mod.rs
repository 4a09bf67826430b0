//! The checks, one `Prop` for each listed property.

use crate::engine::{CaseFn, Ctx, Prop, Src};
use webrtc_sdp::anonymizer::StatefulSdpAnonymizer;

pub mod anon;
pub mod attrs;
pub mod cost;
pub mod documented;
pub mod edit;
pub mod features;
pub mod large;
pub mod pure;
pub mod relate;
pub mod report;
pub mod session;
pub mod values;
pub mod wire;

/// what a search over raw text checks: the relations that need no record of how the text was made
pub fn raw(id: &str) -> Option<CaseFn> {
    fn text(s: &mut Src, cx: &mut Ctx) -> String {
        let b = s.raw();
        let mut t = String::from_utf8_lossy(&b).into_owned();
        if !t.contains('\n') {
            // one line, in a small description
            t = crate::sess::minimal(&t, b.len() % 2 == 0);
        }
        cx.input(&t);
        t
    }
    Some(match id {
        "C01" => |s, cx| {
            let t = text(s, cx);
            values::drive(&t, true);
            for (i, l) in t.lines().enumerate() {
                values::drive_line(l, i);
                values::drive_piece(l.get(2..).unwrap_or(""));
            }
            Ok(())
        },
        "C02" => |s, cx| session::round_trip(&text(s, cx), cx).map(|_| ()),
        "C08" => |s, cx| session::modes(&text(s, cx), cx),
        "C10" => |s, cx| session::places(&text(s, cx), cx),
        "C11" => |s, cx| session::presentation(&text(s, cx), s, cx),
        "C18" => |s, cx| match webrtc_sdp::parse_sdp(&text(s, cx), false) {
            Ok(x) => anon::check_copy(&x, &mut StatefulSdpAnonymizer::new(), cx).map(|_| ()),
            Err(_) => Ok(()),
        },
        "C23" => |s, cx| {
            let t = text(s, cx);
            report::errors(&t, cx)?;
            match webrtc_sdp::parse_sdp(&t, false) {
                Ok(x) => report::whole(&x, cx),
                Err(_) => Ok(()),
            }
        },
        "C26" => |s, cx| match webrtc_sdp::parse_sdp(&text(s, cx), false) {
            Ok(x) => relate::masked_reads(&x, &mut StatefulSdpAnonymizer::new(), cx),
            Err(_) => Ok(()),
        },
        "C27" => |s, cx| relate::whole(&text(s, cx), cx),
        "C29" => |s, cx| wire::any(&text(s, cx), cx),
        "C28" => |s, cx| relate::lines_alone(&text(s, cx), s, cx),
        _ => return None,
    })
}
/// a check's case function by name
pub fn case(id: &str, sub: &str) -> Option<CaseFn> {
    if sub == "raw" {
        return raw(id);
    }
    all().iter().find(|p| p.id == id)?.subs.iter().find(|s| s.name == sub).map(|s| s.f)
}

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = vec![];
    v.extend(attrs::props());
    v.extend(session::props());
    v.extend(values::props());
    v.extend(anon::props());
    v.extend(edit::props());
    v.extend(cost::props());
    v.extend(report::props());
    v.extend(features::props());
    v.extend(pure::props());
    v.extend(relate::props());
    v.extend(wire::props());
    for p in v.iter_mut() {
        p.subs.extend(large::sub(p.id));
        p.subs.extend(large::more(p.id));
    }
    v
}
