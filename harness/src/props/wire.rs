//! C29: a strict reader of the RFC grammars gets the same values out of what is printed.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::props::edit;
use crate::sess::{self, Opt};
use crate::{build, proj, wire};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::{SdpAttribute, SdpAttributeType};
use webrtc_sdp::media_type::*;
use webrtc_sdp::{parse_sdp, SdpSession};

/// an attribute that prints nothing (all its values are the default ones)
fn silent(a: &SdpAttribute) -> bool {
    matches!(a, SdpAttribute::Fmtp(f) if proj::fmtp_default(f))
}

/// the whole text and each part by itself
fn printed(what: &str, x: &SdpSession, words: bool) -> Res {
    let t = x.to_string();
    let hints: Vec<Vec<&SdpAttribute>> = std::iter::once(x.attribute.iter().filter(|a| !silent(a)).collect())
        .chain(x.media.iter().map(|m| m.get_attributes().iter().filter(|a| !silent(a)).collect()))
        .collect();
    let mut found = match wire::session(&t, &hints) {
        Ok(f) => f,
        Err(e) => return fail(format!("a strict receiver cannot read {what}: {e}\n--- text\n{t}")),
    };
    let mut want = proj::session(x, true);
    if words {
        edit::as_words(&mut found);
        edit::as_words(&mut want);
    }
    ensure!(want == found, "a strict receiver reads other values in {what}:\n{}--- text\n{t}", proj::diff(&want, &found));
    Ok(())
}
fn parsed(x: &SdpSession, s: Option<&mut Src>, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    printed("the printed session", x, false)?;
    if s.is_none_or(|s| s.pct(30)) {
        cx.class("masked");
        printed("the printed masked copy", &x.masked_clone(&mut StatefulSdpAnonymizer::new()), false)?;
    }
    Ok(())
}
fn c29_generated(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sess::session(s, &Opt { max_media: 6, max_attrs: 40, kinds: None });
    let v: Vec<String> = x.texts().iter().map(|l| if s.pct(30) { sess::respell(s, l) } else { l.clone() }).collect();
    let t = sess::present(s, &v).0;
    cx.input(&t);
    match parse_sdp(&t, false) {
        Ok(x) => parsed(&x, Some(s), cx),
        Err(e) => fail(format!("a valid description is rejected: {e}")),
    }
}
/// accepted texts, without blanks and control characters of other kinds than the format has
pub fn any(t: &str, cx: &mut Ctx) -> Res {
    if t.replace("\r\n", "\n").chars().any(|c| (c.is_whitespace() || c.is_control()) && ![' ', '\n'].contains(&c)) {
        return Ok(());
    }
    match parse_sdp(t, false) {
        Ok(x) => parsed(&x, None, cx),
        Err(_) => Ok(()),
    }
}
fn c29_mutated(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = sess::mutated(s);
    cx.input(&t);
    any(&t, cx)
}
fn c29_built(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = edit::built(s, cx)?;
    printed("the printed built session", &x, true)
}
/// parts by themselves
fn c29_parts(s: &mut Src, cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let part = |what: &str, t: String, want: String, found: Result<String, String>| -> Res {
        match found {
            Ok(f) if f == want => Ok(()),
            Ok(f) => fail(format!("a strict receiver reads other values in the {what} {t:?}\n  value  {want}\n  read   {f}")),
            Err(e) => fail(format!("a strict receiver cannot read the {what} {t:?}: {e}")),
        }
    };
    match s.below(12) {
        0 => {
            let x = build::origin(s);
            let t = x.to_string();
            cx.input(&t);
            cx.class("origin");
            part("origin", t.clone(), proj::origin(&x), wire::origin(&t))
        }
        1 => {
            let x = build::connection(s);
            let t = x.to_string();
            cx.input(&t);
            cx.class("connection");
            part("connection", t.clone(), proj::connection(&x), wire::connection(&t))
        }
        2 => {
            let x = build::bandwidth(s);
            let t = x.to_string();
            cx.input(&t);
            cx.class("bandwidth");
            part("bandwidth", t.clone(), proj::bandwidth(&x, true), wire::bandwidth(&t))
        }
        3 => {
            let x = build::timing(s);
            let t = x.to_string();
            cx.input(&t);
            cx.class("timing");
            part("timing", t.clone(), format!("{} {}", x.start, x.stop), wire::timing(&t))
        }
        4 => {
            let x = build::address(s);
            let t = x.to_string();
            cx.input(&t);
            cx.class("address");
            part("address", t.clone(), proj::addr(&x), wire::address(&t))
        }
        5 => {
            let media = edit::media_value(s);
            let k = s.range(1, 5);
            let formats = if media == SdpMediaValue::Application {
                SdpFormatList::Strings((0..k).map(|_| gen::token(s)).collect())
            } else {
                SdpFormatList::Integers((0..k).map(|_| gen::u32v(s)).collect())
            };
            let x = SdpMediaLine { media, port: gen::port(s), port_count: if s.pct(50) { 0 } else { gen::u32v(s) }, proto: edit::proto(s), formats };
            let t = x.to_string();
            cx.input(&t);
            cx.class("media line");
            part("media line", t.clone(), proj::mline(&x.media, x.port, x.port_count, &x.proto, &x.formats), wire::mline(&t))
        }
        _ => {
            let k = *s.pick(&gen::all_kinds());
            let a = build::attr(s, k, &Env::default()).unwrap();
            let t = a.to_string();
            cx.input(&t);
            cx.class(k);
            if silent(&a) {
                return Ok(());
            }
            ensure!(t.split(':').next() == Some(SdpAttributeType::from(&a).to_string().as_str()), "{t:?} is printed under another name than {}", SdpAttributeType::from(&a));
            part("attribute", t.clone(), proj::attr(&a, true), wire::attr(&a, &t))
        }
    }
}

pub fn props() -> Vec<Prop> {
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![Prop {
        id: "C29",
        rule: "a case is the printed form of a parsed or built session, of a masked copy, or of one built part; non-trivial: something was printed",
        subs: vec![
            sub("generated", 100_000, 2_000_000, c29_generated),
            sub("mutated", 150_000, 3_000_000, c29_mutated),
            sub("built", 100_000, 1_500_000, c29_built),
            sub("parts", 500_000, 8_000_000, c29_parts),
        ],
        extra: None,
    }]
}
