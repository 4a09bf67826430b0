//! Runs the crate, built with one combination of its features, over a corpus of texts and writes
//! what came of each.  probe CORPUS OUT [show]: OUT has one line of hashes per text, or with
//! "show" the outcome in full.  OUT.at tells which text each of the workers has come to.

#[path = "../harness/src/proj.rs"]
#[allow(dead_code)]
mod proj;

use std::fmt::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use webrtc_sdp::address::{Address, AddressType};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::{SdpAttribute, SdpAttributeRtpmap, SdpAttributeType};
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::media_type::{parse_media, SdpMediaValue, SdpProtocolValue};
use webrtc_sdp::{parse_sdp, parse_sdp_line, SdpSession};

fn error(e: &SdpParserError) -> String {
    format!("{:?} {e}", proj::error(e))
}
fn masked(x: &SdpSession, out: &mut [String]) {
    // the numbers masks are made of, and what is kept, are the same everywhere
    let mut a = StatefulSdpAnonymizer::new();
    let m = x.masked_clone(&mut a);
    let _ = write!(out[5], "{m}\n{}", proj::session(&m, false).join("\n"));
    let again = x.masked_clone(&mut a);
    let _ = write!(out[5], "\n{again}");
}
/// operations on the session chosen by its text, with the values that stand in it
fn edits(text: &str, x: &SdpSession, out: &mut String) {
    let mut x = x.clone();
    let mut r = hash(text.as_bytes());
    let mut next = |n: usize| {
        r = r.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = r;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        ((z ^ (z >> 31)) % n.max(1) as u64) as usize
    };
    let mut pool: Vec<SdpAttribute> = x.attribute.clone();
    for m in x.media.iter().take(50) {
        pool.extend(m.get_attributes().iter().take(200).cloned());
    }
    pool.push(SdpAttribute::RtcpMux);
    pool.push(SdpAttribute::Mid("x".into()));
    pool.push(SdpAttribute::IceLite);
    let outcome = |r: Result<(), webrtc_sdp::error::SdpParserInternalError>, out: &mut String| {
        let _ = write!(out, "{:?} ", r.map_err(|e| e.to_string()));
    };
    for _ in 0..12 {
        let op = next(14);
        let a = pool[next(pool.len())].clone();
        let k = SdpAttributeType::from(&a);
        let n = x.media.len();
        if n == 0 || op < 4 {
            match op % 4 {
                0 => outcome(x.add_attribute(a), out),
                1 => {
                    let addr = x.origin.unicast_addr.clone();
                    let ty = [SdpMediaValue::Audio, SdpMediaValue::Video, SdpMediaValue::Application][next(3)].clone();
                    let pr = [SdpProtocolValue::RtpSavpf, SdpProtocolValue::UdpDtlsSctp, SdpProtocolValue::DtlsSctp][next(3)].clone();
                    outcome(x.add_media(ty, [SdpAttribute::Sendrecv, a][next(2)].clone(), next(65536) as u32, pr, addr), out)
                }
                2 => {
                    if let Some(c) = x.media.iter().find_map(|m| m.get_connection().clone()) {
                        x.set_connection(c);
                    }
                }
                _ => {
                    let _ = write!(out, "{:?}", x.get_attribute(k).map(|a| a.to_string()));
                }
            }
            continue;
        }
        let b = x.bandwidth.first().cloned();
        let m = &mut x.media[next(n)];
        match op {
            4 => m.remove_codecs(),
            5 | 6 => m.remove_attribute(k),
            7 => outcome(m.set_attribute(a), out),
            8 => outcome(m.add_attribute(a), out),
            9 => m.set_port(next(65536) as u32),
            10 => {
                if let SdpAttribute::Rtpmap(r) = a {
                    outcome(m.add_codec(r), out);
                } else {
                    outcome(m.add_codec(SdpAttributeRtpmap::new(next(128) as u8, "x".into(), 8000)), out);
                }
            }
            11 => outcome(m.add_datachannel("dc".into(), next(65536) as u16, next(300) as u16, [0, 1, 65536][next(3)]), out),
            12 => {
                if let Some(b) = b {
                    m.add_bandwidth(b);
                }
            }
            _ => {
                let _ = write!(out, "{:?} {}", m.get_attribute(k.clone()).map(|a| a.to_string()), m.get_attributes_of_type(k).len());
            }
        }
    }
    let _ = write!(out, "{x}\n{}", proj::session(&x, false).join("\n"));
    let _ = write!(out, "\n{:?}", parse_sdp(&x.to_string(), true).map(|y| y.to_string()).map_err(|e| error(&e)));
}

/// 0 strict outcome, 1 lenient outcome, 2 values, 3 warnings, 4 printed, 5 masked, 6 lines, 7 edited
fn run(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new(); 8];
    let r = catch_unwind(AssertUnwindSafe(|| {
        match parse_sdp(t, true) {
            Ok(x) => {
                let _ = write!(out[0], "accepted\n{x}");
            }
            Err(e) => out[0].push_str(&error(&e)),
        }
        match parse_sdp(t, false) {
            Ok(x) => {
                out[1].push_str("accepted");
                out[2] = proj::session(&x, false).join("\n");
                out[3] = x.warnings.iter().map(error).collect::<Vec<_>>().join("\n");
                out[4] = x.to_string();
                masked(&x, &mut out);
                edits(t, &x, &mut out[7]);
            }
            Err(e) => out[1].push_str(&error(&e)),
        }
        for (i, l) in t.lines().enumerate() {
            match parse_sdp_line(l, i) {
                Ok(p) => {
                    let _ = writeln!(out[6], "{} {:?} {}", p.line_number, p.text, proj::sdp_type(&p.sdp_type, false));
                }
                Err(e) => {
                    let _ = writeln!(out[6], "{}", error(&e));
                }
            }
            if i < 40 && l.len() < 5000 {
                let v = l.get(2..).unwrap_or("");
                let _ = writeln!(out[6], "{:?}", parse_media(v).map(|m| proj::sdp_type(&m, false)).map_err(|e| e.to_string()));
                let _ = writeln!(out[6], "{:?}", SdpAttribute::from_str(v).map(|a| a.to_string()));
                for w in l.split([' ', ':']) {
                    let _ = writeln!(out[6], "{:?} {:?}", Address::from_str(w).map(|a| proj::addr(&a)), AddressType::from_str(w).map(|a| a.to_string()));
                }
            }
        }
    }));
    if r.is_err() {
        out[1].push_str("panic");
    }
    out
}
fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&a[1]).expect("corpus");
    let show = a.get(3).is_some();
    let mut texts: Vec<&str> = vec![];
    let mut i = 0;
    while i + 4 <= data.len() {
        let n = u32::from_le_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]) as usize;
        texts.push(std::str::from_utf8(&data[i + 4..i + 4 + n]).expect("text"));
        i += 4 + n;
    }
    let at = std::fs::File::create(format!("{}.at", a[2])).expect("progress");
    let at = &at;
    let parts: Vec<String> = std::thread::scope(|sc| {
        let k = texts.len().div_ceil(3).max(1);
        let hs: Vec<_> = texts
            .chunks(k)
            .enumerate()
            .map(|(w, c)| {
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, move || {
                    let mut out = String::new();
                    for (j, t) in c.iter().enumerate() {
                        let _ = at.write_all_at(&((w * k + j + 1) as u32).to_le_bytes(), w as u64 * 4);
                        let v = run(t);
                        if show {
                            for (i, x) in v.iter().enumerate() {
                                let _ = writeln!(out, "-- {i}\n{x}");
                            }
                        } else {
                            let h: Vec<String> = v.iter().map(|x| format!("{:x}", hash(x.as_bytes()))).collect();
                            // accepted or not, for the statistics
                            let _ = writeln!(out, "{} {}", v[1] == "accepted", h.join(" "));
                        }
                    }
                    let _ = at.write_all_at(&0u32.to_le_bytes(), w as u64 * 4);
                    out
                }).expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    std::fs::write(&a[2], parts.concat()).expect("output");
}
