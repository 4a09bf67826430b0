//! Lines with exactly one thing wrong: a number out of its range, a word outside its set, a
//! mandatory part missing.  (text, what is wrong)

use crate::engine::Src;
use crate::gen::{self, Env};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Slot {
    /// integer within bounds
    Int(u64, u64),
    /// hexadecimal integer within bounds
    Hex(u64, u64),
    /// payload type: integer within bounds or "*"
    Star(u64, u64),
    /// format of an audio or video media line
    Fmt,
    /// one of these words; true: in any letter case
    Word(&'static [&'static str], bool),
    /// frame rate: a positive finite number
    Rate,
    /// preference: a number from 0 to 1
    Pref,
    /// aspect ratio: a positive finite number
    Ratio,
}
use Slot::*;

const U8: Slot = Int(0, 255);
const U16: Slot = Int(0, 65535);
const U32: Slot = Int(0, u32::MAX as u64);
const U64: Slot = Int(0, u64::MAX);

/// every field with a bounded value, with the other fields filled in
pub const FIELDS: &[(&str, Slot)] = &[
    ("v={}", Int(0, 0)),
    ("o=- {} 2 IN IP4 1.2.3.4", U64),
    ("o=- 1 {} IN IP4 1.2.3.4", U64),
    ("o=- 1 2 {} IP4 1.2.3.4", Word(&["IN"], true)),
    ("o=- 1 2 IN {} example.com", Word(&["IP4", "IP6"], true)),
    ("c={} IP4 1.2.3.4", Word(&["IN"], true)),
    ("c=IN {} example.com", Word(&["IP4", "IP6"], true)),
    ("c=IN IP4 224.0.0.1/{}", U8),
    ("c=IN IP4 224.0.0.1/{}/1", U8),
    ("c=IN IP4 224.0.0.1/127/{}", U32),
    ("c=IN IP6 ff02::1/{}", U8),
    ("b=AS:{}", U32),
    ("b=CT:{}", U32),
    ("b=TIAS:{}", U32),
    ("b=X-YZ:{}", U32),
    ("t={} 0", U64),
    ("t=0 {}", U64),
    ("m=audio {} RTP/AVP 0", U16),
    ("m=video {} UDP/TLS/RTP/SAVPF 96 97", U16),
    ("m=application {} UDP/DTLS/SCTP webrtc-datachannel", U16),
    ("m=audio {}/2 RTP/AVP 0", U16),
    ("m=audio 9/{} RTP/AVP 0", U32),
    ("m=audio 9 RTP/AVP {}", Fmt),
    ("m=audio 9 RTP/AVP 0 {} 8", Fmt),
    ("m=video 9 UDP/TLS/RTP/SAVPF 96 {}", Fmt),
    ("a=candidate:1 {} udp 3 10.0.0.1 9 typ host", U32),
    ("a=candidate:1 2 {} 3 10.0.0.1 9 typ host", Word(&["udp", "tcp"], true)),
    ("a=candidate:1 2 udp {} 10.0.0.1 9 typ host", U64),
    ("a=candidate:1 2 udp 3 10.0.0.1 {} typ host", U16),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 {} host", Word(&["typ"], true)),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ {}", Word(&["host", "srflx", "prflx", "relay"], true)),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ srflx raddr 10.0.0.2 rport {}", U16),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ srflx rport {} raddr 10.0.0.2", U16),
    ("a=candidate:1 2 tcp 3 10.0.0.1 9 typ host tcptype {}", Word(&["active", "passive", "so"], true)),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ host generation {}", U32),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ host network-cost {}", U32),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ host foo bar generation {} ufrag x", U32),
    ("a=dtls-message:{} abc", Word(&["client", "server"], false)),
    ("a=extmap:{} urn:x", U16),
    ("a=extmap:{}/sendonly urn:x", U16),
    ("a=extmap:1/{} urn:x", Word(&["sendonly", "recvonly", "sendrecv", "inactive"], true)),
    ("a=fmtp:{} max-fr=1", U8),
    ("a=fmtp:{} 1-2", U8),
    ("a=fmtp:96 profile-level-id={}", Hex(0, 0xff_ffff)),
    ("a=fmtp:96 packetization-mode={}", Int(0, 2)),
    ("a=fmtp:96 level-asymmetry-allowed={}", Int(0, 1)),
    ("a=fmtp:96 max-mbps={}", U32),
    ("a=fmtp:96 max-fs={}", U32),
    ("a=fmtp:96 max-cpb={}", U32),
    ("a=fmtp:96 max-dpb={}", U32),
    ("a=fmtp:96 max-br={}", U32),
    ("a=fmtp:96 max-fr={}", U32),
    ("a=fmtp:96 profile={}", Int(0, 2)),
    ("a=fmtp:96 level-idx={}", Int(0, 31)),
    ("a=fmtp:96 tier={}", Int(0, 1)),
    ("a=fmtp:96 maxplaybackrate={}", U32),
    ("a=fmtp:96 maxaveragebitrate={}", U32),
    ("a=fmtp:96 ptime={}", U32),
    ("a=fmtp:96 minptime={}", U32),
    ("a=fmtp:96 maxptime={}", U32),
    ("a=fmtp:96 usedtx={}", Int(0, 1)),
    ("a=fmtp:96 stereo={}", Int(0, 1)),
    ("a=fmtp:96 useinbandfec={}", Int(0, 1)),
    ("a=fmtp:96 cbr={}", Int(0, 1)),
    ("a=fmtp:96 apt={}", U8),
    ("a=fmtp:96 apt=97;rtx-time={}", U32),
    ("a=fmtp:96 x=1;max-fs={};cbr=1", U32),
    ("a=fmtp:96 {}/97", Int(0, 128)),
    ("a=fmtp:96 97/{}", Int(0, 128)),
    ("a=framerate:{}", Rate),
    ("a=ice-pacing:{}", Int(0, 9_999_999_999)),
    ("a=imageattr:{} send *", Star(0, 255)),
    ("a=imageattr:* {} *", Word(&["send", "recv"], false)),
    ("a=imageattr:* send [x={},y=1]", U32),
    ("a=imageattr:* send [x=1,y={}]", U32),
    ("a=imageattr:* send [x=[{}:9],y=1]", Int(0, 8)),
    ("a=imageattr:* send [x=[1:{}],y=1]", Int(2, u32::MAX as u64)),
    ("a=imageattr:* send [x=[1:{}:9],y=1]", U32),
    ("a=imageattr:* send [x=[1:3:{}],y=1]", Int(2, u32::MAX as u64)),
    ("a=imageattr:* recv [x=1,y=[{}:3:4294967295]]", Int(0, u32::MAX as u64 - 1)),
    ("a=imageattr:* send [x=[1,{}],y=1]", U32),
    ("a=imageattr:* send [x=1,y=[{},3]]", U32),
    ("a=imageattr:* send [x=1,y=1] recv [x=1,y=1] [x=2,y=[2:{}]]", Int(3, u32::MAX as u64)),
    ("a=imageattr:* send [x=1,y=1,q={}]", Pref),
    ("a=imageattr:* send [x=1,y=1] recv [x=1,y=1,sar=1.5,q={}]", Pref),
    ("a=imageattr:* send [x=1,y=1,sar={}]", Ratio),
    ("a=imageattr:* send [x=1,y=1,sar=[{}-10]]", Ratio),
    ("a=imageattr:* send [x=1,y=1,sar=[{},10]]", Ratio),
    ("a=imageattr:* recv [x=1,y=1,par=[{}-10]]", Ratio),
    ("a=max-message-size:{}", U64),
    ("a=maxptime:{}", U64),
    ("a=ptime:{}", U64),
    ("a=rid:1 {} pt=96", Word(&["send", "recv"], false)),
    ("a=rid:1 send pt={}", U16),
    ("a=rid:1 send pt=96,{}", U16),
    ("a=rid:1 send pt=96;max-width={}", U32),
    ("a=rid:1 send max-width={}", U32),
    ("a=rid:1 send max-height={}", U32),
    ("a=rid:1 send max-fps={}", U32),
    ("a=rid:1 send max-fs={}", U32),
    ("a=rid:1 send max-br={}", U32),
    ("a=rid:1 send max-pps={}", U32),
    ("a=remote-candidates:{} 10.0.0.1 9", U32),
    ("a=remote-candidates:1 10.0.0.1 {}", U16),
    ("a=rtpmap:{} opus/48000/2", Int(0, 127)),
    ("a=rtpmap:96 opus/{}", U32),
    ("a=rtpmap:96 opus/{}/2", U32),
    ("a=rtpmap:96 opus/48000/{}", U32),
    ("a=rtcp:{}", U16),
    ("a=rtcp:{} IN IP4 10.0.0.1", U16),
    ("a=rtcp:9 {} IP4 10.0.0.1", Word(&["IN"], true)),
    ("a=rtcp:9 IN {} example.com", Word(&["IP4", "IP6"], true)),
    ("a=rtcp-fb:{} nack", Star(0, 255)),
    ("a=rtcp-fb:{} nack pli", Star(0, 255)),
    ("a=rtcp-fb:{} goog-remb", Star(0, 255)),
    ("a=rtcp-fb:* trr-int {}", U32),
    ("a=sctpmap:{} webrtc-datachannel 1", U16),
    ("a=sctpmap:5000 {} 1", Word(&["webrtc-datachannel"], true)),
    ("a=sctpmap:5000 webrtc-datachannel {}", U32),
    ("a=sctp-port:{}", U16),
    ("a=setup:{}", Word(&["active", "passive", "actpass", "holdconn"], true)),
    ("a=simulcast:{} 1", Word(&["send", "recv"], false)),
    ("a=simulcast:recv 1 {} 2", Word(&["send"], false)),
    ("a=simulcast:send 1 {} 2", Word(&["recv"], false)),
    ("a=ssrc:{}", U32),
    ("a=ssrc:{} cname:x", U32),
    ("a=ssrc-group:FID {}", U32),
    ("a=ssrc-group:FID 1 {}", U32),
    ("a=ssrc-group:SIM 1 {} 2", U32),
];

fn digits_beyond(s: &mut Src, hi: u64) -> String {
    // a decimal number above hi
    let h = hi as u128;
    let v: u128 = match s.below(8) {
        0 => h + 1,
        1 => h + 2 + s.below(10) as u128,
        2 => (h * 10 + s.below(10) as u128).max(h + 1),
        3 => {
            // equal to a small number after wrapping to 8, 16, 32 or 64 bits
            let w = 1u128 << *s.pick(&[8u32, 16, 32, 64]);
            let m = w + s.below(300) as u128;
            if m > h {
                m
            } else {
                h + w
            }
        }
        4 => {
            let m = 1u128 << (64 + s.below(60));
            (m - 1 + s.below(3) as u128).max(h + 1)
        }
        5 => {
            let d = crate::dict::dict();
            let v = if d.ints.is_empty() { 0 } else { *s.pick(&d.ints) as u128 + s.below(3) as u128 };
            if v > h {
                v
            } else {
                h + 1 + v
            }
        }
        6 => {
            let m = gen::u64v(s) as u128;
            if m > h {
                m
            } else {
                h + 1 + m
            }
        }
        _ => {
            let n = s.range(1, 20);
            let mut v = h + 1;
            for _ in 0..n {
                v = v.saturating_mul(10).saturating_add(s.below(10) as u128);
            }
            v
        }
    };
    v.to_string()
}
fn not_a_number(s: &mut Src) -> String {
    (*s.pick(&[
        "-1", "-0", "1.0", "1.5", "0.5", "1e3", "0x10", "abc", "1a", "a1", "1_0", "--1", "1-", "\u{ff11}", "\u{661}", "½", "NaN", "inf", "+", "-", "++1",
        "'1'", "\"1\"", "1%", "#", "∞", "one", "true", "0b1", "1l",
    ]))
    .to_string()
}


/// something that must not stand in the slot
const NO_FLOAT: &[&str] = &["NaN", "nan", "inf", "-inf", "infinity", "1e40", "abc", "1.2.3", "1_0", "0x1", "--1", "1..2", "½", "a.b", "1f", "q"];
pub fn wrong(s: &mut Src, slot: Slot) -> (String, &'static str) {
    match slot {
        Int(lo, hi) => {
            if lo > 0 && s.pct(20) {
                return ((lo - 1).to_string(), "below the range");
            }
            if s.pct(65) {
                (digits_beyond(s, hi), "above the range")
            } else {
                (not_a_number(s), "not a number")
            }
        }
        Star(_, hi) => {
            if s.pct(65) {
                (digits_beyond(s, hi), "above the range")
            } else if s.pct(30) {
                ("**".into(), "not a number")
            } else {
                (not_a_number(s), "not a number")
            }
        }
        Hex(_, hi) => {
            if s.pct(60) {
                let v = hi as u128 + 1 + if s.flip() { 0 } else { s.below(1 << 40) as u128 };
                (format!("{v:x}"), "above the range")
            } else {
                ((*s.pick(&["g", "0x10", "-1", "1.0", "42e0 1f", "zz", "42E01G", "\u{ff11}"])).to_string(), "not a number")
            }
        }
        Fmt => match s.below(3) {
            0 => {
                let bad: Vec<u64> = (0..=127).filter(|x| !gen::valid_fmt(*x)).collect();
                (s.pick(&bad).to_string(), "reserved format")
            }
            1 => (digits_beyond(s, 127), "above the range"),
            _ => (not_a_number(s), "not a number"),
        },
        Word(ok, any_case) => {
            for _ in 0..20 {
                let w = match s.below(5) {
                    0 => {
                        let k = *s.pick(ok);
                        format!("{k}x")
                    }
                    1 => {
                        let k = *s.pick(ok);
                        k[..k.len() - 1].to_string()
                    }
                    2 => (*s.pick(gen::WORDS)).to_string(),
                    3 if !any_case => {
                        let k = *s.pick(ok);
                        k.to_uppercase()
                    }
                    _ => gen::token_of(s, &|c| !"/:;=[],".contains(c)),
                };
                if w.is_empty() || w.chars().any(|c| !c.is_ascii()) {
                    continue;
                }
                if !ok.iter().any(|k| if any_case { k.eq_ignore_ascii_case(&w) } else { *k == w }) {
                    return (w, "word outside the set");
                }
            }
            ("zzz".into(), "word outside the set")
        }
        Rate => ((*s.pick(&["-1", "-0.5", "-1e-9", "-30", "0", "0.0", "-0", "0e5", "NaN", "nan", "inf", "-inf", "infinity", "abc", "1.2.3", "1,5", "", "1e400", "-1e999", "1/2", "\u{ff11}"])).to_string(), "not a frame rate"),
        Pref => match s.below(3) {
            0 => ((*s.pick(NO_FLOAT)).to_string(), "not a number"),
            1 => ((*s.pick(&["1.01", "1.1", "2", "10", "100", "1.0001", "1e1", "-0.1", "-1", "-0.5", "-0.01"])).to_string(), "out of 0 to 1"),
            _ => (format!("{}.{}", s.range(1, 99), s.range(1, 9)), "out of 0 to 1"),
        },
        Ratio => {
            if s.flip() {
                ((*s.pick(NO_FLOAT)).to_string(), "not a number")
            } else {
                ((*s.pick(&["0", "0.0", "-1", "-0.5", "-1.1", "0e1"])).to_string(), "not positive")
            }
        }
    }
}
/// something that may stand in the slot
pub fn right(s: &mut Src, slot: Slot) -> String {
    match slot {
        Int(lo, hi) => gen::int(s, lo, hi).to_string(),
        Hex(lo, hi) => format!("{:x}", gen::int(s, lo, hi)),
        Star(lo, hi) => {
            if s.pct(20) {
                "*".into()
            } else {
                gen::int(s, lo, hi).to_string()
            }
        }
        Fmt => {
            let mut x = gen::int(s, 0, 127);
            while !gen::valid_fmt(x) {
                x = (x + 1) % 128;
            }
            x.to_string()
        }
        Word(ok, any_case) => {
            let ok: Vec<&str> = ok.iter().copied().filter(|w| *w != "inactive").collect();
            let w = *s.pick(&ok);
            if any_case {
                gen::rcase(s, w)
            } else {
                w.to_string()
            }
        }
        Rate => (*s.pick(&["1", "0.1", "29.97", "60", "1e3", "0.0001", "1e300"])).to_string(),
        Pref => (*s.pick(&["0.5", "1", "1.0", "0.1", "0.0", "0", "1.00", "0.99", "0.01"])).to_string(),
        Ratio => (*s.pick(&["0.5", "1", "1.0", "0.1", "1.3333", "9.9999", "0.1001"])).to_string(),
    }
}

/// how many words, separated by blanks, a value needs at least
pub const MIN_WORDS: &[(&str, usize)] = &[
    ("candidate", 8),
    ("dtls-message", 2),
    ("extmap", 2),
    ("fingerprint", 2),
    ("group", 1),
    ("ice-options", 1),
    ("ice-pacing", 1),
    ("ice-pwd", 1),
    ("ice-ufrag", 1),
    ("identity", 1),
    ("imageattr", 3),
    ("label", 1),
    ("max-message-size", 1),
    ("maxptime", 1),
    ("mid", 1),
    ("msid", 1),
    ("msid-semantic", 1),
    ("ptime", 1),
    ("framerate", 1),
    ("rid", 2),
    ("remote-candidates", 3),
    ("rtpmap", 2),
    ("rtcp", 1),
    ("rtcp-fb", 2),
    ("sctpmap", 3),
    ("sctp-port", 1),
    ("setup", 1),
    ("simulcast", 2),
    ("ssrc", 1),
    ("ssrc-group", 2),
];

pub const BROKEN: &[(&str, &str)] = &[
    ("a=fmtp:96 x=1;stereo", "fmtp parameter without value"),
    ("a=fmtp:96 rtx-time=3000", "rtx-time without apt"),
    ("a=fmtp:96 rtx-time=3000;x=1", "rtx-time without apt"),
    ("a=rtcp:9 IN", "rtcp without address type"),
    ("a=rtcp:9 IN IP4", "rtcp without address"),
    ("a=rtpmap:96 opus", "rtpmap without rate"),
    ("a=rtpmap:96 opus/", "rtpmap with an empty rate"),
    ("a=rtcp-fb:96 trr-int", "trr-int without parameter"),
    ("a=imageattr:* send [x=1]", "imageattr without y"),
    ("a=imageattr:* send [y=1,x=1]", "imageattr with y before x"),
    ("a=imageattr:* send [x=[5],y=1]", "list with one value"),
    ("a=imageattr:* send [x=[1:2:3:4],y=1]", "range with four values"),
    ("a=imageattr:* send [x=1,y=1,sar=[1.1]]", "sar list with one value"),
    ("a=imageattr:* send [x=1,y=1,sar=[]]", "empty sar list"),
    ("a=imageattr:* send [x=[5:1],y=1]", "size range upside down"),
    ("a=imageattr:* send [x=1,y=[9:2:8]]", "size range upside down"),
    ("a=imageattr:* send [x=[5:5],y=1]", "empty size range"),
    ("a=imageattr:* recv [x=1,y=[7:1:7]]", "empty size range"),
    ("a=imageattr:* send [x=1,y=1,par=[2-1]]", "par range upside down"),
    ("a=imageattr:* send [x=1,y=1,par=[1.0-1.0]]", "empty par range"),
    ("a=imageattr:* send [x=1,y=1,par=1.0]", "par without a range"),
    ("a=imageattr:* send [x=1,y=1,par=[1.0]]", "par with one value"),
    ("a=imageattr:* send [x=1,y=1,sar=[2-1]]", "sar range upside down"),
    ("a=imageattr:* send [x=1,y=1,sar=[2,1]]", "sar list not ascending"),
    ("a=imageattr:* send [x=1,y=1,sar=[1,1]]", "sar list not ascending"),
    ("a=imageattr:* send [x=1,y=1", "brace left open"),
    ("a=imageattr:* send [x=[1:2,y=1]", "brace left open"),
    ("a=imageattr:* send x=1,y=1", "no brace"),
    ("a=imageattr:* send [x=1,y=1] send [x=1,y=1]", "direction twice"),
    ("a=imageattr:* send * recv", "second direction without sets"),
    ("a=simulcast:send 1 send 2", "direction twice"),
    ("a=simulcast:send 1 recv", "second direction without list"),
    ("a=simulcast:send pt=1", "unknown list descriptor"),
    ("a=simulcast:send rid=1=2", "'=' in an identifier"),
    ("a=rid:1 send max-br=1;pt=96", "pt not first"),
    ("a=candidate:1 2 udp 3 10.0.0.1 9 typ host raddr 10.0.0.256", "broken raddr"),
    ("a=candidate:1 2 udp 3 10.0.0..1 9 typ host", "broken address"),
    ("a=remote-candidates:1 2", "missing parts"),
    ("a=sctpmap:5000 webrtc-datachannel 1 2", "too many parts"),
    ("a=dtls-message:client", "missing parts"),
    ("a=dtls-message:client a b", "too many parts"),
    ("a=msid: ", "empty"),
    ("c=IN IP4", "missing parts"),
    ("c=IN IP4 1.2.3.4 5", "too many parts"),
    ("c=IN IP4 1.2.3.4/", "empty ttl"),
    ("c=IN IP4 1.2.3.4/1/", "empty count"),
    ("c=IN IP4 2001::1", "address of the other family"),
    ("c=IN IP6 1.2.3.4", "address of the other family"),
    ("o=- 1 1 IN IP6 1.2.3.4", "address of the other family"),
    ("o=- 1 1 IN IP4 ::1", "address of the other family"),
    ("o=- 1 1 IN IP4", "missing parts"),
    ("o=- 1 1 IN", "missing parts"),
    ("o=- 1 1", "missing parts"),
    ("o=- 1", "missing parts"),
    ("o=-", "missing parts"),
    ("a=rtcp:9 IN IP4 ::1", "address of the other family"),
    ("a=rtcp:9 IN IP6 1.2.3.4", "address of the other family"),
    ("t=0", "missing parts"),
    ("t=0 0 0", "too many parts"),
    ("b=AS", "missing parts"),
    ("b=AS:", "empty number"),
    ("b=AS:1:2", "too many parts"),
    ("m=audio 9 RTP/AVP", "missing parts"),
    ("m=audio 9", "missing parts"),
    ("m=audio", "missing parts"),
    ("m=audio 9/ RTP/AVP 0", "empty count"),
    ("m=audio /1 RTP/AVP 0", "empty port"),
    ("v=", "empty"),
    ("a=", "empty"),
    ("a= ", "empty"),
    ("t=", "empty"),
    ("=0", "no type"),
    ("aa=x", "type too long"),
    ("av=0", "type too long"),
    ("a", "no ="),
    ("nonsense", "no ="),
    ("a:sendrecv", "no ="),
    ("x=1", "unknown type"),
    ("1=1", "unknown type"),
    ("e=a@b.c", "type the crate does not take"),
    ("i=x", "type the crate does not take"),
    ("k=clear:x", "type the crate does not take"),
    ("p=+1", "type the crate does not take"),
    ("r=1 2 3", "type the crate does not take"),
    ("u=http://x.y", "type the crate does not take"),
    ("z=0 1", "type the crate does not take"),
];

/// places in an imageattr where nothing but a separator or a bracket may stand
const BESIDE: &[&str] = &[
    "send [x=[1:9]{},y=1]",
    "send [x=[1:2:9]{},y=1]",
    "send [x=[1,9]{},y=1]",
    "send [x={}[1:9],y=1]",
    "send [x={}[1,9],y=1]",
    "recv [x=1,y=[1:9]{}]",
    "recv [x=1,y=[1,9]{}]",
    "recv [x=1,y={}[1,9]]",
    "send [x=1,y=1,sar=[1-2]{}]",
    "send [x=1,y=1,sar=[1.5,2]{}]",
    "send [x=1,y=1,sar={}[1-2]]",
    "send [x=1,y=1,q=0.5,par=[1-2]{}]",
    "send [x=1,y=1,par={}[1-2]]",
    "send {}[x=1,y=1]",
    "send [x=1,y=1]{}",
    "send [x=1,y=1] {}[x=1,y=1]",
    "send [{}x=1,y=1]",
    "send [x{}=1,y=1]",
    "send [x=1,{}y=1]",
    "send [x=1,y{}=1]",
    "send [x=1,{},y=1]",
    "send [{},x=1,y=1]",
    "recv * send [x=1,y=2]{}",
    "send *{}",
    "send {}*",
];

/// a line that must be rejected with a fatal error
pub fn line(s: &mut Src) -> (String, &'static str) {
    match s.below(10) {
        0..=4 => {
            let (t, slot) = *s.pick(FIELDS);
            let (w, why) = wrong(s, slot);
            (t.replace("{}", &w), why)
        }
        5 | 6 => {
            // too few words
            let (k, n) = *s.pick(MIN_WORDS);
            let g = gen::attr(s, k, &Env::default());
            let v = g.val.unwrap();
            let w: Vec<&str> = v.split_whitespace().collect();
            let keep = s.idx(n);
            let t = w[..keep.min(w.len())].join(" ");
            if t.is_empty() && s.flip() {
                (format!("a={k}"), "no value")
            } else {
                (format!("a={k}:{t}"), "mandatory part missing")
            }
        }
        7 if s.pct(30) => {
            let w: String = (0..s.range(1, 3)).map(|_| *s.pick(b"0123456789.ax") as char).collect();
            (format!("a=imageattr:* {}", s.pick(BESIDE).replace("{}", &w)), "something beside a bracket")
        }
        7 if s.flip() => {
            // one brace of an imageattr missing or too many
            for _ in 0..20 {
                let mut v = gen::attr(s, "imageattr", &Env::default()).val.unwrap();
                let at: Vec<usize> = v.match_indices(['[', ']']).map(|x| x.0).collect();
                if at.is_empty() {
                    continue;
                }
                let i = *s.pick(&at);
                if s.pct(70) {
                    v.remove(i);
                } else {
                    let c = v.as_bytes()[i] as char;
                    v.insert(i, c);
                }
                return (format!("a=imageattr:{v}"), "unbalanced braces");
            }
            ("a=imageattr:* send [x=1,y=1] [x=2,y=2".into(), "unbalanced braces")
        }
        7 => {
            let f = *s.pick(gen::FLAGS);
            let v = if s.flip() { String::new() } else { gen::text(s) };
            (format!("a={f}:{v}"), "flag with a value")
        }
        _ => {
            let (t, why) = *s.pick(BROKEN);
            (t.to_string(), why)
        }
    }
}
