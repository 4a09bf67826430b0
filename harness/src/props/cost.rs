//! C22: work grows in proportion to the input.

use crate::engine::*;
use crate::gen::{self, Env};
use crate::{meter, sess};
use serde_json::json;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::parse_sdp;

/// a text in which one element occurs n times
#[derive(Clone, Debug)]
pub struct Unit {
    pub name: String,
    pre: String,
    /// element templates, used in turn
    elems: Vec<String>,
    sep: &'static str,
    post: String,
    /// further lists that grow with it: elements, separator, what follows
    more: Vec<(Vec<String>, &'static str, String)>,
}

/// fills the number of the element into its template
fn fill(t: &str, i: usize, out: &mut String) {
    if !t.contains('{') {
        out.push_str(t);
        return;
    }
    let mut rest = t;
    while let Some(p) = rest.find('{') {
        out.push_str(&rest[..p]);
        let e = rest[p..].find('}').map(|e| e + p);
        let key = e.map(|e| &rest[p + 1..e]).unwrap_or("");
        let v = match key {
            "i" => i.to_string(),
            // a number below 128, one below 256, one below 65536 and the bytes of it
            "b" => (i % 128).to_string(),
            "v" => (96 + i % 32).to_string(),
            "c" => (i % 256).to_string(),
            "d" => (i / 256 % 256).to_string(),
            "p" => (i % 65536).to_string(),
            "h" => format!("{:x}", i % 65536),
            "g" => format!("{:x}", i / 65536 % 65536),
            "X" => format!("{:02X}", i % 256),
            "Y" => format!("{:02X}", i / 256 % 256),
            _ => {
                out.push('{');
                rest = &rest[p + 1..];
                continue;
            }
        };
        out.push_str(&v);
        rest = &rest[e.unwrap() + 1..];
    }
    out.push_str(rest);
}

impl Unit {
    pub fn text(&self, n: usize) -> String {
        let mut t = self.pre.clone();
        let mut list = |elems: &[String], sep: &str, post: &str| {
            for i in 0..n {
                if i > 0 {
                    t.push_str(sep);
                }
                fill(&elems[i % elems.len()], i, &mut t);
            }
            t.push_str(post);
        };
        list(&self.elems, self.sep, &self.post);
        for (e, s, z) in &self.more {
            list(e, s, z);
        }
        t
    }
    fn elem_len(&self) -> usize {
        (self.text(64).len() - self.text(0).len()) / 64 + 1
    }
}

const M: &str = "m=video 9 UDP/TLS/RTP/SAVPF 96 97\r\na=rid:r send\r\na=rid:q recv\r\n";

/// lines repeated within a section
const LINES: &[&str] = &[
    "a=x-unknown{i}:value",
    "a=x",
    "b=X{i}:{i}",
    "b=AS:{i}",
    "",
    "   ",
    "a=candidate:{i} 1 udp {i} 10.1.{d}.{c} {p} typ host raddr 10.2.{d}.{c} rport {p} ufrag u{i}",
    "a=candidate:{i} 1 tcp {i} h{i}.local {p} typ srflx tcptype active generation {i}",
    "a=candidate:{i} 1 udp {i} fd00::{g}:{h} {p} typ relay raddr fd01::{g}:{h} rport {p}",
    "a=ssrc:{i} cname:c{i}",
    "a=ssrc:{i} msid:a{i} b{i}",
    "a=ssrc:7 cname:same",
    "a=rtpmap:{b} c{i}/90000/{i}",
    "a=rtpmap:96 VP8/90000",
    "a=fmtp:{v} apt={b}",
    "a=fmtp:{v} x{i}=1;max-fs={i}",
    "a=fmtp:{v} profile-level-id=42e01f;level-asymmetry-allowed=1;packetization-mode=1",
    "a=fmtp:{v} 0-15,66,70",
    "a=fmtp:{v} 111/111",
    "a=rtcp-fb:{v} nack pli",
    "a=rtcp-fb:* ccm fir",
    "a=extmap:{p} urn:x{i}",
    "a=extmap:{p}/sendonly urn:x{i} a b c",
    "a=rid:r{i} send",
    "a=rid:r{i} recv pt=96;max-width={i}",
    "a=rid:s{i} send depends=r,q;x{i}=1",
    "a=simulcast:send r",
    "a=simulcast:recv q send r,~r;r",
    "a=fingerprint:sha-1 {X}:{Y}:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13:14",
    "a=mid:m{i}",
    "a=label:{i}",
    "a=msid:a{i} b{i}",
    "a=imageattr:* send [x={i},y={i}]",
    "a=imageattr:97 recv [x=[1:2:3],y=[4,5,6],q=0.5] send *",
    "a=ice-ufrag:u{i}",
    "a=ice-pwd:p{i}",
    "a=ice-options:a{i} b",
    "a=sctpmap:{p} webrtc-datachannel {i}",
    "a=sctp-port:{p}",
    "a=max-message-size:{i}",
    "a=remote-candidates:1 10.3.{d}.{c} {p}",
    "a=rtcp:{p} IN IP4 10.4.{d}.{c}",
    "a=rtcp:{p} IN IP6 h{i}.example",
    "a=setup:active",
    "a=ssrc-group:FID {i} 2",
    "a=ptime:{i}",
    "a=framerate:{i}.5",
    "a=sendrecv",
    "a=rtcp-mux",
    "a=end-of-candidates",
    "a=bundle-only",
    // refused
    "a=sctp-port:x{i}",
    "a=rtpmap:{i}",
    "q=zz{i}",
    "zz",
    "a",
    "m=text {i} RTP/AVP 0",
    "a=group:BUNDLE m{i}",
];
/// lines repeated in the session part
const SESSION_LINES: &[&str] = &[
    "a=group:BUNDLE m{i}",
    "a=msid-semantic:WMS m{i}",
    "a=identity:{i}",
    "a=ice-lite",
    "a=ice-pacing:{b}",
    "a=dtls-message:client m{i}",
    "a=extmap:{p} urn:x{i}",
    "a=fingerprint:sha-1 {X}:{Y}:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13:14",
    "a=ice-ufrag:u{i}",
    "a=ice-options:a{i} b",
    "a=setup:actpass",
    "a=x-unknown{i}",
    "b=AS:{i}",
    "c=IN IP4 10.5.{d}.{c}",
    "t={i} {i}",
    "v=0",
    "s=x{i}",
    "o=u{i} {i} {i} IN IP4 10.6.{d}.{c}",
];
/// whole sections
const SECTIONS: &[&str] = &[
    "m=audio 9 UDP/TLS/RTP/SAVPF 0",
    "m=video {p} UDP/TLS/RTP/SAVPF {v} 97\r\nc=IN IP4 10.7.{d}.{c}\r\na=mid:m{i}\r\na=sendrecv\r\na=rtpmap:{v} VP8/90000\r\na=fmtp:{v} max-fs={i}\r\na=rtcp-mux\r\na=rtcp-mux-only",
    "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\na=sctp-port:{p}",
    "m=video 9 UDP/TLS/RTP/SAVPF 96\r\na=rid:r{i} send pt=96\r\na=simulcast:send r{i}",
    "m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=candidate:{i} 1 udp 7 10.8.{d}.{c} {p} typ host\r\na=ice-ufrag:u{i}\r\na=ice-pwd:p{i}\r\na=ssrc:{i} cname:c{i}",
];
/// (start, element, separator, end) within one line
const LISTS: &[(&str, &str, &str, &str)] = &[
    ("m=audio 9 RTP/AVP ", "{v}", " ", ""),
    ("m=video 9 RTP/AVP 96 ", "96", "  ", ""),
    ("m=application 9 UDP/DTLS/SCTP ", "f{i}", " ", ""),
    ("a=ice-options:", "o{i}", " ", ""),
    ("a=ssrc-group:FID ", "{i}", " ", ""),
    ("a=fmtp:96 ", "x{i}=y", ";", ""),
    ("a=fmtp:96 ", "x{i}=y", " ; ", ""),
    ("a=fmtp:96 ", "max-fs={i}", ";", ""),
    ("a=fmtp:96 ", "apt={b}", ";", ""),
    ("a=fmtp:96 apt=97;", "rtx-time={i}", ";", ""),
    ("a=fmtp:96 ", "x", ";", ""),
    ("a=fmtp:96 ", "{b}", "/", ""),
    ("a=fmtp:96 ", "{b}", ",", ""),
    ("a=fmtp:96 ", "1-{v}", ",", ""),
    ("a=fmtp:96 x=1", "", ";", ""),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ", "e{i} v{i}", " ", ""),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ", "generation {i}", " ", ""),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ", "raddr 10.0.{d}.{c}", " ", ""),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ", "raddr h{i}.local", " ", ""),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ", "ufrag u{i}", " ", ""),
    ("a=remote-candidates:", "1 1.2.3.4 {p}", " ", ""),
    ("a=extmap:1 urn:x ", "e{i}", " ", ""),
    ("a=imageattr:* send ", "[x={i},y=2]", " ", ""),
    ("a=imageattr:* recv ", "[x=1,y={i},q=0.5,sar=1.5,par=[1.0-2.0]]", " ", ""),
    ("a=imageattr:* send * recv ", "[x=[1:2:{i}],y=[{i},7]]", " ", ""),
    ("a=imageattr:* send [x=1,y=1] recv ", "[x=1,y={i}]", " ", " send *"),
    ("a=imageattr:* send [x=[", "{i}", ",", "],y=1]"),
    ("a=imageattr:* send [x=1,y=[", "{i}", ",", "]]"),
    ("a=imageattr:* send [x=1,y=1,sar=[", "{i}.5", ",", "]]"),
    ("a=imageattr:* send [x=1,y=1,", "k{i}=2", ",", "]"),
    ("a=imageattr:* send [x=1,y=1,", "q=0.5", ",", "]"),
    ("a=imageattr:* ", "send *", " ", ""),
    ("a=rid:z send pt=", "96", ",", ""),
    ("a=rid:z send ", "x{i}=1", ";", ""),
    ("a=rid:z send ", "max-fs={i}", ";", ""),
    ("a=rid:z send depends=", "d{i}", ",", ""),
    ("a=rid:z send ", "depends=a{i}", ";", ""),
    ("a=simulcast:send ", "r", ";", ""),
    ("a=simulcast:send ", "r", ",", ""),
    ("a=simulcast:send ", "~r", ",", " recv q"),
    ("a=simulcast:", "send r", " ", ""),
    ("a=rtcp-fb:96 nack pli ", "e{i}", " ", ""),
    ("a=msid:a ", "b{i}", " ", ""),
    ("a=mid:", "w{i}", " ", ""),
    ("a=ssrc:1 cname:", "w{i}", " ", ""),
    ("a=ssrc:1 ", "w{i}", ":", ""),
    ("a=fingerprint:sha-256 ", "{X}", ":", ""),
    ("a=sctpmap:5000 webrtc-datachannel 256 ", "w{i}", " ", ""),
    ("a=rtcp:9 IN IP4 1.2.3.4 ", "w{i}", " ", ""),
    ("a=candidate:1 1 udp 1 ", "l{i}", ".", " 9 typ host"),
    ("a=x-unknown:", "w{i}", " ", ""),
    ("c=IN IP4 1.2.3.4", "{b}", "/", ""),
    ("b=AS:", "{i}", ":", ""),
];
const SESSION_LISTS: &[(&str, &str, &str, &str)] = &[
    ("a=group:BUNDLE ", "m{i}", " ", ""),
    ("a=group:LS ", "same", "  ", ""),
    ("a=msid-semantic:WMS ", "m{i}", " ", ""),
    ("a=identity:x ", "e{i}=1", ";", ""),
    ("s=", "w{i}", " ", ""),
    ("t=0 0 ", "{i}", " ", ""),
];
/// where one long token stands
const PLACES: &[(&str, &str)] = &[
    ("a=", ""),
    ("a=mid:", ""),
    ("a=candidate:", " 1 udp 1 1.2.3.4 9 typ host"),
    ("a=candidate:1 1 udp 1 1.2.3.4 9 typ host ufrag ", ""),
    ("a=candidate:1 1 udp 1 ", " 9 typ host"),
    ("a=fmtp:96 ", ""),
    ("a=fmtp:96 x=", ""),
    ("a=imageattr:* send ", ""),
    ("a=imageattr:* send [x=", ",y=1]"),
    ("a=fingerprint:sha-1 ", ""),
    ("a=rid:", " send"),
    ("a=rid:z send x=", ""),
    ("a=simulcast:send ", ""),
    ("a=rtpmap:96 ", "/90000"),
    ("a=ssrc:1 ", ""),
    ("a=ssrc:1 cname:", ""),
    ("a=msid:", ""),
    ("a=extmap:1 ", ""),
    ("a=rtcp-fb:96 nack pli ", ""),
    ("a=sctp-port:", ""),
    ("a=framerate:", ""),
    ("a=ice-pwd:", ""),
    ("a=ice-ufrag:", ""),
    ("b=", ":1"),
    ("c=IN IP4 ", ""),
    ("m=", " 9 RTP/AVP 0"),
    ("m=audio ", " RTP/AVP 0"),
    ("m=audio 9 ", " 0"),
    ("m=application 9 UDP/DTLS/SCTP ", ""),
    ("", ""),
];
const CHARS: &[&str] = &["x", "9", "0", "é", " ", "[", "]", "[]", ",", ";", "=", ":", "/", "-", "~", ".", "*", "A", "\t", "send ", "\u{2003}"];

fn unit(name: String, pre: &str, elems: Vec<String>, sep: &'static str, post: &str) -> Unit {
    Unit { name, pre: pre.to_string(), elems, sep, post: post.to_string(), more: vec![] }
}

/// lists that grow together: the first with its start and end, then the others with theirs
type Joint = (&'static str, &'static str, &'static str, &'static str, &'static [(&'static str, &'static str, &'static str)]);
const JOINT: &[Joint] = &[
    // formats and what is said about them
    ("m=video 9 UDP/TLS/RTP/SAVPF ", "{v}", " ", "\r\n", &[("a=rtpmap:{v} c{i}/90000", "\r\n", "\r\n")]),
    ("m=video 9 UDP/TLS/RTP/SAVPF ", "{v}", " ", "\r\n", &[("a=fmtp:{v} x{i}=1", "\r\n", "\r\n"), ("a=rtcp-fb:{v} nack", "\r\n", "\r\n")]),
    (
        "m=video 9 UDP/TLS/RTP/SAVPF ",
        "{v}",
        " ",
        "\r\n",
        &[("a=rtpmap:{v} VP8/90000", "\r\n", "\r\n"), ("a=fmtp:{v} apt={b}", "\r\n", "\r\n"), ("a=imageattr:{v} send *", "\r\n", "\r\n")],
    ),
    ("m=application 9 UDP/DTLS/SCTP ", "f{i}", " ", "\r\n", &[("a=sctpmap:{p} webrtc-datachannel {i}", "\r\n", "\r\n")]),
    ("m=audio 9 RTP/AVP ", "96", " ", "\r\n", &[("a=rtpmap:{b} c{i}/8000", "\r\n", "\r\n"), ("a=rtcp-fb:{b} nack", "\r\n", "\r\n"), ("a=fmtp:{b} apt={b}", "\r\n", "\r\n")]),
    ("m=audio 9 RTP/AVP ", "96", " ", "\r\n", &[("a=rtpmap:120 x/8000", "\r\n", "\r\n")]),
    ("m=audio 9 RTP/AVP ", "0", " ", "\r\n", &[("a=fmtp:120 apt=1", "\r\n", "\r\n")]),
    // groups and their members
    ("a=group:BUNDLE ", "m{i}", " ", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=mid:m{i}", "\r\n", "\r\n")]),
    ("", "a=group:LS m{i} n{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=mid:m{i}", "\r\n", "\r\n")]),
    ("a=msid-semantic:WMS ", "m{i}", " ", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=msid:m{i} t", "\r\n", "\r\n")]),
    ("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\n", "a=ssrc:{i} cname:c{i}", "\r\n", "\r\n", &[("a=ssrc-group:FID {i} {p}", "\r\n", "\r\n")]),
    ("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=ssrc-group:FID ", "{i}", " ", "\r\n", &[("a=ssrc:{i} cname:c{i}", "\r\n", "\r\n")]),
    // the session part and the sections
    ("", "a=extmap:{p} urn:s{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=extmap:{p} urn:x{i}", "\r\n", "\r\n")]),
    ("", "a=ice-ufrag:u{i}\r\na=ice-pwd:p{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=ice-ufrag:u{i}\r\na=ice-pwd:p{i}", "\r\n", "\r\n")]),
    (
        "",
        "a=fingerprint:sha-1 {X}:{Y}:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13:14",
        "\r\n",
        "\r\n",
        &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=fingerprint:sha-1 {X}:{Y}:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13:15", "\r\n", "\r\n")],
    ),
    ("", "a=setup:active", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=setup:passive", "\r\n", "\r\n")]),
    ("", "b=X{i}:{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\nb=X{i}:{i}", "\r\n", "\r\n")]),
    ("", "c=IN IP4 10.5.{d}.{c}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\nc=IN IP4 10.5.{d}.{c}", "\r\n", "\r\n")]),
    ("", "a=identity:x{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0", "\r\n", "\r\n")]),
    ("", "a=x-unknown{i}", "\r\n", "\r\n", &[("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=x-unknown{i}", "\r\n", "\r\n")]),
    // addresses of the masked copy
    (
        "m=audio 9 UDP/TLS/RTP/SAVPF 0\r\n",
        "a=candidate:{i} 1 udp 7 10.8.{d}.{c} {p} typ host",
        "\r\n",
        "\r\n",
        &[("a=candidate:{i} 1 udp 7 h{i}.local {p} typ srflx raddr 10.8.{d}.{c} rport {p}", "\r\n", "\r\n"), ("a=remote-candidates:1 10.8.{d}.{c} {p}", "\r\n", "\r\n")],
    ),
    ("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\n", "a=ice-options:o{i}", "\r\n", "\r\n", &[("a=candidate:{i} 1 udp 7 10.8.{d}.{c} {p} typ host x{i} y", "\r\n", "\r\n")]),
    // rids and simulcast streams, each by themselves in their sections
    ("", "a=ice-options:o{i}", "\r\n", "\r\n", &[("m=video 9 UDP/TLS/RTP/SAVPF 96\r\na=rid:r{i} send pt=96\r\na=simulcast:send r{i}", "\r\n", "\r\n")]),
    // warnings and the rest
    ("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\n", "a=y{i}", "\r\n", "\r\n", &[("a=ssrc:{i} cname:c{i}", "\r\n", "\r\n"), ("a=z{i}", "\r\n", "\r\n")]),
];
fn joint(j: &Joint) -> Unit {
    let mut u = unit(format!("jointly {:?} {:?}", j.1, j.4.iter().map(|x| x.0).collect::<Vec<_>>()), &format!("{}{}", sess::HEAD, j.0), vec![j.1.to_string()], j.2, j.3);
    u.more = j.4.iter().map(|x| (vec![x.0.to_string()], x.1, x.2.to_string())).collect();
    u
}

/// the units that are written down above
pub fn fixed_units() -> Vec<Unit> {
    let mut v = vec![];
    for l in LINES {
        v.push(unit(format!("media line {l:?}"), &format!("{}{M}", sess::HEAD), vec![(*l).to_string()], "\r\n", "\r\n"));
    }
    for l in SESSION_LINES {
        v.push(unit(format!("session line {l:?}"), sess::HEAD, vec![(*l).to_string()], "\r\n", "\r\nm=audio 9 UDP/TLS/RTP/SAVPF 0\r\n"));
    }
    for l in SECTIONS {
        v.push(unit(format!("section {l:?}"), sess::HEAD, vec![(*l).to_string()], "\r\n", "\r\n"));
    }
    for (a, e, s, z) in LISTS {
        v.push(unit(format!("list {a:?} {e:?}{s:?}"), &format!("{}{M}{a}", sess::HEAD), vec![(*e).to_string()], s, &format!("{z}\r\n")));
    }
    for j in JOINT {
        v.push(joint(j));
    }
    for (a, e, s, z) in SESSION_LISTS {
        let head = if a.starts_with("s=") { "v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\n".to_string() } else { sess::HEAD.to_string() };
        v.push(unit(format!("list {a:?} {e:?}{s:?}"), &format!("{head}{a}"), vec![(*e).to_string()], s, &format!("{z}\r\nt=0 0\r\nc=IN IP4 0.0.0.0\r\n")));
    }
    for (a, z) in PLACES {
        for c in CHARS {
            v.push(unit(format!("token {a:?} {c:?}"), &format!("{}{M}{a}", sess::HEAD), vec![(*c).to_string()], "", &format!("{z}\r\n")));
        }
    }
    v
}

/// units out of generated lines
fn random_unit(s: &mut Src) -> Unit {
    let k = s.range(1, 6) as u64;
    match s.below(6) {
        5 => {
            // lines of several kinds, each with numbers, side by side or one kind after the other; a
            // product by nature is one of rids and simulcast streams
            let of = |s: &mut Src, l: &[&'static str], k: u64| -> Vec<String> {
                let mut v = vec![];
                for _ in 0..k {
                    let x = *s.pick(l);
                    if !x.contains("rid:") && !x.contains("simulcast:") {
                        v.push(x.to_string());
                    }
                }
                if v.is_empty() {
                    v.push(l[0].to_string());
                }
                v
            };
            let a = of(s, LINES, k);
            let mut u = unit("numbered lines together".into(), &format!("{}{M}", sess::HEAD), a, "\r\n", "\r\n");
            if s.flip() {
                let b = of(s, LINES, k);
                u.more.push((b, "\r\n", "\r\n".into()));
            }
            if s.flip() {
                let c: Vec<String> = (0..s.range(1, 2)).map(|_| s.pick(SECTIONS).to_string()).collect();
                u.more.push((c, "\r\n", "\r\n".into()));
            }
            if s.pct(40) {
                // the session part grows, too
                let d = of(s, &SESSION_LINES[..13], k);
                let (pre, e, post) = (format!("{M}"), std::mem::replace(&mut u.elems, d), std::mem::replace(&mut u.post, "\r\n".into()));
                u.pre = sess::HEAD.to_string();
                u.post.push_str(&pre);
                u.more.insert(0, (e, "\r\n", post));
            }
            u
        }
        0 => {
            let kinds: Vec<&'static str> = gen::all_kinds().into_iter().filter(|k| gen::session_ok(k)).collect();
            let e: Vec<String> = (0..k)
                .map(|_| {
                    let k = *s.pick(&kinds);
                    format!("a={}", gen::attr(s, k, &Env::default()).plain())
                })
                .collect();
            unit("generated session lines".into(), sess::HEAD, e, "\r\n", "\r\nm=audio 9 UDP/TLS/RTP/SAVPF 0\r\n")
        }
        1 => {
            let opt = sess::Opt { max_media: 1, max_attrs: 12, kinds: None };
            let e: Vec<String> = (0..k)
                .map(|_| loop {
                    let x = sess::session(s, &opt);
                    let f = x.first_media();
                    if f < x.lines.len() {
                        let mut t = x.texts()[f..].join("\r\n");
                        if !t.contains("\r\nc=") {
                            t.push_str("\r\nc=IN IP4 0.0.0.0");
                        }
                        return t;
                    }
                    return "m=audio 9 UDP/TLS/RTP/SAVPF 0".to_string();
                })
                .collect();
            unit("generated sections".into(), sess::HEAD, e, "\r\n", "\r\n")
        }
        2 => {
            let e: Vec<String> = (0..k).map(|_| sess::unsupported(s).0).collect();
            unit("generated unsupported lines".into(), &format!("{}{M}", sess::HEAD), e, "\r\n", "\r\n")
        }
        3 => {
            let e: Vec<String> = (0..k).map(|_| sess::some_line(s)).collect();
            unit("any lines".into(), &format!("{}{M}", sess::HEAD), e, "\r\n", "\r\n")
        }
        _ => {
            let kinds: Vec<&'static str> =
                gen::all_kinds().into_iter().filter(|k| gen::media_ok(k) && *k != "rid" && *k != "simulcast").collect();
            let e: Vec<String> = (0..k)
                .map(|_| {
                    let k = *s.pick(&kinds);
                    format!("a={}", gen::attr(s, k, &Env::default()).plain())
                })
                .collect();
            unit("generated media lines".into(), &format!("{}{M}", sess::HEAD), e, "\r\n", "\r\n")
        }
    }
}

/// everything a receiver does with a text
pub fn work(t: &str) -> bool {
    let a = parse_sdp(t, true).is_ok();
    match parse_sdp(t, false) {
        Err(e) => {
            std::hint::black_box(e.to_string().len());
            a
        }
        Ok(x) => {
            std::hint::black_box(x.to_string().len());
            let mut an = StatefulSdpAnonymizer::new();
            let y = x.masked_clone(&mut an);
            std::hint::black_box(y.to_string().len());
            let z = x.masked_clone(&mut an);
            drop(z);
            true
        }
    }
}

/// bytes requested for n elements and for 4n, without those for none
fn growth(u: &Unit, n: usize) -> (u64, u64, u64, bool) {
    let (t0, t1, t2) = (u.text(0), u.text(n), u.text(4 * n));
    let b0 = meter::bytes(|| work(&t0)).1;
    let b1 = meter::bytes(|| work(&t1)).1;
    let (ok, b2, _) = meter::bytes(|| work(&t2));
    (b0, b1, b2, ok)
}
const SLACK: u64 = 100_000;
fn judge(u: &Unit, n: usize, b0: u64, b1: u64, b2: u64) -> Res {
    let (x, y) = (b1.saturating_sub(b0), b2.saturating_sub(b0));
    ensure!(
        y <= x * 7 + SLACK,
        "memory requested grows faster than the input: {} times {} request {x} bytes, {} times {y}",
        n,
        u.name,
        4 * n
    );
    Ok(())
}

fn c22_growth(s: &mut Src, cx: &mut Ctx) -> Res {
    let u = if s.pct(70) {
        let f = units();
        f[s.idx(f.len())].clone()
    } else {
        random_unit(s)
    };
    let n = (6000 / u.elem_len()).clamp(24, 1500) + s.idx(50);
    cx.input(format!("{} x {n}: {}", u.name, u.text(3)));
    let (b0, b1, b2, ok) = growth(&u, n);
    cx.nontrivial = true;
    cx.class(if ok { "accepted" } else { "refused" });
    judge(&u, n, b0, b1, b2)
}
fn units() -> &'static Vec<Unit> {
    static U: std::sync::OnceLock<Vec<Unit>> = std::sync::OnceLock::new();
    U.get_or_init(fixed_units)
}

/// no text makes the code request much more than its size
fn c22_absolute(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = match s.below(4) {
        0 => sess::garbage(s),
        1 | 2 => sess::mutated(s),
        _ => sess::session(s, &sess::Opt::default()).plain(),
    };
    cx.input(t.clone());
    let (ok, b, l) = meter::bytes(|| work(&t));
    cx.nontrivial = t.len() > 100;
    cx.class(if ok { "accepted" } else { "refused" });
    let n = t.len() as u64;
    if std::env::var("SDP_MEASURE").is_ok() {
        use std::sync::atomic::AtomicU64;
        static A: AtomicU64 = AtomicU64::new(0);
        static B: AtomicU64 = AtomicU64::new(0);
        let (x, y) = (b / (n + 500), l / (n + 500));
        if A.fetch_max(x, Ordering::Relaxed) < x || B.fetch_max(y, Ordering::Relaxed) < y {
            eprintln!("{n} bytes: {x} per byte in all, {y} per byte at once");
        }
    }
    ensure!(b <= 1_500 * (n + 500), "{b} bytes are requested for a text of {n} bytes");
    ensure!(l <= 1_000 * (n + 500), "{l} bytes are requested at once for a text of {n} bytes");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// work: processor time as a screen, instructions executed as the verdict

fn cpu_of(t: &str, reps: usize) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..reps {
        let a = meter::cpu();
        std::hint::black_box(work(t));
        best = best.min(meter::cpu() - a);
    }
    best
}

/// true when the time grows so much faster than the size that the instructions should be counted
fn suspicious(u: &Unit, n: usize, top: usize) -> bool {
    let base = cpu_of(&u.text(n), 4).max(2e-5);
    let mut k = 4;
    while k <= top {
        let t = u.text(n * k);
        let mut c = cpu_of(&t, 1);
        let lim = base * k as f64 * 2.0 + 1e-3;
        if c > lim && c < 2.0 {
            c = c.min(cpu_of(&t, 3));
        }
        if c > lim {
            return true;
        }
        k *= 2;
    }
    false
}

/// instructions executed for the text, by cachegrind
fn instructions(t: &str, dir: &str, tag: &str) -> Result<u64, String> {
    let file = format!("{dir}/{tag}.sdp");
    std::fs::write(&file, t).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(exe)
        .args(["work", &file])
        .output()
        .map_err(|e| format!("valgrind does not start: {e}"))?;
    let _ = std::fs::remove_file(&file);
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    for l in e.lines() {
        if let Some(p) = l.find("I refs:") {
            let n: String = l[p + 7..].chars().filter(|c| c.is_ascii_digit()).collect();
            return n.parse().map_err(|_| format!("no count in {l:?}"));
        }
    }
    Err(format!("no instruction count: {}", e.lines().rev().take(5).collect::<Vec<_>>().join(" / ")))
}

/// Some(reason) when 8 times the elements take over 13 times the instructions
fn confirm(u: &Unit, dir: &str, tag: &str, max_n: usize) -> Result<Option<String>, String> {
    let base = instructions(&u.text(0), dir, tag)?;
    let mut n = 125;
    let t0 = std::time::Instant::now();
    while n <= max_n && t0.elapsed().as_secs() < 150 {
        let a = instructions(&u.text(n), dir, tag)?.saturating_sub(base).max(200_000);
        let b = instructions(&u.text(8 * n), dir, tag)?.saturating_sub(base);
        if b > a * 13 {
            return Ok(Some(format!(
                "work grows faster than the input: {n} times {} take {a} instructions, {} times {b}",
                u.name,
                8 * n
            )));
        }
        n = if n < max_n { (n * 4).min(max_n) } else { n + 1 };
    }
    Ok(None)
}

fn c22_extra(e: &mut Extra) -> Res {
    let t0 = std::time::Instant::now();
    // memory, for every unit written down
    let us = units();
    // what one list does with each element of another may be little: more of them
    let n_of = |u: &Unit, bytes: usize| (if u.name.starts_with("jointly") { bytes * 5 } else { bytes } / u.elem_len()).clamp(100, 40_000);
    for u in us {
        let n = n_of(u, 20_000);
        let (b0, b1, b2, ok) = growth(u, n);
        e.evaluations += 1;
        e.nontrivial += 1;
        *e.classes.entry(if ok { "unit accepted".into() } else { "unit refused".into() }).or_insert(0) += 1;
        if let Err(f) = judge(u, n, b0, b1, b2) {
            e.failing_input = u.text(5);
            return Err(f);
        }
    }
    // processor time
    let (start, top) = if e.thorough { (60_000, 32) } else { (24_000, 16) };
    let mut all: Vec<Unit> = us.clone();
    let mut src = Src::random(e.seed.wrapping_mul(77) + 5, 40);
    for _ in 0..(if e.thorough { 400 } else { 60 }) {
        all.push(random_unit(&mut src));
    }
    let next = AtomicUsize::new(0);
    let hits: Mutex<Vec<usize>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= all.len() {
                    break;
                }
                let u = &all[i];
                if suspicious(u, n_of(u, start), if u.name.starts_with("jointly") { 32.max(top) } else { top }) {
                    hits.lock().unwrap().push(i);
                }
            });
        }
    });
    e.evaluations += all.len() as u64;
    e.nontrivial += all.len() as u64;
    let mut hits = hits.into_inner().unwrap();
    hits.sort();
    e.notes.insert("seconds until counting".into(), json!(t0.elapsed().as_secs()));
    e.notes.insert("units timed".into(), json!(all.len()));
    e.notes.insert("units whose instructions were counted".into(), json!(hits.iter().map(|i| all[*i].name.clone()).collect::<Vec<_>>()));
    // always count a few, so that the counting itself is seen to work
    let mut todo: Vec<usize> = hits.clone();
    todo.truncate(16);
    let hits = todo.len();
    for k in 0..(if e.thorough { 40 } else { 6 }) {
        todo.push((e.seed as usize * 31 + k * 97) % us.len());
    }
    let dir = format!("{}/sdp-c22-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).map_err(|x| Fail { msg: format!("ERROR: {dir}: {x}") })?;
    let next = AtomicUsize::new(0);
    let found: Mutex<Vec<(usize, Result<Option<String>, String>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= todo.len() {
                    break;
                }
                let u = &all[todo[k]];
                let most = if u.more.is_empty() { 4_000 } else { (500_000 / u.elem_len()).clamp(4_000, 16_000) };
                let r = confirm(u, &dir, &format!("t{k}"), if k < hits { most } else { 250 });
                found.lock().unwrap().push((k, r));
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|x| x.0);
    for (k, r) in found {
        e.evaluations += 1;
        match r {
            Err(m) => return fail(format!("ERROR: {m}")),
            Ok(None) => {}
            Ok(Some(m)) => {
                e.failing_input = all[todo[k]].text(5);
                return fail(m);
            }
        }
    }
    for i in [0, 70, 90, 150, 300] {
        if let Some(u) = us.get(i) {
            e.samples.push(json!({"unit": u.name, "with 3 elements": u.text(3)}));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "an element repeated n and 4n times; a text of over 100 bytes",
        subs: vec![
            Sub { name: "growth", quick: 8_000, thorough: 300_000, f: c22_growth },
            Sub { name: "absolute", quick: 60_000, thorough: 2_000_000, f: c22_absolute },
        ],
        extra: Some(c22_extra),
    }]
}
