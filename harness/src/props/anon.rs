//! C17 and C18: the anonymiser and anonymised copies.

use crate::engine::*;
use crate::gen;
use crate::{dict, proj, sess};
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer, ToBytesVec};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::SdpMedia;
use webrtc_sdp::{parse_sdp, SdpSession};

// ---------------------------------------------------------------------------------------------
// C17

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum Kind {
    Host,
    V4,
    V6,
    Port,
    User,
    Pwd,
    Ufrag,
    Print,
    Cname,
}
const KINDS: &[Kind] = &[Kind::Host, Kind::V4, Kind::V6, Kind::Port, Kind::User, Kind::Pwd, Kind::Ufrag, Kind::Print, Kind::Cname];

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Val {
    T(String),
    I(IpAddr),
    P(u32),
    B(Vec<u8>),
}
/// `via`: which of the calls that mask this kind
fn mask(an: &mut StatefulSdpAnonymizer, k: Kind, v: &Val, via: u64) -> Result<Val, Fail> {
    Ok(match (k, v) {
        (Kind::Host, Val::T(t)) => match via % 4 {
            0 | 1 => Val::T(an.mask_host(t)),
            2 => match an.mask_address(&Address::Fqdn(t.clone())) {
                Address::Fqdn(x) => Val::T(x),
                a => return fail(format!("mask_address turns a name into {a:?}")),
            },
            _ => {
                let ty = if via & 4 == 0 { AddressType::IpV4 } else { AddressType::IpV6 };
                match an.mask_typed_address(&ExplicitlyTypedAddress::Fqdn { address_type: ty, domain: t.clone() }) {
                    ExplicitlyTypedAddress::Fqdn { address_type, domain } => {
                        ensure!(address_type == ty, "mask_typed_address changes the type of a name");
                        Val::T(domain)
                    }
                    a => return fail(format!("mask_typed_address turns a name into {a:?}")),
                }
            }
        },
        (Kind::V4, Val::I(i)) | (Kind::V6, Val::I(i)) => {
            let r = match via % 4 {
                0 | 1 => an.mask_ip(i),
                2 => match an.mask_address(&Address::Ip(*i)) {
                    Address::Ip(x) => x,
                    a => return fail(format!("mask_address turns an address into {a:?}")),
                },
                _ => match an.mask_typed_address(&ExplicitlyTypedAddress::Ip(*i)) {
                    ExplicitlyTypedAddress::Ip(x) => x,
                    a => return fail(format!("mask_typed_address turns an address into {a:?}")),
                },
            };
            ensure!(r.is_ipv4() == i.is_ipv4(), "{i} is replaced by {r}, of another family");
            Val::I(r)
        }
        (Kind::Port, Val::P(p)) => Val::P(an.mask_port(*p)),
        (Kind::User, Val::T(t)) => Val::T(an.mask_origin_user(t)),
        (Kind::Pwd, Val::T(t)) => Val::T(an.mask_ice_password(t)),
        (Kind::Ufrag, Val::T(t)) => Val::T(an.mask_ice_user(t)),
        (Kind::Print, Val::B(b)) => Val::B(an.mask_cert_finger_print(b)),
        (Kind::Cname, Val::T(t)) => Val::T(an.mask_cname(t)),
        _ => return fail("ERROR: harness"),
    })
}
fn value(s: &mut Src, k: Kind, seen: &[Val], images: &[Val]) -> Val {
    let n = seen.len();
    if n > 0 && s.pct(35) {
        return seen[s.idx(n)].clone();
    }
    if n > 0 && s.pct(25) {
        // close to an earlier one
        let v = seen[s.idx(n)].clone();
        let w = match v {
            Val::T(t) => Val::T(match s.below(9) {
                0 => format!("{t}x"),
                6 | 7 if !t.is_empty() => {
                    // one character exchanged
                    let n = t.chars().count();
                    let i = s.idx(n);
                    t.chars().enumerate().map(|(j, c)| if j != i { c } else if c == 'q' { 'r' } else { 'q' }).collect()
                }
                8 => t.repeat(*s.pick(&[2usize, 5, 20, 50])).chars().take(400).collect(),
                1 => format!("{t} "),
                2 => t.chars().skip(1).collect(),
                // names differing in letter case only are the same name
                3 if k != Kind::Host => t.to_uppercase(),
                4 if k != Kind::Host => t.to_lowercase(),
                5 => format!("{t}{t}"),
                _ => format!("0{t}"),
            }),
            Val::I(IpAddr::V4(a)) => {
                let x = u32::from(a) ^ (1 << s.below(32));
                Val::I(IpAddr::V4(Ipv4Addr::from(x)))
            }
            Val::I(IpAddr::V6(a)) => {
                let x = u128::from(a) ^ (1u128 << s.below(128));
                Val::I(IpAddr::V6(Ipv6Addr::from(x)))
            }
            Val::P(p) => Val::P(match s.below(3) {
                0 => p ^ (1 << s.below(32)),
                1 => p.wrapping_add(1),
                _ => p.wrapping_add(65_536),
            }),
            Val::B(mut b) => {
                match s.below(4) {
                    0 => b.push(0),
                    1 => {
                        b.pop();
                    }
                    2 => b.reverse(),
                    _ => {
                        if !b.is_empty() {
                            let i = s.idx(b.len());
                            b[i] ^= 1 << s.below(8);
                        }
                    }
                }
                Val::B(b)
            }
        };
        return w;
    }
    if !images.is_empty() && s.pct(20) {
        // a replacement masked in its turn
        return images[s.idx(images.len())].clone();
    }
    match k {
        Kind::V4 => {
            let o = gen::v4_octets(s);
            Val::I(IpAddr::V4(Ipv4Addr::from(o)))
        }
        Kind::V6 => {
            let g = gen::v6_segments(s);
            Val::I(IpAddr::V6(Ipv6Addr::from(g)))
        }
        Kind::Port => Val::P(if s.pct(70) { gen::port(s) } else { gen::u32v(s) }),
        Kind::Print => {
            let n = if s.pct(60) { *s.pick(&[20usize, 28, 32, 48, 64]) } else { s.range(0, 70) as usize };
            Val::B(gen::fp_bytes(s, n))
        }
        Kind::Host => Val::T(match s.below(4) {
            0 => format!("fqdn-{:08}", s.below(20)),
            _ => gen::host(s).1,
        }),
        _ => {
            let p = match k {
                Kind::User => "origin-user-",
                Kind::Pwd => "ice-password-",
                Kind::Ufrag => "ice-user-",
                _ => "cname-",
            };
            Val::T(match s.below(8) {
                0 => format!("{p}{:08}", s.below(20)),
                1 => String::new(),
                2 => (*s.pick(&["a", "b", "A", " ", "-", "1", "01", "\u{e9}", "e\u{301}", "\0"])).to_string(),
                3 => (*s.pick(gen::WORDS)).to_string(),
                _ => gen::text(s),
            })
        }
    }
}

/// what a stable one-to-one mapping of one kind is
#[derive(Default)]
struct Map {
    to: HashMap<Val, Val>,
    from: HashMap<Val, Val>,
    order: Vec<Val>,
    images: Vec<Val>,
}
impl Map {
    fn see(&mut self, k: Kind, v: &Val, r: &Val) -> Res {
        match self.to.get(v) {
            Some(old) => ensure!(old == r, "{k:?} {v:?} was replaced by {old:?} and now by {r:?}"),
            None => {
                if let Some(w) = self.from.get(r) {
                    return fail(format!("{k:?} {v:?} and {w:?} are both replaced by {r:?}"));
                }
                self.to.insert(v.clone(), r.clone());
                self.from.insert(r.clone(), v.clone());
                self.order.push(v.clone());
                self.images.push(r.clone());
            }
        }
        Ok(())
    }
}

fn c17(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = match s.below(10) {
        0..=4 => s.range(1, 12),
        5..=7 => s.range(10, 60),
        _ => s.range(20, 40 + s.size * 8),
    };
    let few = s.flip();
    let kinds: Vec<Kind> = if few { (0..s.range(1, 3)).map(|_| *s.pick(KINDS)).collect() } else { KINDS.to_vec() };
    let mut an = StatefulSdpAnonymizer::new();
    let mut maps: BTreeMap<Kind, Map> = BTreeMap::new();
    let mut calls: Vec<(Kind, Val, u64)> = vec![];
    let mut log = String::new();
    let mut repeats = 0;
    for _ in 0..n {
        let k = *s.pick(&kinds);
        let m = maps.entry(k).or_default();
        let v = value(s, k, &m.order, &m.images);
        let via = s.below(8);
        if m.to.contains_key(&v) {
            repeats += 1;
        }
        let r = mask(&mut an, k, &v, via)?;
        log.push_str(&format!("{k:?} {v:?} -> {r:?}\n"));
        cx.input = log.clone();
        maps.get_mut(&k).unwrap().see(k, &v, &r)?;
        calls.push((k, v, via));
    }
    cx.nontrivial = repeats > 0;
    cx.class_if(n > 255, "over 255 calls");
    cx.class_if(repeats > 0, "with repeated values");
    // still the same at the end
    for (k, m) in &maps {
        for v in &m.order {
            let via = s.below(8);
            let r = mask(&mut an, *k, v, via)?;
            ensure!(r == m.to[v], "{k:?} {v:?} was replaced by {:?} and at the end by {r:?}", m.to[v]);
        }
    }
    // without the calls for other kinds
    let k = *s.pick(&kinds);
    let mut alone = StatefulSdpAnonymizer::default();
    for (k2, v, via) in &calls {
        if *k2 == k {
            let r = mask(&mut alone, k, v, *via)?;
            ensure!(r == maps[&k].to[v], "{k:?} {v:?} is replaced by {:?} when there are calls for other kinds and by {r:?} without them", maps[&k].to[v]);
        }
    }
    Ok(())
}
fn c17_extra(e: &mut Extra) -> Res {
    // long lives: counters pass every width a counter may have by mistake
    let n: u32 = if e.thorough { 3_000_000 } else { 140_000 };
    for k in KINDS {
        let mut an = StatefulSdpAnonymizer::new();
        let mut m = Map::default();
        let val = |i: u32| -> Val {
            let x = i.wrapping_mul(2_654_435_761).wrapping_add(e.seed as u32);
            match k {
                Kind::V4 => Val::I(IpAddr::V4(Ipv4Addr::from(x))),
                Kind::V6 => Val::I(IpAddr::V6(Ipv6Addr::from((x as u128) << 64 | i as u128))),
                Kind::Port => Val::P(i),
                Kind::Print => Val::B(format!("{x:08x}{i:08x}0123").into_bytes()),
                _ => Val::T(format!("v{x}")),
            }
        };
        for i in 0..n {
            let v = val(i);
            e.evaluations += 1;
            let r = mask(&mut an, *k, &v, i as u64)?;
            if let Err(x) = m.see(*k, &v, &r) {
                e.failing_input = format!("{k:?}: {} distinct values", i + 1);
                return Err(x);
            }
        }
        e.nontrivial += 1;
        for i in (0..n).step_by(7) {
            let v = val(i);
            let r = mask(&mut an, *k, &v, 0)?;
            if let Err(x) = m.see(*k, &v, &r) {
                e.failing_input = format!("{k:?}: value {i} again after {n} distinct values");
                return Err(x);
            }
        }
    }
    for x in [0u64, 1, 255, 256, 65_535, 65_536, 1 << 31, 1 << 32, 1 << 48, u64::MAX, 0x0102_0304_0506_0708] {
        e.evaluations += 1;
        let b = x.to_byte_vec();
        let back = b.iter().fold(0u128, |a, y| a << 8 | *y as u128);
        if b.len() != 8 || back != x as u128 {
            e.failing_input = x.to_string();
            return fail(format!("{x}.to_byte_vec() is {b:?}"));
        }
    }
    e.samples.push(serde_json::json!({"sub": "long lives", "input": format!("{n} distinct values of each kind, then every seventh again")}));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

/// the parts that mask a name or an address, not the calls that choose between them
fn addr_mask(an: &mut StatefulSdpAnonymizer, a: &Address) -> Address {
    match a {
        Address::Fqdn(h) => Address::Fqdn(an.mask_host(h)),
        Address::Ip(i) => Address::Ip(an.mask_ip(i)),
    }
}
fn typed_mask(an: &mut StatefulSdpAnonymizer, a: &ExplicitlyTypedAddress) -> ExplicitlyTypedAddress {
    match a {
        ExplicitlyTypedAddress::Fqdn { address_type, domain } => ExplicitlyTypedAddress::Fqdn { address_type: *address_type, domain: an.mask_host(domain) },
        ExplicitlyTypedAddress::Ip(i) => ExplicitlyTypedAddress::Ip(an.mask_ip(i)),
    }
}

const NAMES: &[&str] = &["localhost", "local", "a.local", "nas", "x", "example.com", "pc", "host.invalid", "anonymous.invalid", "test", "router", "127.in-addr.arpa", "f3b0c442-98fc-4c14-9afb-000000000000.local", "-", "*"];
const V4S: &[[u8; 4]] = &[
    [0, 0, 0, 0], [127, 0, 0, 1], [255, 255, 255, 255], [224, 0, 0, 1], [233, 252, 0, 7], [239, 255, 255, 250], [10, 0, 0, 1], [172, 16, 0, 1], [192, 168, 0, 1],
    [169, 254, 1, 1], [192, 0, 2, 1], [198, 51, 100, 2], [203, 0, 113, 3], [100, 64, 0, 1], [8, 8, 8, 8], [198, 18, 0, 1], [0, 0, 0, 1], [1, 1, 1, 1],
];
const V6S: &[[u16; 8]] = &[
    [0; 8], [0, 0, 0, 0, 0, 0, 0, 1], [0xff02, 0, 0, 0, 0, 0, 0, 1], [0xff05, 0, 0, 0, 0, 0, 0, 2], [0xfe80, 0, 0, 0, 0, 0, 0, 1], [0xfc00, 0, 0, 0, 0, 0, 0, 1],
    [0xfd00, 0, 0, 0, 0, 0, 0, 1], [0x2001, 0xdb8, 0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 0xffff, 0x7f00, 1], [0x64, 0xff9b, 0, 0, 0, 0, 0x102, 0x304], [0x2002, 0, 0, 0, 0, 0, 0, 0], [0x2001, 0, 0, 0, 0, 0, 0, 1],
];

/// A value that comes back as it is, from a fresh anonymiser and from a used one, is not masked.  (From one of them it
/// might: a value may look like the replacement that is next.)
fn c18_values(s: &mut Src, cx: &mut Ctx) -> Res {
    let k = *s.pick(KINDS);
    let v = match k {
        Kind::Host if s.flip() => Val::T((*s.pick(NAMES)).to_string()),
        Kind::V4 if s.flip() => Val::I(IpAddr::from(*s.pick(V4S))),
        Kind::V6 if s.flip() => Val::I(IpAddr::from(*s.pick(V6S))),
        Kind::Print if s.pct(30) => Val::B(vec![*s.pick(&[0, 255, 1, 0x7f]); *s.pick(&[8usize, 20, 28, 32, 48, 64])]),
        _ => value(s, k, &[], &[]),
    };
    let via = s.below(8);
    cx.input(format!("{k:?} {v:?} by call {via}"));
    cx.nontrivial = true;
    let mut fresh = StatefulSdpAnonymizer::new();
    let mut used = StatefulSdpAnonymizer::new();
    for i in 0..s.range(1, 3) as u32 {
        let w = match &v {
            Val::T(t) => Val::T(format!("{t}-{i}")),
            Val::I(IpAddr::V4(a)) => Val::I(Ipv4Addr::from(u32::from(*a).wrapping_add(i + 1)).into()),
            Val::I(IpAddr::V6(a)) => Val::I(Ipv6Addr::from(u128::from(*a).wrapping_add(i as u128 + 1)).into()),
            Val::P(p) => Val::P(p.wrapping_add(i + 1)),
            Val::B(b) => Val::B(b.iter().copied().chain([i as u8]).collect()),
        };
        mask(&mut used, k, &w, via)?;
    }
    let (a, b) = (mask(&mut fresh, k, &v, via)?, mask(&mut used, k, &v, via)?);
    ensure!(a != v || b != v, "{k:?} {v:?} is not replaced");
    Ok(())
}

/// the attribute with its identifying values replaced by what the anonymiser gives for them
fn expect_attr(a: &SdpAttribute, an: &mut StatefulSdpAnonymizer) -> SdpAttribute {
    let mut a = a.clone();
    match a {
        SdpAttribute::Candidate(ref mut c) => {
            c.address = addr_mask(an, &c.address);
            c.port = an.mask_port(c.port);
            c.raddr = c.raddr.as_ref().map(|x| addr_mask(an, x));
            c.rport = c.rport.map(|x| an.mask_port(x));
            c.ufrag = c.ufrag.as_ref().map(|x| an.mask_ice_user(x));
        }
        SdpAttribute::RemoteCandidate(ref mut c) => {
            c.address = addr_mask(an, &c.address);
            c.port = an.mask_port(c.port);
        }
        SdpAttribute::Fingerprint(ref mut f) => f.fingerprint = an.mask_cert_finger_print(&f.fingerprint),
        SdpAttribute::IcePwd(ref mut x) => *x = an.mask_ice_password(x),
        SdpAttribute::IceUfrag(ref mut x) => *x = an.mask_ice_user(x),
        SdpAttribute::Rtcp(ref mut r) => r.unicast_addr = r.unicast_addr.as_ref().map(|x| typed_mask(an, x)),
        SdpAttribute::Ssrc(ref mut x) => {
            if x.attribute.as_ref().is_some_and(|a| a.eq_ignore_ascii_case("cname")) {
                x.value = x.value.as_ref().map(|v| an.mask_cname(v));
            }
        }
        _ => (),
    }
    a
}
fn expect_media(m: &SdpMedia, an: &mut StatefulSdpAnonymizer, out: &mut Vec<String>) {
    out.push(format!("M {}", proj::mline(m.get_type(), m.get_port(), m.get_port_count(), m.get_proto(), m.get_formats())));
    if let Some(c) = m.get_connection() {
        let mut c = c.clone();
        c.address = typed_mask(an, &c.address);
        out.push(format!("c {}", proj::connection(&c)));
    }
    for b in m.get_bandwidth() {
        out.push(format!("b {}", proj::bandwidth(b, false)));
    }
    for a in m.get_attributes() {
        out.push(format!("a {}", proj::attr(&expect_attr(a, an), false)));
    }
}
fn expect_session(x: &SdpSession, an: &mut StatefulSdpAnonymizer) -> Vec<String> {
    let mut out = vec![format!("v {}", x.version)];
    let mut o = x.origin.clone();
    o.username = an.mask_origin_user(&o.username);
    o.unicast_addr = typed_mask(an, &o.unicast_addr);
    out.push(format!("o {}", proj::origin(&o)));
    out.push(format!("s {}", gen::oq(&x.session)));
    if let Some(t) = &x.timing {
        out.push(format!("t {} {}", t.start, t.stop));
    }
    if let Some(c) = &x.connection {
        let mut c = c.clone();
        c.address = typed_mask(an, &c.address);
        out.push(format!("c {}", proj::connection(&c)));
    }
    for b in &x.bandwidth {
        out.push(format!("b {}", proj::bandwidth(b, false)));
    }
    for a in &x.attribute {
        out.push(format!("a {}", proj::attr(&expect_attr(a, an), false)));
    }
    for m in &x.media {
        expect_media(m, an, &mut out);
    }
    out
}

pub fn check_copy(x: &SdpSession, an: &mut StatefulSdpAnonymizer, cx: &mut Ctx) -> Result<String, Fail> {
    let before = proj::session(x, false);
    let text_before = x.to_string();
    let c = x.masked_clone(an);
    let found = proj::session(&c, false);
    // asked after the fact, so that the copy itself decides which values came first
    let want = expect_session(x, an);
    if want != found {
        return fail(format!("the masked copy is not what the anonymiser gives:\n{}", proj::diff(&want, &found)));
    }
    ensure!(proj::session(x, false) == before && x.to_string() == text_before, "masking changes the original");
    let again = x.masked_clone(an);
    ensure!(proj::session(&again, false) == found, "a second masked copy differs:\n{}", proj::diff(&found, &proj::session(&again, false)));
    let text = c.to_string();
    ensure!(again.to_string() == text, "a second masked copy prints differently");
    // parts by themselves
    let mut parts = vec![];
    for m in &x.media {
        proj::media(&m.masked_clone(an), false, &mut parts);
    }
    let from = found.iter().position(|l| l.starts_with("M ")).unwrap_or(found.len());
    ensure!(parts == found[from..], "masked media sections differ from those of the masked session:\n{}", proj::diff(&found[from..], &parts));
    ensure!(proj::origin(&x.origin.masked_clone(an)) == proj::origin(&c.origin), "the masked origin differs");
    if let (Some(a), Some(b)) = (&x.connection, &c.connection) {
        ensure!(proj::connection(&a.masked_clone(an)) == proj::connection(b), "the masked connection differs");
    }
    for (a, b) in x.attribute.iter().zip(&c.attribute) {
        ensure!(proj::attr(&a.masked_clone(an), false) == proj::attr(b, false), "the masked attribute differs");
    }
    // a repeated copy of the copy is stable, too
    cx.class_if(!x.media.is_empty(), "with media");
    Ok(text)
}

fn c18_any(s: &mut Src, cx: &mut Ctx) -> Res {
    let sens = |k: &str| ["candidate", "remote-candidates", "fingerprint", "ice-pwd", "ice-ufrag", "rtcp", "ssrc"].contains(&k);
    let opt = sess::Opt { max_media: 12, max_attrs: 60, kinds: if s.pct(50) { Some(sens) } else { None } };
    let n = 1 + s.pct(25) as usize;
    let mut an = StatefulSdpAnonymizer::new();
    // the anonymiser may have been used before
    if s.pct(40) {
        for _ in 0..s.range(1, 20) {
            let k = *s.pick(KINDS);
            let v = value(s, k, &[], &[]);
            mask(&mut an, k, &v, 0)?;
        }
    }
    let mut inputs = String::new();
    for _ in 0..n {
        let x = sess::session(s, &opt);
        inputs.push_str(&x.plain());
        inputs.push('\n');
        let text = x.plain();
        cx.input = inputs.clone();
        cx.nontrivial = true;
        let p = match parse_sdp(&text, true) {
            Ok(p) => p,
            Err(e) => return fail(format!("a valid description is rejected: {e}")),
        };
        check_copy(&p, &mut an, cx)?;
    }
    Ok(())
}

/// every identifying value carries a mark that occurs nowhere else
fn secret_word(s: &mut Src) -> String {
    let n = s.below(4000);
    match s.below(4) {
        0 => format!("SeCr{n}"),
        1 => format!("{n}secr"),
        2 => format!("x-SECR-{n}+/="),
        _ => format!("secr{n}"),
    }
}
fn secret_addr(s: &mut Src) -> (&'static str, String) {
    match s.below(4) {
        0 | 1 => ("IP4", format!("198.18.{}.{}", s.below(8), s.below(256))),
        2 => (
            "IP6",
            match s.below(3) {
                0 => format!("2001:db8:5ec::{:x}", s.below(500)),
                1 => format!("2001:0DB8:05EC:0:0:0:0:{:X}", s.below(500)),
                _ => format!("2001:db8:5ec:0:{:x}::1", 1 + s.below(500)),
            },
        ),
        _ => (*s.pick(&["IP4", "IP6"]), format!("{}{}.{}", *s.pick(&["secr", "SECR", "Secr-"]), 1 + s.below(500), *s.pick(&["local", "example.org"]))),
    }
}
fn secret_port(s: &mut Src) -> u64 {
    54_000 + s.below(1000)
}
fn secret_attr(s: &mut Src) -> String {
    match s.below(9) {
        0 | 1 => {
            let mut t = format!(
                "candidate:{} 1 {} {} {} {} typ {}",
                s.below(100),
                *s.pick(&["udp", "tcp", "UDP"]),
                s.below(1000),
                secret_addr(s).1,
                secret_port(s),
                *s.pick(&["host", "srflx", "prflx", "relay"])
            );
            let mut ext = vec![];
            if s.pct(60) {
                ext.push(format!("{} {}", gen::rcase(s, "raddr"), secret_addr(s).1));
            }
            if s.pct(60) {
                ext.push(format!("{} {}", gen::rcase(s, "rport"), secret_port(s)));
            }
            if s.pct(50) {
                ext.push(format!("{} {}", gen::rcase(s, "ufrag"), secret_word(s)));
            }
            if s.pct(30) {
                ext.push(format!("generation {}", s.below(10)));
            }
            if s.pct(30) {
                ext.push("network-cost 10".into());
            }
            if s.pct(30) {
                ext.push("tcptype active".into());
            }
            if s.pct(30) {
                ext.push("network-id 3".into());
            }
            s.shuffle(&mut ext);
            for x in ext {
                t.push(' ');
                t.push_str(&x);
            }
            t
        }
        2 => format!("remote-candidates:{} {} {}", s.below(3), secret_addr(s).1, secret_port(s)),
        3 => format!("{}:{}", gen::rcase(s, "ice-ufrag"), secret_word(s)),
        4 => format!("{}:{}", gen::rcase(s, "ice-pwd"), secret_word(s)),
        5 => {
            let (h, n) = *s.pick(gen::HASHES);
            let mut b = gen::fp_bytes(s, n);
            // marked at either end
            let at = if s.flip() { 0 } else { n - 4 };
            b[at..at + 4].copy_from_slice(&[0x5e, 0xc1, 0x5e, 0xc1]);
            let t: Vec<String> = b.iter().map(|x| format!("{x:02x}")).collect();
            format!("fingerprint:{h} {}", t.join(":"))
        }
        6 => {
            let (t, a) = secret_addr(s);
            format!("rtcp:{} IN {t} {a}", s.below(100))
        }
        7 => format!("ssrc:{} {}:{}", s.below(100), gen::rcase(s, "cname"), secret_word(s)),
        _ => format!("ssrc:{} cname:{} {}", s.below(100), secret_word(s), secret_word(s)),
    }
}
fn c18_marked(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut t = String::from("v=0\r\n");
    let (ty, a) = secret_addr(s);
    t.push_str(&format!("o={} 1 2 IN {ty} {a}\r\ns=call\r\nt=0 0\r\n", secret_word(s)));
    let conn = |s: &mut Src| {
        let (ty, a) = secret_addr(s);
        let tail = *s.pick(&["", "", "", "/127", "/127/3"]);
        format!("c=IN {ty} {a}{tail}\r\n")
    };
    t.push_str(&conn(s));
    let at_session = |t: &str| ["ice-ufrag", "ice-pwd", "fingerprint"].iter().any(|k| t.to_ascii_lowercase().starts_with(k));
    for _ in 0..gen::count(s, 0, 4, 30) {
        let a = secret_attr(s);
        if at_session(&a) {
            t.push_str(&format!("a={a}\r\n"));
        } else {
            t.push_str("a=ice-options:trickle\r\n");
        }
    }
    let media = gen::count(s, 0, 3, 12);
    for _ in 0..media {
        t.push_str(s.pick(&["m=audio 9 UDP/TLS/RTP/SAVPF 96\r\n", "m=video 0 RTP/AVP 0 8\r\n", "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\r\n"]));
        if s.pct(50) {
            t.push_str(&conn(s));
        }
        for _ in 0..gen::count(s, 0, 6, 60) {
            if s.pct(75) {
                t.push_str(&format!("a={}\r\n", secret_attr(s)));
            } else {
                t.push_str(s.pick(&["a=mid:0\r\n", "a=sendrecv\r\n", "b=AS:5\r\n", "a=rtpmap:96 VP8/90\r\n", "a=ssrc:7 msid:a b\r\n", "a=ssrc:8\r\n", "a=rtcp-mux\r\n", "a=bundle-only\r\n", "a=rtcp:9\r\n"]));
            }
        }
    }
    // an unsupported line, which is reported with its text in a warning
    let warn = s.pct(15);
    if warn {
        t.push_str(&format!("a=x-unknown:{}\r\n", secret_word(s)));
    }
    cx.input(&t);
    cx.nontrivial = true;
    let p = match parse_sdp(&t, false) {
        Ok(p) => p,
        Err(e) => return fail(format!("a valid description is rejected: {e}")),
    };
    let mut an = StatefulSdpAnonymizer::new();
    let text = check_copy(&p, &mut an, cx)?;
    let low = text.to_lowercase();
    for mark in ["secr", "198.18.", "2001:db8:5ec", "5e:c1:5e:c1"] {
        if let Some(i) = low.find(mark) {
            let from = low[..i].rfind('\n').map_or(0, |x| x + 1);
            let to = low[i..].find('\n').map_or(low.len(), |x| i + x);
            return fail(format!("the masked copy holds an original value ({mark}): {:?}", &low[from..to]));
        }
    }
    for w in low.split(|c: char| !c.is_ascii_digit()) {
        if w.len() == 5 && w.starts_with("54") {
            return fail(format!("the masked copy holds the original port {w}"));
        }
    }
    // and so does everything else a caller may look at
    let mut an2 = StatefulSdpAnonymizer::new();
    let c = p.masked_clone(&mut an2);
    let all = format!("{c:?} {}", serde_json::to_string(&c).unwrap_or_default()).to_lowercase();
    for mark in ["secr", "198.18.", "2001:db8:5ec", "[94, 193, 94, 193", "94, 193, 94, 193]", "94,193,94,193"] {
        ensure!(!all.contains(mark), "the masked copy holds an original value ({mark}) in its debug or JSON form");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = dict::dict();
    let sub = |name, quick, thorough, f: CaseFn| Sub { name, quick, thorough, f };
    vec![
        Prop {
            id: "C17",
            rule: "a case is a history of anonymiser calls of several kinds, through every call that masks the kind, followed by a map from values to replacements; non-trivial: some value is masked more than once. Extra: one long life for each kind",
            subs: vec![sub("histories", 60_000, 1_500_000, c17)],
            extra: Some(c17_extra),
        },
        Prop {
            id: "C18",
            rule: "a case is a valid description masked by a fresh or used anonymiser and compared with what the anonymiser gives for each value, or one whose identifying values all carry a mark that must not occur in the copy, or one value masked by a fresh and by a used anonymiser; all are non-trivial",
            subs: vec![sub("copies", 60_000, 1_500_000, c18_any), sub("marked", 120_000, 3_000_000, c18_marked), sub("values", 60_000, 1_000_000, c18_values)],
            extra: None,
        },
    ]
}
