//! Attributes built directly out of their public parts, without the parser.

use crate::engine::Src;
use crate::gen::{self, count, int, port, text, token, token_of, u32v, u64v, u8v, Env};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::{SdpBandwidth, SdpConnection, SdpOrigin, SdpTiming};

pub fn ip(s: &mut Src) -> IpAddr {
    if s.pct(60) {
        IpAddr::V4(Ipv4Addr::from(gen::v4_octets(s)))
    } else {
        IpAddr::V6(Ipv6Addr::from(gen::v6_segments(s)))
    }
}
pub fn address(s: &mut Src) -> Address {
    if s.pct(65) {
        let i = ip(s);
        match s.below(3) {
            0 => Address::Ip(i),
            1 => ExplicitlyTypedAddress::from(i).into(),
            _ => Address::from_str(&i.to_string()).expect("an address"),
        }
    } else {
        let h = gen::host(s).1;
        if s.flip() {
            Address::Fqdn(h)
        } else {
            Address::from_str(&h).expect("a host name")
        }
    }
}
pub fn typed(s: &mut Src) -> ExplicitlyTypedAddress {
    if s.pct(65) {
        match ip(s) {
            IpAddr::V4(x) if s.flip() => x.into(),
            IpAddr::V6(x) if s.flip() => x.into(),
            i => i.into(),
        }
    } else {
        let h = gen::host(s).1;
        let t = if s.flip() { AddressType::IpV4 } else { AddressType::IpV6 };
        if s.flip() {
            ExplicitlyTypedAddress::Fqdn { address_type: t, domain: h }
        } else {
            ExplicitlyTypedAddress::try_from((t, h.as_str())).expect("a host name")
        }
    }
}
pub fn origin(s: &mut Src) -> SdpOrigin {
    SdpOrigin { username: if s.flip() { "-".into() } else { token(s) }, session_id: u64v(s), session_version: u64v(s), unicast_addr: typed(s) }
}
pub fn timing(s: &mut Src) -> SdpTiming {
    SdpTiming { start: u64v(s), stop: u64v(s) }
}
pub fn connection(s: &mut Src) -> SdpConnection {
    let address = typed(s);
    let ttl = if s.pct(30) { Some(u8v(s)) } else { None };
    let amount = if ttl.is_some() && s.flip() { Some(u32v(s)) } else { None };
    SdpConnection { address, ttl, amount }
}
pub fn bandwidth(s: &mut Src) -> SdpBandwidth {
    let v = u32v(s);
    match s.below(4) {
        0 => SdpBandwidth::As(v),
        1 => SdpBandwidth::Ct(v),
        2 => SdpBandwidth::Tias(v),
        _ => {
            let mut t = token_of(s, &|c| c != ':');
            if ["AS", "CT", "TIAS"].contains(&t.to_uppercase().as_str()) {
                t.push('X');
            }
            SdpBandwidth::Unknown(t, v)
        }
    }
}

fn pt_of(s: &mut Src, env: &Env, max: u64) -> u8 {
    if !env.pts.is_empty() && s.pct(60) {
        *s.pick(&env.pts)
    } else {
        int(s, 0, max) as u8
    }
}
pub fn rtpmap(s: &mut Src, pt: u8) -> SdpAttributeRtpmap {
    let name = if s.flip() { (*s.pick(&["opus", "VP8", "H264", "rtx", "red", "telephone-event"])).to_string() } else { token_of(s, &|c| c != '/') };
    let mut r = SdpAttributeRtpmap::new(pt, name, u32v(s));
    if s.pct(40) {
        r.channels = Some(u32v(s));
    }
    r
}
fn candidate(s: &mut Src) -> SdpAttributeCandidate {
    let mut c = SdpAttributeCandidate::new(
        token(s),
        u32v(s),
        if s.flip() { SdpAttributeCandidateTransport::Udp } else { SdpAttributeCandidateTransport::Tcp },
        u64v(s),
        address(s),
        port(s),
        match s.below(4) {
            0 => SdpAttributeCandidateType::Host,
            1 => SdpAttributeCandidateType::Srflx,
            2 => SdpAttributeCandidateType::Prflx,
            _ => SdpAttributeCandidateType::Relay,
        },
    );
    if s.pct(40) {
        c.raddr = Some(address(s));
    }
    if s.pct(40) {
        c.rport = Some(port(s));
    }
    if s.pct(40) {
        c.tcp_type = Some(match s.below(3) {
            0 => SdpAttributeCandidateTcpType::Active,
            1 => SdpAttributeCandidateTcpType::Passive,
            _ => SdpAttributeCandidateTcpType::Simultaneous,
        });
    }
    if s.pct(40) {
        c.generation = Some(u32v(s));
    }
    if s.pct(40) {
        c.ufrag = Some(token(s));
    }
    if s.pct(40) {
        c.networkcost = Some(u32v(s));
    }
    if s.pct(40) {
        for _ in 0..count(s, 1, 3, 20) {
            let mut n = token(s);
            if gen::CAND_EXT.contains(&n.to_lowercase().as_str()) {
                n.push('x');
            }
            c.unknown_extensions.push((n, token(s)));
        }
    }
    c
}
pub fn fmtp_params() -> SdpAttributeFmtpParameters {
    SdpAttributeFmtpParameters {
        packetization_mode: 0,
        level_asymmetry_allowed: false,
        profile_level_id: 0x42_000a,
        max_fs: 0,
        max_cpb: 0,
        max_dpb: 0,
        max_br: 0,
        max_mbps: 0,
        max_fr: 0,
        profile: None,
        level_idx: None,
        tier: None,
        maxplaybackrate: 48000,
        maxaveragebitrate: 0,
        usedtx: false,
        stereo: false,
        useinbandfec: false,
        cbr: false,
        ptime: 0,
        minptime: 0,
        maxptime: 0,
        encodings: vec![],
        dtmf_tones: String::new(),
        rtx: None,
        unknown_tokens: vec![],
    }
}
fn fmtp(s: &mut Src, env: &Env) -> SdpAttributeFmtp {
    let payload_type = pt_of(s, env, 255);
    let mut p = fmtp_params();
    match s.below(8) {
        0 => p.encodings = (0..count(s, 2, 4, 30)).map(|_| int(s, 0, 127) as u8).collect(),
        1 => {
            let v: Vec<String> = (0..count(s, 1, 4, 30)).map(|_| if s.flip() { s.below(100).to_string() } else { format!("{}-{}", s.below(50), 50 + s.below(50)) }).collect();
            p.dtmf_tones = v.join(",");
        }
        _ => {
            let d = *s.pick(&[10u64, 30, 60, 100]);
            macro_rules! n { ($($f:ident $m:expr;)*) => { $( if s.pct(d) { p.$f = int(s, 0, $m) as u32; } )* } }
            macro_rules! b { ($($f:ident)*) => { $( if s.pct(d) { p.$f = s.flip(); } )* } }
            n! { packetization_mode 2; profile_level_id 0xff_ffff; max_fs 0xffff_ffff; max_cpb 0xffff_ffff; max_dpb 0xffff_ffff; max_br 0xffff_ffff;
            max_mbps 0xffff_ffff; max_fr 0xffff_ffff; maxplaybackrate 0xffff_ffff; maxaveragebitrate 0xffff_ffff; ptime 0xffff_ffff; minptime 0xffff_ffff; maxptime 0xffff_ffff; }
            b! { level_asymmetry_allowed usedtx stereo useinbandfec cbr }
            if s.pct(d) {
                p.profile = Some(s.below(3) as u8);
            }
            if s.pct(d) {
                p.level_idx = Some(s.below(32) as u8);
            }
            if s.pct(d) {
                p.tier = Some(s.below(2) as u8);
            }
            if s.pct(d / 2) {
                p.rtx = Some(RtxFmtpParameters { apt: u8v(s), rtx_time: if s.flip() { Some(u32v(s)) } else { None } });
            }
            if s.pct(d) {
                p.unknown_tokens = (0..count(s, 1, 3, 20))
                    .map(|_| {
                        let mut n = token_of(s, &|c| c != ';' && c != '=');
                        if gen::FMTP.iter().any(|f| f.0.to_uppercase() == n.to_uppercase()) {
                            n.push('x');
                        }
                        format!("{n}={}", gen::text_of(s, &|c| c != ';'))
                    })
                    .collect();
            }
        }
    }
    SdpAttributeFmtp { payload_type, parameters: p }
}
fn xy(s: &mut Src) -> SdpAttributeImageAttrXyRange {
    let v = |s: &mut Src| if s.pct(70) { s.range(1, 4096) as u32 } else { u32v(s) };
    match s.below(3) {
        0 => {
            let a = v(s).min(u32::MAX - 1);
            let b = if s.pct(70) { a.saturating_add(s.range(1, 4096) as u32) } else { gen::int(s, a as u64 + 1, u32::MAX as u64) as u32 };
            SdpAttributeImageAttrXyRange::Range(a, b, if s.flip() { Some(v(s)) } else { None })
        }
        _ => {
            let n = count(s, 1, 3, 30);
            SdpAttributeImageAttrXyRange::DiscreteValues((0..n).map(|_| v(s)).collect())
        }
    }
}
fn sp(s: &mut Src, lo: u64, hi: u64) -> (u64, f32) {
    let v = s.range(lo, hi);
    (v, format!("{}.{:04}", v / 10000, v % 10000).parse().unwrap())
}
fn imglist(s: &mut Src) -> SdpAttributeImageAttrSetList {
    if s.pct(20) {
        return SdpAttributeImageAttrSetList::Wildcard;
    }
    let n = count(s, 1, 3, 20);
    SdpAttributeImageAttrSetList::Sets(
        (0..n)
            .map(|_| {
                let (x, y) = (xy(s), xy(s));
                let sar = if s.pct(40) {
                    Some(match s.below(3) {
                        0 => SdpAttributeImageAttrSRange::DiscreteValues(vec![sp(s, 1000, 99999).1]),
                        1 => {
                            let (v, a) = sp(s, 1000, 99998);
                            SdpAttributeImageAttrSRange::Range(a, sp(s, v + 1, 99999).1)
                        }
                        _ => {
                            let (v, a) = sp(s, 1000, 50000);
                            let (v2, b) = sp(s, v + 1, 80000);
                            SdpAttributeImageAttrSRange::DiscreteValues(vec![a, b, sp(s, v2 + 1, 99999).1])
                        }
                    })
                } else {
                    None
                };
                let par = if s.pct(40) {
                    let (v, a) = sp(s, 1000, 99998);
                    Some(SdpAttributeImageAttrPRange { min: a, max: sp(s, v + 1, 99999).1 })
                } else {
                    None
                };
                let q = match s.below(10) {
                    0..=3 => Some(s.range(0, 100) as f32 / 100.0),
                    4 => Some(gen::small_decimal(s, 20).parse().unwrap()),
                    _ => None,
                };
                SdpAttributeImageAttrSet { x, y, sar, par, q }
            })
            .collect(),
    )
}
fn imageattr(s: &mut Src) -> SdpAttributeImageAttr {
    let pt = if s.pct(25) { SdpAttributePayloadType::Wildcard } else { SdpAttributePayloadType::PayloadType(u8v(s)) };
    let none = || SdpAttributeImageAttrSetList::Sets(vec![]);
    let (send, recv) = match s.below(3) {
        0 => (imglist(s), none()),
        1 => (none(), imglist(s)),
        _ => (imglist(s), imglist(s)),
    };
    SdpAttributeImageAttr { pt, send, recv }
}
pub fn rid(s: &mut Src, env: &Env) -> SdpAttributeRid {
    let id = gen::rid_id(s);
    let direction = if s.flip() { SdpSingleDirection::Send } else { SdpSingleDirection::Recv };
    let formats: Vec<u16> = match &env.rid_pts {
        Some(v) if v.is_empty() => vec![],
        _ if s.flip() => vec![],
        Some(v) => (0..count(s, 1, 3, 10)).map(|_| *s.pick(v)).collect(),
        None => (0..count(s, 1, 3, 10)).map(|_| int(s, 0, 65535) as u16).collect(),
    };
    let v = |s: &mut Src| if s.pct(30) { u32v(s) } else { 0 };
    let params = SdpAttributeRidParameters {
        max_width: v(s),
        max_height: v(s),
        max_fps: v(s),
        max_fs: v(s),
        max_br: v(s),
        max_pps: v(s),
        unknown: if s.pct(75) {
            vec![]
        } else {
            (0..count(s, 1, 3, 10))
                .map(|_| {
                    let mut n = token_of(s, &|c| !";=".contains(c));
                    if ["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps", "depends", "pt"].contains(&n.as_str()) {
                        n.push('x');
                    }
                    format!("{n}={}", gen::text_of(s, &|c| c != ';'))
                })
                .collect()
        },
    };
    let depends = if s.pct(75) { vec![] } else { (0..count(s, 1, 3, 10)).map(|_| gen::rid_id(s)).collect() };
    SdpAttributeRid { id, direction, formats, params, depends }
}
fn versions(s: &mut Src, ids: Option<&[String]>) -> Vec<SdpAttributeSimulcastVersion> {
    (0..count(s, 1, 3, 10))
        .map(|_| {
            let v: Vec<String> = (0..count(s, 1, 2, 6))
                .map(|_| {
                    let id = match ids {
                        Some(v) => s.pick(v).clone(),
                        None => gen::rid_id(s),
                    };
                    if s.pct(25) {
                        format!("~{id}")
                    } else {
                        id
                    }
                })
                .collect();
            if s.flip() {
                SdpAttributeSimulcastVersion::new(&v.join(","))
            } else {
                SdpAttributeSimulcastVersion { ids: v.iter().map(|i| SdpAttributeSimulcastId::new(i)).collect() }
            }
        })
        .collect()
}
/// None when there is nothing it may name
fn simulcast(s: &mut Src, env: &Env) -> Option<SdpAttributeSimulcast> {
    let (mut a, mut b) = (true, true);
    if env.ctx {
        a = !env.send_rids.is_empty();
        b = !env.recv_rids.is_empty();
    }
    if a && b {
        match s.below(3) {
            0 => a = false,
            1 => b = false,
            _ => {}
        }
    }
    if !a && !b {
        return None;
    }
    let (si, ri) = if env.ctx { (Some(&env.send_rids[..]), Some(&env.recv_rids[..])) } else { (None, None) };
    Some(SdpAttributeSimulcast { send: if a { versions(s, si) } else { vec![] }, receive: if b { versions(s, ri) } else { vec![] } })
}

pub fn attr(s: &mut Src, kind: &str, env: &Env) -> Option<SdpAttribute> {
    use SdpAttribute as A;
    Some(match kind {
        "bundle-only" => A::BundleOnly,
        "end-of-candidates" => A::EndOfCandidates,
        "extmap-allow-mixed" => A::ExtmapAllowMixed,
        "ice-lite" => A::IceLite,
        "ice-mismatch" => A::IceMismatch,
        "inactive" => A::Inactive,
        "recvonly" => A::Recvonly,
        "sendonly" => A::Sendonly,
        "sendrecv" => A::Sendrecv,
        "rtcp-mux" => A::RtcpMux,
        "rtcp-mux-only" => A::RtcpMuxOnly,
        "rtcp-rsize" => A::RtcpRsize,
        "candidate" => A::Candidate(candidate(s)),
        "dtls-message" => A::DtlsMessage(if s.flip() { SdpAttributeDtlsMessage::Client(token(s)) } else { SdpAttributeDtlsMessage::Server(token(s)) }),
        "extmap" => A::Extmap(SdpAttributeExtmap {
            id: int(s, 0, 65535) as u16,
            direction: match s.below(4) {
                0 => Some(SdpAttributeDirection::Recvonly),
                1 => Some(SdpAttributeDirection::Sendonly),
                2 => Some(SdpAttributeDirection::Sendrecv),
                _ => None,
            },
            url: token(s),
            extension_attributes: if s.pct(60) {
                None
            } else {
                let v: Vec<String> = (0..count(s, 1, 3, 20)).map(|_| token(s)).collect();
                Some(v.join(" "))
            },
        }),
        "fingerprint" => {
            let h = match s.below(5) {
                0 => SdpAttributeFingerprintHashType::Sha1,
                1 => SdpAttributeFingerprintHashType::Sha224,
                2 => SdpAttributeFingerprintHashType::Sha256,
                3 => SdpAttributeFingerprintHashType::Sha384,
                _ => SdpAttributeFingerprintHashType::Sha512,
            };
            let n = gen::HASHES.iter().find(|x| x.0 == crate::proj::hash_name(&h)).unwrap().1;
            let b = gen::fp_bytes(s, n);
            A::Fingerprint(if s.flip() {
                SdpAttributeFingerprint { hash_algorithm: h, fingerprint: b }
            } else {
                SdpAttributeFingerprint::try_from((h, b)).expect("a fingerprint of the right length")
            })
        }
        "fmtp" => A::Fmtp(fmtp(s, env)),
        "framerate" => A::FrameRate(if s.pct(20) {
            gen::small_decimal(s, 30).parse().unwrap()
        } else if s.flip() { s.range(1, 240) as f64 } else { s.range(1, 1_000_000) as f64 / 1000.0 }),
        "group" => A::Group(SdpAttributeGroup {
            semantics: match s.below(7) {
                0 => SdpAttributeGroupSemantic::LipSynchronization,
                1 => SdpAttributeGroupSemantic::FlowIdentification,
                2 => SdpAttributeGroupSemantic::SingleReservationFlow,
                3 => SdpAttributeGroupSemantic::AlternateNetworkAddressType,
                4 => SdpAttributeGroupSemantic::ForwardErrorCorrection,
                5 => SdpAttributeGroupSemantic::DecodingDependency,
                _ => SdpAttributeGroupSemantic::Bundle,
            },
            tags: (0..count(s, 0, 4, 60)).map(|_| token(s)).collect(),
        }),
        "ice-options" => A::IceOptions((0..count(s, 1, 4, 40)).map(|_| token(s)).collect()),
        "ice-pacing" => A::IcePacing(int(s, 0, 9_999_999_999)),
        "ice-pwd" => A::IcePwd(text(s)),
        "ice-ufrag" => A::IceUfrag(text(s)),
        "identity" => A::Identity(text(s)),
        "label" => A::Label(text(s)),
        "mid" => A::Mid(text(s)),
        "imageattr" => A::ImageAttr(imageattr(s)),
        "max-message-size" => A::MaxMessageSize(u64v(s)),
        "maxptime" => A::MaxPtime(u64v(s)),
        "ptime" => A::Ptime(u64v(s)),
        "msid" => A::Msid(SdpAttributeMsid { id: token(s), appdata: if s.flip() { Some(token(s)) } else { None } }),
        "msid-semantic" => A::MsidSemantic(SdpAttributeMsidSemantic {
            semantic: if s.flip() { "WMS".into() } else { token(s) },
            msids: (0..count(s, 0, 3, 30)).map(|_| token(s)).collect(),
        }),
        "rid" => A::Rid(rid(s, env)),
        "remote-candidates" => A::RemoteCandidate(SdpAttributeRemoteCandidate { component: u32v(s), address: address(s), port: port(s) }),
        "rtpmap" => {
            let pt = pt_of(s, env, 127);
            A::Rtpmap(rtpmap(s, pt))
        }
        "rtcp" => {
            let p = port(s) as u16;
            A::Rtcp(if s.flip() { SdpAttributeRtcp::new(p) } else { SdpAttributeRtcp { port: p, unicast_addr: Some(typed(s)) } })
        }
        "rtcp-fb" => {
            let (feedback_type, params): (_, &[&str]) = match s.below(6) {
                0 => (SdpAttributeRtcpFbType::Nack, &["", "sli", "pli", "rpsi", "app"]),
                1 => (SdpAttributeRtcpFbType::Ccm, &["", "fir", "tmmbr", "tstr", "vbcm"]),
                2 => (SdpAttributeRtcpFbType::Ack, &["rpsi", "app"]),
                3 => (SdpAttributeRtcpFbType::Remb, &[""]),
                4 => (SdpAttributeRtcpFbType::TransCc, &[""]),
                _ => (SdpAttributeRtcpFbType::TrrInt, &["#"]),
            };
            let mut parameter = (*s.pick(params)).to_string();
            if parameter == "#" {
                parameter = u32v(s).to_string();
            }
            let extra = if !parameter.is_empty() && s.pct(30) { text(s) } else { String::new() };
            let payload_type =
                if s.pct(30) { SdpAttributePayloadType::Wildcard } else { SdpAttributePayloadType::PayloadType(pt_of(s, env, 255)) };
            A::Rtcpfb(SdpAttributeRtcpFb { payload_type, feedback_type, parameter, extra })
        }
        "sctpmap" => A::Sctpmap(SdpAttributeSctpmap { port: port(s) as u16, channels: u32v(s) }),
        "sctp-port" => A::SctpPort(port(s) as u64),
        "setup" => A::Setup(match s.below(4) {
            0 => SdpAttributeSetup::Active,
            1 => SdpAttributeSetup::Actpass,
            2 => SdpAttributeSetup::Holdconn,
            _ => SdpAttributeSetup::Passive,
        }),
        "simulcast" => A::Simulcast(simulcast(s, env)?),
        "ssrc" => {
            let mut r = SdpAttributeSsrc::new(u32v(s));
            match s.below(3) {
                0 => {}
                1 => r.attribute = Some(token_of(s, &|c| c != ':')),
                _ => {
                    r.attribute = Some(token_of(s, &|c| c != ':'));
                    r.value = Some(text(s));
                }
            }
            A::Ssrc(r)
        }
        "ssrc-group" => A::SsrcGroup(
            match s.below(5) {
                0 => SdpSsrcGroupSemantic::Duplication,
                1 => SdpSsrcGroupSemantic::FlowIdentification,
                2 => SdpSsrcGroupSemantic::ForwardErrorCorrection,
                3 => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,
                _ => SdpSsrcGroupSemantic::Sim,
            },
            (0..count(s, 1, 3, 40)).map(|_| SdpAttributeSsrc::new(u32v(s))).collect(),
        ),
        other => panic!("cannot build {other}"),
    })
}
