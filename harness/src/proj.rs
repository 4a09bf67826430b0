//! Projections of the crate's values to canonical text, written out field by field (independently
//! of the crate's own Debug, Display, PartialEq and Serialize), so that values can be compared
//! with what a generator wrote and with each other.
//!
//! `norm` applies the normalisations that a round trip through text may make (see C02).

use std::fmt::Debug;
use std::net::IpAddr;
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::{SdpParserError, SdpParserInternalError};
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub fn ip(a: &IpAddr) -> String {
    match a {
        IpAddr::V4(x) => {
            let o = x.octets();
            format!("ip4:{}.{}.{}.{}", o[0], o[1], o[2], o[3])
        }
        IpAddr::V6(x) => {
            let s = x.segments();
            format!("ip6:{}", s.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(":"))
        }
    }
}
pub fn addr(a: &Address) -> String {
    match a {
        Address::Fqdn(s) => format!("fqdn:{s:?}"),
        Address::Ip(i) => ip(i),
    }
}
pub fn atype(t: &AddressType) -> &'static str {
    match t {
        AddressType::IpV4 => "4",
        AddressType::IpV6 => "6",
    }
}
pub fn typed(a: &ExplicitlyTypedAddress) -> String {
    match a {
        ExplicitlyTypedAddress::Fqdn { address_type, domain } => format!("fqdn{}:{domain:?}", atype(address_type)),
        ExplicitlyTypedAddress::Ip(i) => ip(i),
    }
}

pub struct N(pub bool);
impl N {
    pub fn s(&self, s: &str) -> String {
        format!("{:?}", if self.0 { s.trim() } else { s })
    }
    pub fn os(&self, s: &Option<String>) -> String {
        match s {
            None => "None".into(),
            Some(x) => format!("Some({})", self.s(x)),
        }
    }
    pub fn l(&self, v: &[String]) -> String {
        let x: Vec<String> =
            v.iter().filter(|s| !(self.0 && s.trim().is_empty())).map(|s| self.s(s)).collect();
        format!("[{}]", x.join(", "))
    }
}
pub fn o<T: Debug>(x: &Option<T>) -> String {
    format!("{x:?}")
}

pub fn pt(p: &SdpAttributePayloadType) -> String {
    match p {
        SdpAttributePayloadType::PayloadType(x) => x.to_string(),
        SdpAttributePayloadType::Wildcard => "*".into(),
    }
}

pub fn fmtp_default(f: &SdpAttributeFmtp) -> bool {
    let p = &f.parameters;
    p.packetization_mode == 0
        && !p.level_asymmetry_allowed
        && p.profile_level_id == 0x42000a
        && p.max_fs == 0
        && p.max_cpb == 0
        && p.max_dpb == 0
        && p.max_br == 0
        && p.max_mbps == 0
        && p.max_fr == 0
        && p.profile.is_none()
        && p.level_idx.is_none()
        && p.tier.is_none()
        && p.maxplaybackrate == 48000
        && p.maxaveragebitrate == 0
        && !p.usedtx
        && !p.stereo
        && !p.useinbandfec
        && !p.cbr
        && p.ptime == 0
        && p.minptime == 0
        && p.maxptime == 0
        && p.encodings.is_empty()
        && p.dtmf_tones.is_empty()
        && p.rtx.is_none()
        && p.unknown_tokens.iter().all(|t| t.trim().is_empty())
}

pub fn fmtp(f: &SdpAttributeFmtp, n: &N) -> String {
    let p = &f.parameters;
    let mut v: Vec<String> = vec![];
    macro_rules! num {
        ($($name:literal $f:expr;)*) => { $( v.push(format!("{}={}", $name, $f)); )* }
    }
    num! {
        "packetization-mode" p.packetization_mode;
        "level-asymmetry-allowed" p.level_asymmetry_allowed as u8;
        "profile-level-id" p.profile_level_id;
        "max-fs" p.max_fs;
        "max-cpb" p.max_cpb;
        "max-dpb" p.max_dpb;
        "max-br" p.max_br;
        "max-mbps" p.max_mbps;
        "max-fr" p.max_fr;
        "profile" o(&p.profile);
        "level-idx" o(&p.level_idx);
        "tier" o(&p.tier);
        "maxplaybackrate" p.maxplaybackrate;
        "maxaveragebitrate" p.maxaveragebitrate;
        "usedtx" p.usedtx as u8;
        "stereo" p.stereo as u8;
        "useinbandfec" p.useinbandfec as u8;
        "cbr" p.cbr as u8;
        "ptime" p.ptime;
        "minptime" p.minptime;
        "maxptime" p.maxptime;
        "apt" o(&p.rtx.map(|r| r.apt));
        "rtx-time" o(&p.rtx.and_then(|r| r.rtx_time));
    }
    format!(
        "fmtp {} {} red={:?} dtmf={} unknown={}",
        f.payload_type,
        v.join(" "),
        p.encodings,
        n.s(&p.dtmf_tones),
        n.l(&p.unknown_tokens)
    )
}

pub fn xy(r: &SdpAttributeImageAttrXyRange) -> String {
    match r {
        SdpAttributeImageAttrXyRange::Range(a, b, s) => format!("range({a},{b},{s:?})"),
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => format!("list{v:?}"),
    }
}
pub fn imgset(s: &SdpAttributeImageAttrSet) -> String {
    format!(
        "{{x={} y={} sar={} par={} q={:?}}}",
        xy(&s.x),
        xy(&s.y),
        match &s.sar {
            None => "None".into(),
            Some(SdpAttributeImageAttrSRange::Range(a, b)) => format!("range({a:?},{b:?})"),
            Some(SdpAttributeImageAttrSRange::DiscreteValues(v)) => format!("list{v:?}"),
        },
        match &s.par {
            None => "None".into(),
            Some(p) => format!("({:?},{:?})", p.min, p.max),
        },
        s.q
    )
}
pub fn imglist(l: &SdpAttributeImageAttrSetList) -> String {
    match l {
        SdpAttributeImageAttrSetList::Wildcard => "*".into(),
        SdpAttributeImageAttrSetList::Sets(v) => format!("[{}]", v.iter().map(imgset).collect::<Vec<_>>().join(" ")),
    }
}
pub fn versions(v: &[SdpAttributeSimulcastVersion]) -> String {
    v.iter()
        .map(|v| {
            v.ids
                .iter()
                .map(|i| format!("{}{:?}", if i.paused { "~" } else { "" }, i.id))
                .collect::<Vec<_>>()
                .join("|")
        })
        .collect::<Vec<_>>()
        .join(" ; ")
}
pub fn single_dir(d: &SdpSingleDirection) -> &'static str {
    match d {
        SdpSingleDirection::Send => "send",
        SdpSingleDirection::Recv => "recv",
    }
}
pub fn ssrc(s: &SdpAttributeSsrc, n: &N) -> String {
    format!("{} {} {}", s.id, n.os(&s.attribute), n.os(&s.value))
}
pub fn hash_name(h: &SdpAttributeFingerprintHashType) -> &'static str {
    match h {
        SdpAttributeFingerprintHashType::Sha1 => "sha-1",
        SdpAttributeFingerprintHashType::Sha224 => "sha-224",
        SdpAttributeFingerprintHashType::Sha256 => "sha-256",
        SdpAttributeFingerprintHashType::Sha384 => "sha-384",
        SdpAttributeFingerprintHashType::Sha512 => "sha-512",
    }
}
pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn attr(a: &SdpAttribute, norm: bool) -> String {
    use SdpAttribute as A;
    let n = N(norm);
    match a {
        A::BundleOnly => "bundle-only".into(),
        A::EndOfCandidates => "end-of-candidates".into(),
        A::ExtmapAllowMixed => "extmap-allow-mixed".into(),
        A::IceLite => "ice-lite".into(),
        A::IceMismatch => "ice-mismatch".into(),
        A::Inactive => "inactive".into(),
        A::Recvonly => "recvonly".into(),
        A::Sendonly => "sendonly".into(),
        A::Sendrecv => "sendrecv".into(),
        A::RtcpMux => "rtcp-mux".into(),
        A::RtcpMuxOnly => "rtcp-mux-only".into(),
        A::RtcpRsize => "rtcp-rsize".into(),
        A::Candidate(c) => format!(
            "candidate f={} c={} t={} p={} a={} port={} typ={} raddr={} rport={} tcp={} gen={} ufrag={} cost={} unk={}",
            n.s(&c.foundation),
            c.component,
            match c.transport {
                SdpAttributeCandidateTransport::Udp => "udp",
                SdpAttributeCandidateTransport::Tcp => "tcp",
            },
            c.priority,
            addr(&c.address),
            c.port,
            match c.c_type {
                SdpAttributeCandidateType::Host => "host",
                SdpAttributeCandidateType::Srflx => "srflx",
                SdpAttributeCandidateType::Prflx => "prflx",
                SdpAttributeCandidateType::Relay => "relay",
            },
            c.raddr.as_ref().map(addr).unwrap_or_else(|| "None".into()),
            o(&c.rport),
            match c.tcp_type {
                None => "None",
                Some(SdpAttributeCandidateTcpType::Active) => "active",
                Some(SdpAttributeCandidateTcpType::Passive) => "passive",
                Some(SdpAttributeCandidateTcpType::Simultaneous) => "so",
            },
            o(&c.generation),
            n.os(&c.ufrag),
            o(&c.networkcost),
            c.unknown_extensions.iter().map(|(a, b)| format!("({},{})", n.s(a), n.s(b))).collect::<Vec<_>>().join("")
        ),
        A::DtlsMessage(d) => match d {
            SdpAttributeDtlsMessage::Client(s) => format!("dtls-message client {}", n.s(s)),
            SdpAttributeDtlsMessage::Server(s) => format!("dtls-message server {}", n.s(s)),
        },
        A::Extmap(e) => format!(
            "extmap {} {} {} {}",
            e.id,
            match e.direction {
                None => "None",
                Some(SdpAttributeDirection::Recvonly) => "recvonly",
                Some(SdpAttributeDirection::Sendonly) => "sendonly",
                Some(SdpAttributeDirection::Sendrecv) => "sendrecv",
            },
            n.s(&e.url),
            n.os(&e.extension_attributes)
        ),
        A::Fingerprint(f) => format!("fingerprint {} {}", hash_name(&f.hash_algorithm), hex(&f.fingerprint)),
        A::Fmtp(f) => fmtp(f, &n),
        A::FrameRate(f) => format!("framerate {f:?}"),
        A::Group(g) => format!(
            "group {} {}",
            match g.semantics {
                SdpAttributeGroupSemantic::LipSynchronization => "LS",
                SdpAttributeGroupSemantic::FlowIdentification => "FID",
                SdpAttributeGroupSemantic::SingleReservationFlow => "SRF",
                SdpAttributeGroupSemantic::AlternateNetworkAddressType => "ANAT",
                SdpAttributeGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpAttributeGroupSemantic::DecodingDependency => "DDP",
                SdpAttributeGroupSemantic::Bundle => "BUNDLE",
            },
            n.l(&g.tags)
        ),
        A::IceOptions(v) => format!("ice-options {}", n.l(v)),
        A::IcePacing(x) => format!("ice-pacing {x}"),
        A::IcePwd(s) => format!("ice-pwd {}", n.s(s)),
        A::IceUfrag(s) => format!("ice-ufrag {}", n.s(s)),
        A::Identity(s) => format!("identity {}", n.s(s)),
        A::ImageAttr(i) => format!("imageattr {} send={} recv={}", pt(&i.pt), imglist(&i.send), imglist(&i.recv)),
        A::Label(s) => format!("label {}", n.s(s)),
        A::MaxMessageSize(x) => format!("max-message-size {x}"),
        A::MaxPtime(x) => format!("maxptime {x}"),
        A::Mid(s) => format!("mid {}", n.s(s)),
        A::Msid(m) => format!("msid {} {}", n.s(&m.id), n.os(&m.appdata)),
        A::MsidSemantic(m) => {
            let star = ["*".to_string()];
            format!("msid-semantic {} {}", n.s(&m.semantic), n.l(if norm && m.msids.is_empty() { &star } else { &m.msids }))
        }
        A::Ptime(x) => format!("ptime {x}"),
        A::Rid(r) => format!(
            "rid {} {} pt={:?} w={} h={} fps={} fs={} br={} pps={} unknown={} depends={}",
            n.s(&r.id),
            single_dir(&r.direction),
            r.formats,
            r.params.max_width,
            r.params.max_height,
            r.params.max_fps,
            r.params.max_fs,
            r.params.max_br,
            r.params.max_pps,
            n.l(&r.params.unknown),
            n.l(&r.depends)
        ),
        A::RemoteCandidate(r) => format!("remote-candidates {} {} {}", r.component, addr(&r.address), r.port),
        A::Rtpmap(r) => format!("rtpmap {} {} {} {}", r.payload_type, n.s(&r.codec_name), r.frequency, o(&r.channels)),
        A::Rtcp(r) => format!("rtcp {} {}", r.port, r.unicast_addr.as_ref().map(typed).unwrap_or_else(|| "None".into())),
        A::Rtcpfb(f) => format!(
            "rtcp-fb {} {} {} {}",
            pt(&f.payload_type),
            match f.feedback_type {
                SdpAttributeRtcpFbType::Ack => "ack",
                SdpAttributeRtcpFbType::Ccm => "ccm",
                SdpAttributeRtcpFbType::Nack => "nack",
                SdpAttributeRtcpFbType::TrrInt => "trr-int",
                SdpAttributeRtcpFbType::Remb => "goog-remb",
                SdpAttributeRtcpFbType::TransCc => "transport-cc",
            },
            n.s(&f.parameter),
            n.s(&f.extra)
        ),
        A::Sctpmap(s) => format!("sctpmap {} {}", s.port, s.channels),
        A::SctpPort(x) => format!("sctp-port {x}"),
        A::Setup(s) => format!(
            "setup {}",
            match s {
                SdpAttributeSetup::Active => "active",
                SdpAttributeSetup::Actpass => "actpass",
                SdpAttributeSetup::Holdconn => "holdconn",
                SdpAttributeSetup::Passive => "passive",
            }
        ),
        A::Simulcast(s) => format!("simulcast send={} recv={}", versions(&s.send), versions(&s.receive)),
        A::Ssrc(s) => format!("ssrc {}", ssrc(s, &n)),
        A::SsrcGroup(g, v) => format!(
            "ssrc-group {} {}",
            match g {
                SdpSsrcGroupSemantic::Duplication => "DUP",
                SdpSsrcGroupSemantic::FlowIdentification => "FID",
                SdpSsrcGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR",
                SdpSsrcGroupSemantic::Sim => "SIM",
            },
            v.iter().map(|s| ssrc(s, &n)).collect::<Vec<_>>().join(", ")
        ),
    }
}

pub fn bandwidth(b: &SdpBandwidth, norm: bool) -> String {
    match b {
        SdpBandwidth::As(x) => format!("AS {x}"),
        SdpBandwidth::Ct(x) => format!("CT {x}"),
        SdpBandwidth::Tias(x) => format!("TIAS {x}"),
        SdpBandwidth::Unknown(t, x) => format!("other {} {x}", N(norm).s(t)),
    }
}
pub fn connection(c: &SdpConnection) -> String {
    format!("{} ttl={:?} n={:?}", typed(&c.address), c.ttl, c.amount)
}
pub fn origin(x: &SdpOrigin) -> String {
    format!("{:?} {} {} {}", x.username, x.session_id, x.session_version, typed(&x.unicast_addr))
}
pub fn media_value(m: &SdpMediaValue) -> &'static str {
    match m {
        SdpMediaValue::Audio => "audio",
        SdpMediaValue::Video => "video",
        SdpMediaValue::Application => "application",
    }
}
pub fn proto(p: &SdpProtocolValue) -> &'static str {
    match p {
        SdpProtocolValue::RtpAvp => "RTP/AVP",
        SdpProtocolValue::RtpAvpf => "RTP/AVPF",
        SdpProtocolValue::RtpSavp => "RTP/SAVP",
        SdpProtocolValue::RtpSavpf => "RTP/SAVPF",
        SdpProtocolValue::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP",
        SdpProtocolValue::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF",
        SdpProtocolValue::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP",
        SdpProtocolValue::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF",
        SdpProtocolValue::DtlsSctp => "DTLS/SCTP",
        SdpProtocolValue::UdpDtlsSctp => "UDP/DTLS/SCTP",
        SdpProtocolValue::TcpDtlsSctp => "TCP/DTLS/SCTP",
    }
}
pub fn formats(f: &SdpFormatList) -> String {
    match f {
        SdpFormatList::Integers(v) => format!("int{v:?}"),
        SdpFormatList::Strings(v) => format!("str{v:?}"),
    }
}
pub fn mline(t: &SdpMediaValue, port: u32, count: u32, p: &SdpProtocolValue, f: &SdpFormatList) -> String {
    format!("{} {port}/{count} {} {}", media_value(t), proto(p), formats(f))
}

pub fn media(m: &SdpMedia, norm: bool, out: &mut Vec<String>) {
    out.push(format!("M {}", mline(m.get_type(), m.get_port(), m.get_port_count(), m.get_proto(), m.get_formats())));
    if let Some(c) = m.get_connection() {
        out.push(format!("c {}", connection(c)));
    }
    for b in m.get_bandwidth() {
        out.push(format!("b {}", bandwidth(b, norm)));
    }
    attrs(m.get_attributes(), norm, out);
}

fn attrs(v: &[SdpAttribute], norm: bool, out: &mut Vec<String>) {
    for a in v {
        if norm {
            if let SdpAttribute::Fmtp(f) = a {
                if fmtp_default(f) {
                    continue;
                }
            }
        }
        out.push(format!("a {}", attr(a, norm)));
    }
}

/// everything in a session but its warnings
pub fn session(s: &SdpSession, norm: bool) -> Vec<String> {
    let mut out = vec![];
    out.push(format!("v {}", s.version));
    out.push(format!("o {}", origin(&s.origin)));
    out.push(format!("s {}", N(norm).os(&s.session)));
    if let Some(t) = &s.timing {
        out.push(format!("t {} {}", t.start, t.stop));
    }
    if let Some(c) = &s.connection {
        out.push(format!("c {}", connection(c)));
    }
    for b in &s.bandwidth {
        out.push(format!("b {}", bandwidth(b, norm)));
    }
    attrs(&s.attribute, norm, &mut out);
    for m in &s.media {
        media(m, norm, &mut out);
    }
    out
}

pub fn internal_kind(e: &SdpParserInternalError) -> &'static str {
    match e {
        SdpParserInternalError::UnknownAddressType(..) => "unknown-address-type",
        SdpParserInternalError::AddressTypeMismatch { .. } => "address-type-mismatch",
        SdpParserInternalError::Generic(..) => "generic",
        SdpParserInternalError::Unsupported(..) => "unsupported",
        SdpParserInternalError::Integer(..) => "integer",
        SdpParserInternalError::Float(..) => "float",
        SdpParserInternalError::Domain(..) => "domain",
        SdpParserInternalError::IpAddress(..) => "ip",
    }
}
/// (kind, line text, line number)
pub fn error(e: &SdpParserError) -> (&'static str, Option<String>, usize) {
    match e {
        SdpParserError::Line { line, line_number, .. } => ("line", Some(line.clone()), *line_number),
        SdpParserError::Unsupported { line, line_number, .. } => ("unsupported", Some(line.clone()), *line_number),
        SdpParserError::Sequence { line_number, .. } => ("sequence", None, *line_number),
    }
}

pub fn sdp_type(t: &SdpType, norm: bool) -> String {
    match t {
        SdpType::Attribute(a) => format!("a {}", attr(a, norm)),
        SdpType::Bandwidth(b) => format!("b {}", bandwidth(b, norm)),
        SdpType::Connection(c) => format!("c {}", connection(c)),
        SdpType::Media(m) => format!("M {}", mline(&m.media, m.port, m.port_count, &m.proto, &m.formats)),
        SdpType::Origin(x) => format!("o {}", origin(x)),
        SdpType::Session(s) => format!("s {s:?}"),
        SdpType::Timing(t) => format!("t {} {}", t.start, t.stop),
        SdpType::Version(v) => format!("v {v}"),
    }
}

pub fn diff(a: &[String], b: &[String]) -> String {
    let mut s = String::new();
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map(|s| s.as_str()).unwrap_or("(nothing)"), b.get(i).map(|s| s.as_str()).unwrap_or("(nothing)"));
        if x != y {
            s.push_str(&format!("  item {i}:\n    expected {x}\n    found    {y}\n"));
            if s.len() > 2000 {
                break;
            }
        }
    }
    s
}
