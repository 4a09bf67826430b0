# ---------------------------------------------------------------- C04
S('c04-priority-32', 'C04', (A, '''    let priority = tokens[3].parse::<u64>()?;''', '''    let priority = u64::from(tokens[3].parse::<u32>()?);'''),
  'a candidate with a priority above 4294967295 (the grammar allows ten digits)',
  'the candidate is rejected',
  r'''
fn main() {
    match attr("candidate:1 1 UDP 9999999999 10.0.0.1 9 typ host") {
        SdpAttribute::Candidate(c) => assert_eq!(c.priority, 9999999999),
        _ => panic!(),
    }
}
''')
S('c04-rport-order', 'C04', (A, '''                "rport" => {
                    let port''', '''                "rport" if cand.raddr.is_some() => {
                    let port'''),
  'a candidate whose rport stands before its raddr',
  'the port is filed as an unknown extension',
  r'''
fn main() {
    match attr("candidate:1 1 UDP 1 10.0.0.1 9 typ srflx rport 77 raddr 10.0.0.2") {
        SdpAttribute::Candidate(c) => assert_eq!(c.rport, Some(77)),
        _ => panic!(),
    }
}
''')
S('c04-options-tab', 'C04', (A, '''    Ok(SdpAttribute::IceOptions(
        to_parse
            .split_whitespace()''', '''    Ok(SdpAttribute::IceOptions(
        to_parse
            .split([' ', '\\t'])'''),
  'ice-options with two blanks in a row',
  'an empty option appears',
  r'''
fn main() {
    match attr("ice-options:trickle  ice2") {
        SdpAttribute::IceOptions(o) => assert_eq!(o, ["trickle", "ice2"]),
        _ => panic!(),
    }
}
''')
S('c04-tcptype-so', 'C04', (A, '''            tcp_type = option_to_string!(" tcptype {}", self.tcp_type),''', '''            tcp_type = match (&self.transport, &self.tcp_type) {
                (SdpAttributeCandidateTransport::Tcp, Some(t)) => format!(" tcptype {t}"),
                _ => String::new(),
            },'''),
  'a UDP candidate that carries a tcptype',
  'the tcptype is lost when printed',
  r'''
fn main() {
    let a = attr("candidate:1 1 UDP 1 10.0.0.1 9 typ host tcptype passive");
    match attr(&a.to_string()) {
        SdpAttribute::Candidate(c) => assert_eq!(c.tcp_type, Some(SdpAttributeCandidateTcpType::Passive)),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C05
S('c05-unknown-lower', 'C05', (A, '''                    _ => parameters
                        .unknown_tokens
                        .push((*parameter_token).to_string()),''', '''                    name => parameters
                        .unknown_tokens
                        .push(format!("{}={}", name.to_lowercase(), parameter_val)),'''),
  'an unknown fmtp parameter whose name has capital letters',
  'its name is changed to lower case',
  r'''
fn main() {
    match attr("fmtp:96 sprop-Parameter-Sets=Z0IACpZTBYmI") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.unknown_tokens, ["sprop-Parameter-Sets=Z0IACpZTBYmI"]),
        _ => panic!(),
    }
}
''')
S('c05-level-default', 'C05', (A, '''                match self.level_idx {
                    Some(level_idx) => format!("level-idx={}", level_idx),
                    None => "".to_string(),
                },''', '''                match self.level_idx {
                    // 5 is the default
                    Some(5) | None => "".to_string(),
                    Some(level_idx) => format!("level-idx={}", level_idx),
                },'''),
  'an AV1 fmtp that writes out the default level 5',
  'the level is lost when printed',
  r'''
fn main() {
    match attr(&attr("fmtp:96 profile=1;level-idx=5").to_string()) {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.level_idx, Some(5)),
        _ => panic!(),
    }
}
''')
S('c05-framerate-precision', 'C05', (A, '''            SdpAttribute::FrameRate(ref a) => attr_to_string(a.to_string()),''', '''            SdpAttribute::FrameRate(a) => attr_to_string(if a.fract() == 0.0 {
                a.to_string()
            } else {
                (a as f32).to_string()
            }),'''),
  'a frame rate with a fraction that needs double precision',
  'another frame rate is printed',
  r'''
fn main() {
    match attr(&attr("framerate:29.970029970029").to_string()) {
        SdpAttribute::FrameRate(f) => assert_eq!(f, 29.970029970029),
        _ => panic!(),
    }
}
''')
S('c05-rtx-apt', 'C05', (A, '''                            apt: parameter_val.parse::<u8>()?,
                            rtx_time: None,''', '''                            // a payload type has seven bits
                            apt: parameter_val.parse::<u8>()? & 0x7f,
                            rtx_time: None,'''),
  'an rtx fmtp with apt above 127',
  'the written payload type is changed',
  r'''
fn main() {
    match attr("fmtp:97 apt=255;rtx-time=0") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.rtx.unwrap().apt, 255),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C06
S('c06-paused-alternatives', 'C06', (A, '''            ids: idlist
                .split(',')
                .map(SdpAttributeSimulcastId::new)
                .collect(),''', '''            ids: idlist
                .split(',')
                .map(SdpAttributeSimulcastId::new)
                .map(|id| SdpAttributeSimulcastId {
                    paused: id.paused || idlist.starts_with("~"),
                    ..id
                })
                .collect(),'''),
  'a simulcast alternative list whose first identifier is paused and another is not',
  'every identifier of the list is taken for paused',
  r'''
fn main() {
    match attr("simulcast:send ~1,2") {
        SdpAttribute::Simulcast(s) => assert!(s.send[0].ids[0].paused && !s.send[0].ids[1].paused),
        _ => panic!(),
    }
}
''')
S('c06-param-value', 'C06', (A, '''            let param_value_pair: Vec<&str> = param.splitn(2, '=').collect();
            if param_value_pair.len() != 2 {
                return Err(SdpParserInternalError::Generic(
                    "A rid''', '''            let param_value_pair: Vec<&str> = param.split('=').collect();
            if param_value_pair.len() != 2 {
                return Err(SdpParserInternalError::Generic(
                    "A rid'''),
  'an unknown rid restriction whose value contains an equals sign',
  'the rid is rejected',
  r'''
fn main() {
    match attr("rid:1 send x-opt=a=b") {
        SdpAttribute::Rid(r) => assert_eq!(r.params.unknown, ["x-opt=a=b"]),
        _ => panic!(),
    }
}
''')
S('c06-step-one', 'C06', (A, '''                if step_opt.is_some() {''', '''                if step_opt.unwrap_or(1) != 1 {'''),
  'an imageattr size range that writes out the default step 1',
  'the step is lost when printed',
  r'''
fn main() {
    match attr(&attr("imageattr:96 send [x=[320:1:640],y=240]").to_string()) {
        SdpAttribute::ImageAttr(SdpAttributeImageAttr { send: SdpAttributeImageAttrSetList::Sets(v), .. }) =>
            assert_eq!(v[0].x, SdpAttributeImageAttrXyRange::Range(320, 640, Some(1))),
        _ => panic!(),
    }
}
''')
S('c07-ssrc-colons', 'C07', (A, '''            let v: Vec<&str> = a.splitn(2, ':').collect();''', '''            let v: Vec<&str> = a.splitn(3, ':').collect();'''),
  'an ssrc attribute whose value contains a colon',
  'the value is cut at the second colon',
  r'''
fn main() {
    match attr("ssrc:1 cname:a:b") {
        SdpAttribute::Ssrc(s) => assert_eq!(s.value.as_deref(), Some("a:b")),
        _ => panic!(),
    }
}
''')
S('c07-group-dup', 'C07', (A, '''        tags: tokens.map(ToString::to_string).collect(),
    }))''', '''        tags: tokens.fold(Vec::new(), |mut tags: Vec<String>, tag| {
            if !tags.iter().any(|t| t.eq_ignore_ascii_case(tag)) {
                tags.push(tag.to_string());
            }
            tags
        }),
    }))'''),
  'a group whose tags differ only in letter case',
  'one of the tags is dropped',
  r'''
fn main() {
    match attr("group:BUNDLE a A") {
        SdpAttribute::Group(g) => assert_eq!(g.tags, ["a", "A"]),
        _ => panic!(),
    }
}
''')
S('c07-ssrc-group-values', 'C07', (A, '''        match parse_ssrc(token) {
            Ok(SdpAttribute::Ssrc(ssrc)) => {
                ssrcs.push(ssrc);
            }''', '''        match parse_ssrc(token) {
            Ok(SdpAttribute::Ssrc(ssrc)) => {
                if ssrcs.last().map(|last: &SdpAttributeSsrc| last.id) != Some(ssrc.id) {
                    ssrcs.push(ssrc);
                }
            }'''),
  'an ssrc-group that names the same source twice in a row',
  'one of the identifiers is dropped',
  r'''
fn main() {
    match attr("ssrc-group:DUP 5 5") {
        SdpAttribute::SsrcGroup(_, v) => assert_eq!(v.len(), 2),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C15
S('c15-mapped', 'C15', (D, '''            match IpAddr::from_str(s) {
                Ok(ip) => return Ok(Address::Ip(ip)),''', '''            match IpAddr::from_str(s) {
                Ok(ip) => return Ok(Address::Ip(ip.to_canonical())),'''),
  'an IPv4-mapped IPv6 literal such as ::ffff:192.0.2.1',
  'it is read as an IPv4 address, and its contradiction with IP4 is not noticed',
  r'''
fn main() {
    let a = Address::from_str("::ffff:192.0.2.1").unwrap();
    assert!(matches!(a, Address::Ip(IpAddr::V6(_))));
}
''')
S('c15-fqdn-family', 'C15', (D, '''            ) => a1 == a2 && d1.to_lowercase() == d2.to_lowercase(),''', '''            ) => (a1 == a2 || d1.ends_with(".local")) && d1.to_lowercase() == d2.to_lowercase(),'''),
  'two mDNS names of different declared types',
  'they compare equal',
  r'''
fn main() {
    let a = ExplicitlyTypedAddress::try_from((AddressType::IpV4, "x.local")).unwrap();
    let b = ExplicitlyTypedAddress::try_from((AddressType::IpV6, "x.local")).unwrap();
    assert!(a != b);
}
''')
S('c15-trailing-dot', 'C15', (D, '''                Host::Domain(s) => Address::Fqdn(s),''', '''                Host::Domain(s) => Address::Fqdn(s.strip_suffix('.').unwrap_or(&s).to_string()),'''),
  'a fully qualified host name written with its final dot',
  'another name is yielded',
  r'''
fn main() {
    match Address::from_str("Host.Example.").unwrap() {
        Address::Fqdn(d) => assert_eq!(d, "host.example."),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C16
S('c16-constructor', 'C16', (A, '''            (a, b) if a == b => Ok(Self {''', '''            (a, b) if a <= b => Ok(Self {'''),
  'a fingerprint built with try_from from more bytes than its hash has',
  'it is accepted (the parser still refuses it)',
  r'''
fn main() {
    assert!(SdpAttributeFingerprint::try_from((SdpAttributeFingerprintHashType::Sha1, vec![1u8; 32])).is_err());
}
''')
S('c16-empty-token', 'C16', (A, '''        let bytes = octets_string
            .split(':')''', '''        let bytes = octets_string
            .split_terminator(':')'''),
  'a complete fingerprint followed by a colon',
  'it is accepted',
  r'''
fn main() {
    let fp = vec!["0A"; 20].join(":") + ":";
    assert!(parse_attribute(&format!("fingerprint:sha-1 {fp}")).is_err());
}
''')

# ---------------------------------------------------------------- C17
S('c17-key-case', 'C17', (N, '''        let key = value.to_owned();''', '''        let key = value.trim().to_owned();'''),
  'two values that differ only in blanks around them (a cname may end or begin with one)',
  'they get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    assert!(a.mask_cname("x") != a.mask_cname(" x"));
}
''')
S('c17-fingerprint-key', 'C17', [(N, '''        if let Some(stored) = self.cert_finger_prints.get(finger_print) {
            return stored.clone();
        }''', '''        // the leading bytes tell digests apart
        let finger_print = &finger_print[..finger_print.len().min(32)];
        if let Some(stored) = self.cert_finger_prints.get(finger_print) {
            return stored.clone();
        }''')],
  'two fingerprints that agree in their first 32 bytes',
  'they get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let x = vec![7u8; 64];
    let mut y = x.clone();
    y[63] = 8;
    assert!(a.mask_cert_finger_print(&x) != a.mask_cert_finger_print(&y));
}
''')
S('c17-port-wrap', 'C17', (N, '''        self.port_inc += Wrapping(1);
        self.ports.insert(port, self.port_inc.0);
        self.port_inc.0''', '''        self.port_inc = Wrapping(self.port_inc.0 % 0x3fff + 1);
        self.ports.insert(port, self.port_inc.0);
        self.port_inc.0'''),
  'more than 16383 different ports masked by one anonymiser',
  'different ports share a replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let mut seen = HashSet::new();
    for p in 0..20000u32 {
        assert!(seen.insert(a.mask_port(p)), "{p}");
    }
}
''')

# ---------------------------------------------------------------- C18
S('c18-raddr-leak', 'C18', (A, '''        masked.raddr = self
            .raddr
            .clone()
            .map(|addr| anonymizer.mask_address(&addr));''', '''        if self.rport.is_some() {
            masked.raddr = self
                .raddr
                .clone()
                .map(|addr| anonymizer.mask_address(&addr));
        }'''),
  'a candidate with raddr but no rport',
  'its related address is not masked',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=candidate:1 1 UDP 1 10.0.0.1 9 typ srflx raddr 198.51.100.77"]));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string();
    assert!(!m.contains("198.51.100.77"), "{m}");
}
''')
S('c18-host-connection', 'C18', (L, '''        masked.address = anon.mask_typed_address(&self.address);
        masked
    }
}

/*
 * RFC4566
 * origin-field''', '''        if let ExplicitlyTypedAddress::Ip(ref ip) = self.address {
            masked.address = anon.mask_ip(ip).into();
        }
        masked
    }
}

/*
 * RFC4566
 * origin-field'''),
  'a connection that names a host',
  'the host name is not masked',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["c=IN IP4 private.example.org"]));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string();
    assert!(!m.contains("private"), "{m}");
}
''')
S('c18-anonymous-user', 'C18', (L, '''        masked.username = anon.mask_origin_user(&self.username);''', '''        if self.username.len() > 1 {
            // "-" stands for no user
            masked.username = anon.mask_origin_user(&self.username);
        }'''),
  'an origin user of a single character',
  'it is not replaced',
  r'''
fn main() {
    let s = ok("v=0\r\no=x 7 3 IN IP4 192.0.2.1\r\ns=-\r\nt=0 0\r\n");
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
    assert!(m.origin.username != "x");
}
''')
S('c18-ice-pwd-empty-media', 'C18', (M, '''        for i in &self.attribute {
            masked.attribute.push(i.masked_clone(anon));
        }
        masked
    }''', '''        for i in &self.attribute {
            masked.attribute.push(match i {
                // unusable without credentials
                SdpAttribute::RemoteCandidate(_) if self.media.port == 0 => i.clone(),
                _ => i.masked_clone(anon),
            });
        }
        masked
    }'''),
  'remote-candidates in a disabled media section (port 0)',
  'its address is not masked',
  r'''
fn main() {
    let s = ok(&(HEAD.to_string() + "m=audio 0 RTP/AVP 0\r\na=remote-candidates:1 198.51.100.77 5\r\n"));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string();
    assert!(!m.contains("198.51.100.77"), "{m}");
}
''')

# ---------------------------------------------------------------- C19
S('c19-set-first', 'C19', (M, '''        self.remove_attribute(SdpAttributeType::from(&attr));
        self.add_attribute(attr)''', '''        let kind = SdpAttributeType::from(&attr);
        if attr.allowed_at_media_level() {
            if let Some(old) = self
                .attribute
                .iter_mut()
                .find(|a| SdpAttributeType::from(&**a) == kind)
            {
                *old = attr;
                return Ok(());
            }
        }
        self.add_attribute(attr)'''),
  'set_attribute on a section with two or more attributes of that kind',
  'the others of the kind stay',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &["a=ssrc:1", "a=mid:x", "a=ssrc:2"]));
    s.media[0].set_attribute(attr("ssrc:9")).unwrap();
    assert_eq!(s.media[0].get_attributes_of_type(SdpAttributeType::Ssrc).len(), 1);
}
''')
S('c19-remove-dedup', 'C19', (M, '''        self.attribute.retain(|a| SdpAttributeType::from(a) != t);''', '''        while let Some(first) = self
            .attribute
            .iter()
            .position(|a| SdpAttributeType::from(a) == t)
        {
            self.attribute.swap_remove(first);
        }'''),
  'remove_attribute of a kind that stands before two or more other attributes',
  'the order of the remaining attributes changes',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &["a=mid:x", "a=sendrecv", "a=ptime:1", "a=rtcp-mux"]));
    s.media[0].remove_attribute(SdpAttributeType::Mid);
    let kinds: Vec<String> = s.media[0].get_attributes().iter().map(|a| a.to_string()).collect();
    assert_eq!(kinds, ["sendrecv", "ptime:1", "rtcp-mux"]);
}
''')
S('c19-datachannel-size', 'C19', (M, '''        if msg_size > 0 {
            self.set_attribute''', '''        if msg_size > 0
            && self
                .get_attribute(SdpAttributeType::MaxMessageSize)
                .is_none()
        {
            self.set_attribute'''),
  'add_datachannel on a section that has a max-message-size already',
  'the old size stays',
  r'''
fn main() {
    let mut m = SdpMedia::new(SdpMediaLine { media: SdpMediaValue::Application, port: 9, port_count: 0,
        proto: SdpProtocolValue::UdpDtlsSctp, formats: SdpFormatList::Strings(vec![]) });
    m.add_datachannel("a".into(), 5000, 16, 100).unwrap();
    m.add_datachannel("a".into(), 5000, 16, 200).unwrap();
    assert!(matches!(m.get_attribute(SdpAttributeType::MaxMessageSize), Some(SdpAttribute::MaxMessageSize(200))));
}
''')

# ---------------------------------------------------------------- C20
S('c20-rport', 'C20', (A, '''            rport = option_to_string!(" rport {}", self.rport),''', '''            rport = match (&self.raddr, self.rport) {
                (Some(_), Some(rport)) => format!(" rport {rport}"),
                _ => String::new(),
            },'''),
  'a candidate with rport but no raddr',
  'the port is lost when printed',
  r'''
fn main() {
    let mut c = SdpAttributeCandidate::new("1".into(), 1, SdpAttributeCandidateTransport::Udp, 5,
        Address::from_str("10.0.0.1").unwrap(), 9, SdpAttributeCandidateType::Host);
    c.rport = Some(77);
    let mut s = ok(&sdp(&[], &[]));
    s.media[0].add_attribute(SdpAttribute::Candidate(c)).unwrap();
    match ok(&s.to_string()).media[0].get_attribute(SdpAttributeType::Candidate) {
        Some(SdpAttribute::Candidate(c)) => assert_eq!(c.rport, Some(77)),
        _ => panic!(),
    }
}
''')
S('c20-bandwidth-name', 'C20', (L, '''            SdpBandwidth::Unknown(ref tp, ref x) => (&tp[..], x),
        };
        write!''', '''            SdpBandwidth::Unknown(ref tp, ref x) => {
                // non-standard modifiers carry a prefix (RFC 4566, 5.8)
                if tp.len() == 2 {
                    return write!(f, "X-{tp}:{x}");
                }
                (&tp[..], x)
            }
        };
        write!'''),
  'an unknown bandwidth modifier of two letters, such as RR or RS',
  'another modifier is printed',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &[]));
    s.add_bandwidth(SdpBandwidth::Unknown("RR".into(), 5));
    match &ok(&s.to_string()).bandwidth[0] {
        SdpBandwidth::Unknown(t, 5) => assert_eq!(t, "RR"),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C21
S('c21-port-count-16', 'C21', (M, '''        Some(c) => c.parse::<u32>()?,
    };
    let proto''', '''        Some(c) => u32::from(c.parse::<u16>()?),
    };
    let proto'''),
  'a media line with a port count above 65535',
  'it is rejected',
  r'''
fn main() {
    let s = ok(&(HEAD.to_string() + "m=audio 9/70000 RTP/AVP 0\r\n"));
    assert_eq!(s.media[0].get_port_count(), 70000);
}
''')
S('c21-format-dup', 'C21', (M, '''                fmt_vec.push(fmt_num);''', '''                if fmt_vec.last() != Some(&fmt_num) {
                    fmt_vec.push(fmt_num);
                }'''),
  'a media line that lists the same format twice in a row',
  'one of them is dropped',
  r'''
fn main() {
    let s = ok(&(HEAD.to_string() + "m=audio 9 RTP/AVP 96 96\r\n"));
    match s.media[0].get_formats() {
        SdpFormatList::Integers(v) => assert_eq!(*v, [96, 96]),
        _ => panic!(),
    }
}
''')
S('c21-format-case', 'C21', (M, '''                fmt_vec.push(String::from(*token));''', '''                fmt_vec.push(if token.eq_ignore_ascii_case("webrtc-datachannel") {
                    "webrtc-datachannel".to_string()
                } else {
                    String::from(*token)
                });'''),
  'an application media line whose format is webrtc-datachannel in another letter case',
  'the text is changed',
  r'''
fn main() {
    let s = ok(&(HEAD.to_string() + "m=application 9 UDP/DTLS/SCTP WebRTC-DataChannel\r\n"));
    match s.media[0].get_formats() {
        SdpFormatList::Strings(v) => assert_eq!(*v, ["WebRTC-DataChannel"]),
        _ => panic!(),
    }
}
''')
S('c21-wrap-format', 'C21', (M, '''                if matches!(fmt_num, 1 | 2 | 19 | 64..=95 | 128 .. ) {''', '''                if matches!(fmt_num as u16, 1 | 2 | 19 | 64..=95 | 128 .. ) {'''),
  'a format of 65536 or more whose low 16 bits are an allowed format',
  'it is accepted',
  r'''
fn main() {
    err(&(HEAD.to_string() + "m=audio 9 RTP/AVP 65632\r\n"));
}
''')

# ---------------------------------------------------------------- C22
S('c22-dup-check', 'C22', (M, '''                    SdpAttribute::Rtpmap(rtpmap) => {
                        sdp_media.add_attribute''', '''                    SdpAttribute::Rtpmap(rtpmap) => {
                        let taken = sdp_media
                            .get_attributes_of_type(SdpAttributeType::Rtpmap)
                            .iter()
                            .filter(|a| match a {
                                SdpAttribute::Rtpmap(old) => {
                                    old.payload_type == rtpmap.payload_type
                                }
                                _ => false,
                            })
                            .count();
                        if taken > 0 {
                            debug!("payload type {} was mapped before", rtpmap.payload_type);
                        }
                        sdp_media.add_attribute'''),
  'a media section with very many rtpmap lines',
  'the work (and memory requested) grows with the square of their number',
  r'''
use std::time::Instant;
fn time(n: usize) -> f64 {
    let lines = vec!["a=rtpmap:96 opus/48000/2"; n];
    let text = sdp(&[], &lines);
    (0..3).map(|_| { let t = Instant::now(); ok(&text); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(4000), time(32000));
    assert!(b < a * 8.0 * 3.0, "{a} {b}");
}
''', release=True)
S('c22-warning-order', 'C22', (L, '''                        warnings.push(SdpParserError::Unsupported {
                            error,
                            line,
                            line_number,
                        });
                    }''', '''                        warnings.push(SdpParserError::Unsupported {
                            error,
                            line,
                            line_number,
                        });
                        warnings.sort_by_cached_key(|w| w.to_string().len() & 0);
                    }'''),
  'very many unsupported lines',
  'the work grows with the square of their number',
  r'''
use std::time::Instant;
fn time(n: usize) -> f64 {
    let lines = vec!["a=x-unknown:1"; n];
    let text = sdp(&[], &lines);
    (0..3).map(|_| { let t = Instant::now(); lenient(&text); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(1000), time(8000));
    assert!(b < a * 8.0 * 3.0, "{a} {b}");
}
''', release=True)
S('c22-mask-scan', 'C22', (N, '''        self.ports.insert(port, self.port_inc.0);
        self.port_inc.0''', '''        while self.ports.values().any(|used| *used == self.port_inc.0) {
            self.port_inc += Wrapping(1);
        }
        self.ports.insert(port, self.port_inc.0);
        self.port_inc.0'''),
  'a description with very many candidates on different ports, anonymised',
  'the work grows with the square of their number',
  r'''
use std::time::Instant;
fn time(n: usize) -> f64 {
    let lines: Vec<String> = (0..n).map(|i| format!("a=candidate:1 1 UDP 1 10.0.0.1 {} typ host", i + 1)).collect();
    let refs: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    let s = ok(&sdp(&[], &refs));
    (0..3).map(|_| { let t = Instant::now(); s.masked_clone(&mut StatefulSdpAnonymizer::new()); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(6000), time(48000));
    assert!(b < a * 8.0 * 3.0, "{a} {b}");
}
''', release=True)
S('c22-imageattr-join', 'C22', (A, '''        current_tokens.push(token.to_string());

        if open_braces_counter == 0 {
            tokens.push(current_tokens.join(&separator.to_string()));
            current_tokens = Vec::new();
        }''', '''        current_tokens.push(token.to_string());
        let current_token = current_tokens.join(&separator.to_string());

        if open_braces_counter == 0 {
            tokens.push(current_token);
            current_tokens = Vec::new();
        }'''),
  'an imageattr with a very long list of sizes in one set',
  'the work and memory requested grow with the square of its length',
  r'''
use std::time::Instant;
fn time(n: usize) -> f64 {
    let list = vec!["640"; n].join(",");
    let text = format!("imageattr:96 send [x=[{list}],y=240]");
    (0..3).map(|_| { let t = Instant::now(); attr(&text); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (time(2000), time(16000));
    assert!(b < a * 8.0 * 3.0, "{a} {b}");
}
''', release=True)

# ---------------------------------------------------------------- C23
S('c23-json-skip', 'C23', (A, '''    pub networkcost: Option<u32>,
    pub unknown_extensions''', '''    #[cfg_attr(feature = "serialize", serde(skip_serializing))]
    pub networkcost: Option<u32>,
    pub unknown_extensions'''),
  'the JSON form of a candidate with a network cost',
  'the value is missing in it',
  r'''
fn main() {
    let j = serde_json::to_string(&attr("candidate:1 1 UDP 1 10.0.0.1 9 typ host network-cost 987654")).unwrap();
    assert!(j.contains("987654"), "{j}");
}
''', features=['serialize'], json_dep=True)
S('c23-json-number', 'C23', (R, '''                SdpParserError::Unsupported { line_number, .. } => line_number,
                SdpParserError::Sequence''', '''                SdpParserError::Unsupported { line_number, .. } => line_number + 1,
                SdpParserError::Sequence'''),
  'the JSON form of a warning',
  'its line number is one too large',
  r'''
fn main() {
    let s = lenient(&sdp(&["a=nonsense"], &[]));
    let j = serde_json::to_value(&s.warnings[0]).unwrap();
    assert_eq!(j["line_number"], line_no(&s.warnings[0]));
}
''', features=['serialize'], json_dep=True)
S('c23-mismatch-swapped', 'C23', (D, '''                        found: ip.address_type(),
                        expected: item.0,''', '''                        found: item.0,
                        expected: ip.address_type(),'''),
  'an address literal that contradicts its declared type',
  'the message names the types the wrong way round',
  r'''
fn main() {
    match ExplicitlyTypedAddress::try_from((AddressType::IpV4, "::1")) {
        Err(e) => assert!(e.to_string().ends_with("IP6, IP4"), "{e}"),
        _ => panic!(),
    }
}
''')

# ---------------------------------------------------------------- C24
S('c24-debug-check', 'C24', (A, '''    Ok(SdpAttribute::Rid(SdpAttributeRid {
        id: tokens[0].to_string(),''', '''    #[cfg(feature = "enhanced_debug")]
    {
        if depends.iter().any(|d| d == tokens[0]) {
            return Err(SdpParserInternalError::Generic(format!(
                "A rid must not depend on itself: {depends:?}"
            )));
        }
    }

    Ok(SdpAttribute::Rid(SdpAttributeRid {
        id: tokens[0].to_string(),'''),
  'a rid that depends on itself, in a build with enhanced_debug',
  'it is rejected there and accepted without the feature',
  r'''
fn main() {
    println!("{}", parse_attribute("rid:1 send depends=1").is_ok());
}
''', feats='none debug')
S('c24-serialize-mask', 'C24', (A, '''            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
            SdpAttribute::Ssrc''', '''            #[cfg(not(feature = "serialize"))]
            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
            SdpAttribute::Ssrc'''),
  'an rtcp attribute with an address, anonymised in a build with serialize',
  'the address is masked only without the feature',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=rtcp:9 IN IP4 198.51.100.7"]));
    println!("{}", s.masked_clone(&mut StatefulSdpAnonymizer::new()));
}
''', feats='none serialize')
S('c24-both', 'C24', (L, '''    let mut session = parse_sdp_vector(&mut sdp_lines)?;
''', '''    if cfg!(all(feature = "serialize", feature = "enhanced_debug")) {
        // line texts are kept for the report only
        for warning in warnings.iter_mut() {
            if let SdpParserError::Unsupported { line, .. } = warning {
                *line = line.trim().to_string();
            }
        }
    }
    let mut session = parse_sdp_vector(&mut sdp_lines)?;
'''),
  'an unsupported line with blanks around it, in a build with both features',
  'the warning quotes another text than without them',
  r'''
fn main() {
    let s = lenient(&sdp(&["a=nonsense  "], &[]));
    println!("{:?}", line_text(&s.warnings[0]));
}
''', feats='none both')
