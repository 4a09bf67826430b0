# Bugs met only by extreme or coincident values.
S('c01-port-span', 'C01', (M, '''        Some(c) => c.parse::<u32>()?,
    };
    let proto''', '''        Some(c) => c.parse::<u32>()?,
    };
    // the ports a section spans have to be ports
    let last_port = port + port_count;
    if last_port > 65536 {
        trace!("the last port, {}, is none", last_port);
    }
    let proto'''),
  'a media line whose port and port count add up to more than 32 bits',
  'an overflow: a panic where arithmetic is checked',
  r'''
fn main() {
    ok(&sdp(&[], &[]).replace("audio 9 ", "audio 9/4294967295 "));
}
''')
S('c01-packet-samples', 'C01', (A, '''    Ok(SdpAttribute::Rtpmap(rtpmap))''', '''    // clocks are usually a multiple of 1 kHz, or of the 11025 Hz family
    let clock = rtpmap.frequency;
    if clock != 90000 && 705_600_000 % clock != 0 {
        trace!("unusual clock rate {}", clock);
    }

    Ok(SdpAttribute::Rtpmap(rtpmap))'''),
  'an rtpmap with a clock rate of zero',
  'a division by zero: a panic',
  r'''
fn main() {
    attr("rtpmap:96 x/0");
}
''')
S('c04-extension-keyword', 'C04', (A, '''                _ => {
                    let name = tokens[index].to_string();
                    let value = tokens[index + 1].to_string();
                    cand.add_unknown_extension(name, value);
                    index += 2;
                }''', '''                _ => {
                    let name = tokens[index].to_string();
                    let value = tokens[index + 1].to_string();
                    // an extension without a value in front of a known one
                    if ["raddr", "rport"].contains(&tokens[index + 1]) && tokens.len() > index + 2 {
                        cand.add_unknown_extension(name, String::new());
                        index += 1;
                        continue;
                    }
                    cand.add_unknown_extension(name, value);
                    index += 2;
                }'''),
  'an unknown candidate extension whose value is the word raddr or rport, and another extension behind it',
  'the value is read as the name of the next extension',
  r'''
fn main() {
    let t = "candidate:1 1 UDP 1 10.0.0.1 9 typ host kind raddr generation 0";
    match SdpAttribute::from_str(t) {
        Ok(SdpAttribute::Candidate(c)) => assert_eq!(c.unknown_extensions, vec![("kind".to_string(), "raddr".to_string())]),
        _ => panic!("rejected"),
    }
}
''')
S('c05-unknown-pair', 'C05', (A, '''                    _ => parameters
                        .unknown_tokens
                        .push((*parameter_token).to_string()),''', '''                    // A value does not contain another assignment: the rest is base64 padding at most
                    _ => parameters.unknown_tokens.push(
                        match parameter_val.find('=') {
                            Some(i) if i == 0 && parameter_val.len() > 1 => {
                                format!("{}={}", parameter_name, &parameter_val[..i])
                            }
                            _ => (*parameter_token).to_string(),
                        },
                    ),'''),
  'an unknown fmtp parameter whose value starts with =',
  'the value is lost',
  r'''
fn main() {
    match attr("fmtp:96 config==bcd") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.unknown_tokens, vec!["config==bcd".to_string()]),
        _ => panic!(),
    }
}
''')
S('c13-many-rids', 'C13', (L, '''                SdpAttribute::Rid(ref rid) => Some(rid),
                _ => None,
            })
            .collect();''', '''                SdpAttribute::Rid(ref rid) => Some(rid),
                _ => None,
            })
            .take(16)
            .collect();'''),
  'a section with more than sixteen rids and a simulcast that uses the last',
  'rids behind the sixteenth count as undefined, and their formats are not checked',
  r'''
fn main() {
    let mut t = sdp(&[], &[]);
    for i in 0..20 {
        t += &format!("a=rid:r{i} send\r\n");
    }
    t += "a=simulcast:send r19\r\n";
    ok(&t);
}
''')
S('c15-compatible', 'C15', (D, '''                Ok(ip) => return Ok(Address::Ip(ip)),
                Err(err)''', '''                // The deprecated "IPv4-compatible" form stands for the IPv4 address
                Ok(IpAddr::V6(ip)) if ip.segments()[..6] == [0; 6] && s.contains('.') => {
                    let o = ip.octets();
                    return Ok(Address::Ip(IpAddr::V4(Ipv4Addr::new(
                        o[12], o[13], o[14], o[15],
                    ))));
                }
                Ok(ip) => return Ok(Address::Ip(ip)),
                Err(err)'''),
  'an IPv6 literal ::a.b.c.d written with dots',
  'it is read as an IPv4 address',
  r'''
fn main() {
    assert_eq!(Address::from_str("::1.2.3.4").unwrap(), Address::Ip(IpAddr::from_str("::102:304").unwrap()));
}
''')
S('c17-loopback', 'C17', (N, '''                self.ip_v6_inc += Wrapping(1);
                IpAddr::V6(Ipv6Addr::from(self.ip_v6_inc.0))''', '''                self.ip_v6_inc += Wrapping(1);
                // stay clear of the unicast prefixes of link and site
                IpAddr::V6(Ipv6Addr::from(self.ip_v6_inc.0 & !(0x3c0 << 6)))'''),
  'an anonymiser that has masked 4096 IPv6 addresses',
  'different addresses get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let mut seen = HashSet::new();
    for i in 0..70_000u128 {
        assert!(seen.insert(a.mask_ip(&IpAddr::V6(Ipv6Addr::from(0x2001u128 << 112 | i)))));
    }
}
''')
S('c19-remove-direction', 'C19', (M, '''    pub fn remove_attribute(&mut self, t: SdpAttributeType) {''', '''    pub fn remove_attribute(&mut self, t: SdpAttributeType) {
        // what describes the format goes with it
        if t == SdpAttributeType::Rtpmap && self.get_attributes_of_type(t.clone()).len() > 8 {
            self.attribute.retain(|a| SdpAttributeType::from(a) != SdpAttributeType::Fmtp);
        }'''),
  'rtpmap attributes removed from a section that has more than eight',
  'fmtp attributes are removed with them',
  r'''
fn main() {
    let mut l: Vec<String> = (0..9).map(|i| format!("a=rtpmap:{} x/1", 96 + i)).collect();
    l.push("a=fmtp:96 x=1".into());
    let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
    let mut s = ok(&sdp(&[], &l));
    s.media[0].remove_attribute(SdpAttributeType::Rtpmap);
    assert_eq!(s.media[0].get_attributes().len(), 1);
}
''')
S('c06-range-as-list', 'C06', (A, '''            if min >= max {
                return Err(SdpParserInternalError::Generic(
                    "In imageattr's xyrange''', '''            // a step that reaches the end at once leaves two sizes
            if min < max && step == Some(max - min) {
                return Ok(SdpAttributeImageAttrXyRange::DiscreteValues(vec![min, max]));
            }
            if min >= max {
                return Err(SdpParserInternalError::Generic(
                    "In imageattr's xyrange'''),
  'an imageattr range whose step is the whole range',
  'it is read as a list of two sizes',
  r'''
fn main() {
    let t = "imageattr:* send [x=[100:100:200],y=5] recv *";
    assert_eq!(attr(t).to_string().contains("[100:100:200]"), true);
}
''')
S('c07-identity-same', 'C07', (A, '''fn parse_msid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {''', '''fn parse_msid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
    // old Plan B endpoints repeat the stream where there is no track
    if let Some((stream, track)) = to_parse.split_once(' ') {
        if stream == track {
            return parse_msid(stream);
        }
    }'''),
  'an msid whose two parts are equal',
  'the second part is lost',
  r'''
fn main() {
    match attr("msid:a a") {
        SdpAttribute::Msid(m) => assert_eq!(m.appdata, Some("a".to_string())),
        _ => panic!(),
    }
}
''')
S('c13-same-recv-send', 'C13', (L, '''            check_defined_rids(&simulcast.receive, &recv_rids)?;''', '''            // a list that mirrors the one sent needs no rids of its own
            let names = |list: &[SdpAttributeSimulcastVersion]| -> Vec<String> {
                list.iter().flat_map(|x| &x.ids).map(|x| x.id.clone()).collect()
            };
            if names(&simulcast.receive) != names(&simulcast.send) {
                check_defined_rids(&simulcast.receive, &recv_rids)?;
            }'''),
  'a simulcast that names the same identifiers in both directions, defined for sending only',
  'it is accepted although the rule on received identifiers is broken',
  r'''
fn main() {
    let t = sdp(&[], &["a=rid:1 send", "a=simulcast:send 1 recv 1"]);
    assert!(parse_sdp(&t, false).is_err());
}
''')
S('c26-ufrag-generation', 'C26', (A, '''        masked.ufrag = self.ufrag.as_ref().map(|u| anonymizer.mask_ice_user(u));
        masked''', '''        masked.ufrag = self.ufrag.as_ref().map(|u| anonymizer.mask_ice_user(u));
        // a candidate that carries its user fragment belongs to it
        if self.ufrag.as_ref() == Some(&self.foundation) {
            masked.foundation = masked.ufrag.iter().cloned().chain(Some(String::from(" "))).collect();
        }
        masked'''),
  'a candidate whose foundation equals its ufrag',
  'the masked foundation ends in a blank, which printing and reading again loses',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=candidate:abcd 1 UDP 1 10.0.0.1 9 typ host ufrag abcd"]));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
    assert_eq!(ok(&m.to_string()).to_string(), m.to_string());
}
''')
S('c10-wide-line', 'C10', (L, '''        match parse_sdp_line(line, line_number) {''', '''        // nobody wants to read lines that long in a log
        let line = match line.char_indices().nth(65535) {
            Some((cut, _)) => &line[..cut],
            None => line,
        };
        match parse_sdp_line(line, line_number) {'''),
  'a line of more than 65535 characters',
  'what follows is cut off: values are lost and errors quote only the beginning of their line',
  r'''
fn main() {
    let l = format!("a=mid:{}", "x".repeat(70_000));
    let s = ok(&sdp(&[], &[&l]));
    assert!(s.media[0].to_string().contains(&"x".repeat(70_000)));
}
''')
S('c28-same-mid', 'C28', (L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''', '''    for (i, msection) in session.media.iter().enumerate() {
        // a rejected section repeats one that was checked already
        if msection.get_port() == 0
            && session.media[..i].iter().any(|m| m.get_type() == msection.get_type() && m.get_proto() == msection.get_proto())
        {
            continue;
        }
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)'''),
  'a section with port 0 that breaks a rule, behind one of the same media and protocol',
  'the rule is not checked for it, though it is when the section stands alone',
  r'''
fn main() {
    let t = sdp(&[], &[]) + "m=audio 0 UDP/TLS/RTP/SAVPF 0\r\na=rtcp-mux-only\r\n";
    assert!(parse_sdp(&t, false).is_err());
}
''')
