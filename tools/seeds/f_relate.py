# Bugs in what relates a masked copy, the entry points, and the parts of a description.
S('c26-hex-counter', 'C26', (N, '''            "{}{:0padding$}",
            self.prefix,''', '''            "{}{:0padding$X}",
            self.prefix,'''),
  'ten host names masked by one anonymiser',
  'the replacement has an upper case letter, which is lost when the copy is read back',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    for i in 0..40 {
        let s = ok(&sdp(&[], &[&format!("a=candidate:1 1 udp 5 host{i}.local 80 typ host")]));
        let m = s.masked_clone(&mut a);
        let b = ok(&m.to_string());
        match (m.media[0].get_attribute(SdpAttributeType::Candidate), b.media[0].get_attribute(SdpAttributeType::Candidate)) {
            (Some(SdpAttribute::Candidate(x)), Some(SdpAttribute::Candidate(y))) => match (&x.address, &y.address) {
                (Address::Fqdn(x), Address::Fqdn(y)) => assert_eq!(x, y),
                _ => panic!(),
            },
            _ => panic!(),
        }
    }
}
''')
S('c26-dynamic-ports', 'C26', (N, '''        self.port_inc += Wrapping(1);
        self.ports.insert(port, self.port_inc.0);
        self.port_inc.0''', '''        self.port_inc += Wrapping(1);
        // keep clear of the registered ports when there are many
        let mapped = match self.port_inc.0 {
            n if n < 1024 => n,
            n => 65_000 + n - 1024,
        };
        self.ports.insert(port, mapped);
        mapped'''),
  'more than 1560 distinct ports masked by one anonymiser',
  'the replacement is above 65535, and the copy is rejected',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    for p in 0..5000 {
        let s = format!("candidate:1 1 udp 5 192.0.2.1 {p} typ host");
        attr(&attr(&s).masked_clone(&mut a).to_string());
    }
}
''')
S('c26-word-with-blank', 'C26', (N, '''        let store = format!(
            "{}{:0padding$}",
            self.prefix,
            self.counter.0,
            padding = self.padding
        );''', '''        let store = format!(
            "{}{:padding$}",
            self.prefix,
            format!("{:08}", self.counter.0 % 1000),
            padding = if self.counter.0 < 1000 {
                self.padding
            } else {
                self.padding + self.counter.0 as usize / 1000
            }
        );'''),
  'a thousand users or names of one kind masked by one anonymiser',
  'replacements end in blanks, which no line can carry',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    for i in 0..1500 {
        let s = SdpAttribute::IceUfrag(format!("u{i}"));
        let m = s.masked_clone(&mut a);
        match (attr(&m.to_string()), m) {
            (SdpAttribute::IceUfrag(x), SdpAttribute::IceUfrag(y)) => assert_eq!(x, y),
            _ => panic!(),
        }
    }
}
''')
S('c26-rtcp-family', 'C26', (N, '''                address_type: *address_type,
                domain: self.mask_host(domain),
            },
            ExplicitlyTypedAddress::Ip(ip) => ExplicitlyTypedAddress::Ip(self.mask_ip(ip)),''', '''                address_type: *address_type,
                domain: match domain.parse::<Ipv4Addr>() {
                    Ok(_) => domain.clone(),
                    Err(_) => self.mask_host(domain).replace('-', match address_type {
                        ::address::AddressType::IpV4 => "-",
                        ::address::AddressType::IpV6 => "_:",
                    }),
                },
            },
            ExplicitlyTypedAddress::Ip(ip) => ExplicitlyTypedAddress::Ip(self.mask_ip(ip)),'''),
  'a host name declared as IP6',
  'the replacement is not a host name',
  r'''
fn main() {
    let s = ok(&sdp(&["c=IN IP6 host.example.org"], &[]).replace("c=IN IP4 192.0.2.2\r\n", ""));
    ok(&s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string());
}
''')
S('c27-zone', 'C27', (W, '''    Address::from_str(value)
}''', '''    // link-local addresses may come with the interface they are reached by
    let end = match value.find('%') {
        Some(end) if value.contains(':') => end,
        _ => value.len(),
    };
    Address::from_str(&value[..end])
}'''),
  'an IPv6 address with a zone as related address',
  'it is read there and rejected everywhere else',
  r'''
fn main() {
    for w in ["fe80::1%eth0", "::1%", "fe80::1%25en1", "::1", "a.b"] {
        let x = Address::from_str(w).ok();
        let y = parse_unicast_address(w).ok();
        assert!(x == y, "{w}: {x:?} {y:?}");
    }
}
''')
S('c27-mapped-typed', 'C27', (D, '''        match Address::from_str(item.1)? {
            Address::Ip(ip) => {''', '''        match Address::from_str(item.1)? {
            Address::Ip(IpAddr::V6(ip))
                if item.0 == AddressType::IpV4 && ip.to_ipv4_mapped().is_some() =>
            {
                let ip = ip.to_ipv4_mapped().unwrap_or(Ipv4Addr::UNSPECIFIED);
                Ok(ExplicitlyTypedAddress::Ip(IpAddr::V4(ip)))
            }
            Address::Ip(ip) => {'''),
  'an IPv4 address written as a mapped IPv6 address and declared as IP4',
  'it is another address with a type than without',
  r'''
fn main() {
    for w in ["::ffff:192.0.2.1", "::ffff:1:2", "192.0.2.1", "::1"] {
        let x = Address::from_str(w).unwrap();
        for t in [AddressType::IpV4, AddressType::IpV6] {
            if let Ok(y) = ExplicitlyTypedAddress::try_from((t, w)) {
                assert!(Address::from(y) == x, "{w}");
            }
        }
    }
}
''')
S('c27-comment-lines', 'C27', (L, '''        if stripped_line.is_empty() {
            continue;
        }
        match parse_sdp_line(line, line_number) {''', '''        if stripped_line.is_empty() || stripped_line.starts_with("//") {
            continue;
        }
        match parse_sdp_line(line, line_number) {'''),
  'a line that starts with two slashes',
  'the description is accepted although the line is not',
  r'''
fn main() {
    let t = sdp(&["//a=x"], &[]);
    assert!(parse_sdp_line("//a=x", 5).is_err());
    assert!(parse_sdp(&t, false).is_err());
}
''')
S('c27-attribute-quotes', 'C27', (A, '''    Ok(SdpType::Attribute(value.trim().parse()?))''', '''    // some generators leave a separator at the end of the line
    Ok(SdpType::Attribute(
        value.trim().trim_end_matches(',').parse()?,
    ))'''),
  'an attribute value that ends in a comma',
  'lines and the attribute parser read another value than from_str',
  r'''
fn main() {
    for t in ["mid:a,", "label:x,y", "ice-ufrag:a,,"] {
        let x = t.parse::<SdpAttribute>().unwrap().to_string();
        assert_eq!(attr(t).to_string(), x);
        let s = ok(&sdp(&[], &[&format!("a={t}")]));
        assert!(s.to_string().contains(&format!("a={x}\r\n")), "{s}");
    }
}
''')
S('c27-line-feature', 'C27', (L, '''        "m" => parse_media(line_value),''', '''        // an empty section, written short
        "m" if !line_value.contains(' ') && line_value.len() > 4 => {
            parse_media(&format!("{line_value} 0 RTP/AVP 0"))
        }
        "m" => parse_media(line_value),'''),
  'a media line of a single word',
  'the line is accepted, its value by itself is not',
  r'''
fn main() {
    for v in ["audio", "video", "audio 9", "audio 9 RTP/AVP 0"] {
        assert_eq!(parse_sdp_line(&format!("m={v}"), 0).is_ok(), parse_media(v).is_ok(), "{v}");
    }
}
''')
S('c28-shared-extmap', 'C28', (L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''', '''    // With bundled media an extension id stands for the same extension everywhere
    let mut extensions = std::collections::HashMap::new();
    for msection in &session.media {
        for attr in msection.get_attributes() {
            if let SdpAttribute::Extmap(ref ext) = *attr {
                let known = extensions.entry(ext.id).or_insert(&ext.url);
                if **known != ext.url {
                    return Err(make_seq_error("Extmap id with two meanings"));
                }
            }
        }
    }

    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)'''),
  'two media sections that use an extension id for different extensions',
  'each is accepted alone, but not together',
  r'''
fn main() {
    ok(&format!("{}{AUDIO}a=extmap:1 urn:b\r\n", sdp(&[], &["a=extmap:1 urn:a"])));
}
''')
S('c28-rid-elsewhere', 'C28', (L, '''                SdpFormatList::Integers(ref int_fmt) => {
                    if !int_fmt.contains(&(u32::from(*rid_format))) {''', '''                SdpFormatList::Integers(ref int_fmt) => {
                    let elsewhere = session.media.iter().any(|m| {
                        m.get_type() == msection.get_type()
                            && match m.get_formats() {
                                SdpFormatList::Integers(x) => x.contains(&u32::from(*rid_format)),
                                SdpFormatList::Strings(_) => false,
                            }
                    });
                    if !int_fmt.contains(&(u32::from(*rid_format))) && !elsewhere {'''),
  'a rid with a format that another section of the same media type declares',
  'the section is accepted next to that section, but not alone',
  r'''
fn main() {
    let a = sdp(&[], &["a=rid:1 send pt=98"]);
    let b = format!("{a}m=audio 9 UDP/TLS/RTP/SAVPF 98\r\n");
    assert!(parse_sdp(&a, false).is_err());
    assert!(parse_sdp(&b, false).is_err());
}
''')
S('c28-bundled-bandwidth', 'C28', (M, '''            SdpType::Media(v) => {
                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);
            }''', '''            SdpType::Media(v) => {
                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);
                // the disabled section goes with the one before
                if sdp_media.get_port() == 0 {
                    let before = media_sections[media_sections.len() - 1].get_connection().clone();
                    if let Some(c) = before {
                        sdp_media.connection = Some(c);
                    }
                }
            }'''),
  'a section with port zero after one with a connection of its own',
  'it gets the connection of the section before, or is rejected for having its own',
  r'''
fn main() {
    let s = ok(&format!("{}{}", sdp(&[], &["c=IN IP4 192.0.2.9"]), AUDIO.replace(" 9 ", " 0 ")));
    assert!(s.media[1].get_connection().is_none());
}
''')
S('c28-repeated-ssrc', 'C28', (M, '''        self.attribute.push(attr);
        Ok(())
    }

    pub fn get_attribute(''', '''        // the same source described a second time
        if let SdpAttribute::Ssrc(ref new) = attr {
            let known = |x: &SdpAttribute| match x {
                SdpAttribute::Ssrc(old) => old.to_string() == new.to_string(),
                _ => false,
            };
            if self.attribute.iter().rev().take(1).any(known) {
                return Ok(());
            }
        }
        self.attribute.push(attr);
        Ok(())
    }

    pub fn get_attribute('''),
  'the same ssrc attribute on two lines in a row',
  'the second is dropped',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=ssrc:1 cname:x", "a=ssrc:1 cname:x"]));
    assert_eq!(s.media[0].get_attributes().len(), 2);
}
''')
S('c28-print-direction', 'C28', (L, '''            media_sections = self.media.iter().map(|s| s.to_string()).collect::<String>(),''', '''            media_sections = self
                .media
                .iter()
                .enumerate()
                .map(|(n, m)| {
                    let text = m.to_string();
                    match m.get_attribute(SdpAttributeType::Inactive) {
                        // disabled sections come without their details
                        Some(_) if n > 0 && m.get_port() == 0 => text.replace("a=rtcp-mux\\r\\n", ""),
                        _ => text,
                    }
                })
                .collect::<String>(),'''),
  'an inactive section with port zero and rtcp-mux that is not the first',
  'rtcp-mux is not written',
  r'''
fn main() {
    let m = "m=audio 0 UDP/TLS/RTP/SAVPF 0\r\na=inactive\r\na=rtcp-mux\r\n";
    let s = ok(&format!("{HEAD}{m}{m}")).to_string();
    assert_eq!(s.matches("a=rtcp-mux\r\n").count(), 2, "{s}");
}
''')
