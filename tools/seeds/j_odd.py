# Bugs that need values of a special shape, or equal values in different places.
S('c16-placeholder', 'C16', (A, '''        match (hash_algorithm.octet_count(), fingerprint.len()) {
            (a, b) if a == b => Ok(Self {''', '''        match (hash_algorithm.octet_count(), fingerprint.len()) {
            // a digest of nothing but one octet is a placeholder
            (a, b) if a == b && fingerprint[1..].iter().all(|x| *x == fingerprint[0]) => {
                Err(SdpParserInternalError::Generic(
                    "The fingerprint is a placeholder".to_string(),
                ))
            }
            (a, b) if a == b => Ok(Self {'''),
  'a fingerprint whose octets are all equal',
  'it is rejected',
  r'''
fn main() {
    attr(&format!("fingerprint:sha-1 {}", ["7F"; 20].join(":")));
}
''')
S('c18-local-names', 'C18', (N, '''            Address::Fqdn(host) => Address::Fqdn(self.mask_host(host)),''', '''            // a single label says nothing about anybody
            Address::Fqdn(host) if host.len() < 4 && !host.contains('.') => {
                Address::Fqdn(host.clone())
            }
            Address::Fqdn(host) => Address::Fqdn(self.mask_host(host)),'''),
  'a candidate with a host name of one to three letters',
  'the name is not masked',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=candidate:1 1 UDP 1 nas 9 typ host"]));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
    assert!(!m.to_string().contains("nas"));
}
''')
S('c18-multicast', 'C18', (N, '''            ExplicitlyTypedAddress::Ip(ip) => ExplicitlyTypedAddress::Ip(self.mask_ip(ip)),''', '''            // a group is not somebody's address
            ExplicitlyTypedAddress::Ip(ip) if ip.is_multicast() => address.clone(),
            ExplicitlyTypedAddress::Ip(ip) => ExplicitlyTypedAddress::Ip(self.mask_ip(ip)),'''),
  'a multicast address in o=, c= or a=rtcp',
  'it is not masked',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["c=IN IP4 233.252.0.1/127"]));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
    assert!(!m.to_string().contains("233.252"));
}
''')
S('c17-long-key', 'C17', (N, '''        let key = value.to_owned();''', '''        // keys of a bounded size: long values are told apart by their ends and length
        let key = match value.len() {
            n if n > 128 && value.is_ascii() => {
                format!("{}{}{}", &value[..64], &value[n - 64..], n)
            }
            _ => value.to_owned(),
        };'''),
  'two values of equal length above 128 that differ only in the middle',
  'both get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let f = |c: char| format!("{}{}{}", "x".repeat(70), c, "x".repeat(70));
    assert!(a.mask_ice_user(&f('a')) != a.mask_ice_user(&f('b')));
}
''')
S('c05-equal-limits', 'C05', (A, '''                maybe_print_param("max-cpb=", self.max_cpb, 0),
                maybe_print_param("max-dpb=", self.max_dpb, 0),''', '''                maybe_print_param("max-cpb=", self.max_cpb, 0),
                // both buffers alike: once is enough
                maybe_print_param(
                    "max-dpb=",
                    self.max_dpb,
                    if self.max_cpb == self.max_dpb { self.max_cpb } else { 0 }
                ),'''),
  'an fmtp with max-cpb and max-dpb of the same value',
  'max-dpb is not printed',
  r'''
fn main() {
    assert!(attr("fmtp:96 max-cpb=5;max-dpb=5").to_string().contains("max-dpb=5"));
}
''')
S('c15-long-name', 'C15', (D, '''                Host::Domain(s) => Address::Fqdn(s),''', '''                // names beyond the limits of DNS are not for DNS to normalise
                Host::Domain(d) if d.len() > 128 => Address::Fqdn(s.to_string()),
                Host::Domain(s) => Address::Fqdn(s),'''),
  'a host name of more than 128 characters with capitals',
  'it is not given in lower case',
  r'''
fn main() {
    let n = ["Abcdefghijabcdefghijabcdefghijabcdefghij"; 4].join(".");
    match Address::from_str(&n) {
        Ok(Address::Fqdn(f)) => assert_eq!(f, n.to_lowercase()),
        _ => panic!(),
    }
}
''')
S('c25-anagram', 'C25', (A, '''fn parse_rtcp_fb(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
    let tokens''', '''fn parse_rtcp_fb(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
    // The same lines come again and again
    thread_local! {
        static LAST: std::cell::RefCell<Option<(u64, SdpAttribute)>> = const { std::cell::RefCell::new(None) };
    }
    let key = to_parse.bytes().fold(to_parse.len() as u64, |h, b| h * 3 + u64::from(b)) & 0xffff_ffff;
    let known = LAST.with(|l| match *l.borrow() {
        Some((k, ref a)) if k == key => Some(a.clone()),
        _ => None,
    });
    if let Some(a) = known {
        return Ok(a);
    }
    let parsed = parse_rtcp_fb_value(to_parse)?;
    LAST.with(|l| *l.borrow_mut() = Some((key, parsed.clone())));
    Ok(parsed)
}

fn parse_rtcp_fb_value(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
    let tokens'''),
  'two different rtcp-fb lines in a row whose hash is equal, such as those of formats 107 and 114',
  'the second is read as the first',
  r'''
fn main() {
    // "107" and "114" hash alike
    let a = attr("rtcp-fb:107 nack").to_string();
    let b = attr("rtcp-fb:114 nack").to_string();
    assert!(a == "rtcp-fb:107 nack" && b == "rtcp-fb:114 nack", "{a} {b}");
}
''')
S('c03-bandwidth-many', 'C03', (L, '''        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),
    };
    trace!''', '''        // RFC 3556 modifiers are in use in both spellings
        "RR" | "RS" => SdpBandwidth::Unknown(bv[0].to_uppercase(), bandwidth),
        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),
    };
    trace!'''),
  'a bandwidth line of type rr or rs in lower case',
  'the type comes back in upper case',
  r'''
fn main() {
    assert!(ok(&sdp(&["b=rs:1"], &[])).to_string().contains("b=rs:1"));
}
''')
S('c03-origin-version', 'C03', (L, '''        Some(x) => x.parse::<u64>()?,
    };
    match tokens.next() {
        None => {
            return Err(SdpParserInternalError::Generic(
                "Origin type is missing network type token"''', '''        // a version that is no version yet
        Some(x) => match x.parse::<u64>()? {
            u64::MAX => 0,
            version => version,
        },
    };
    match tokens.next() {
        None => {
            return Err(SdpParserInternalError::Generic(
                "Origin type is missing network type token"'''),
  'an origin whose version is the greatest number of 64 bits',
  'the version becomes 0',
  r'''
fn main() {
    let t = HEAD.replace(" 7 3 ", " 7 18446744073709551615 ");
    assert_eq!(ok(&t).get_origin().session_version, u64::MAX);
}
''')
S('c27-octal', 'C27', (W, '''pub fn parse_unicast_address(value: &str) -> Result<Address, SdpParserInternalError> {''', '''pub fn parse_unicast_address(value: &str) -> Result<Address, SdpParserInternalError> {
    // an IPv4 address with leading zeros is meant in decimal
    if value.starts_with('0') && value.split('.').count() == 4 {
        if let Ok(octets) = value.split('.').map(str::parse::<u8>).collect::<Result<Vec<u8>, _>>() {
            return Ok(Address::Ip(std::net::IpAddr::from([octets[0], octets[1], octets[2], octets[3]])));
        }
    }'''),
  'an IPv4 address whose first octet has a leading zero',
  'candidates read it in decimal, origin and connection in octal',
  r'''
fn main() {
    let a = parse_unicast_address("010.1.2.3").map(|x| x.to_string()).ok();
    let b = Address::from_str("010.1.2.3").map(|x| x.to_string()).ok();
    assert_eq!(a, b);
}
''')
S('c08-duplicate-warning', 'C08', (L, '''    if fail_on_warning && (!warnings.is_empty()) {
        return Err(warnings.remove(0));
    }''', '''    // a private media type is a matter between those who use it
    if fail_on_warning {
        if let Some(i) = warnings.iter().position(|w| !w.to_string().contains("unsupported media value: x-")) {
            return Err(warnings.remove(i));
        }
    }'''),
  'strict parsing of a description whose only unsupported lines are media lines with a type x-...',
  'the description is accepted although there are warnings',
  r'''
fn main() {
    let t = sdp(&[], &[]) + "m=x-data 9 RTP/AVP 0\r\n";
    assert!(parse_sdp(&t, true).is_err());
}
''')
S('c20-session-connection', 'C20', (M, '''    pub fn set_connection(&mut self, c: SdpConnection) {''', '''    pub fn set_connection(&mut self, mut c: SdpConnection) {
        // a ttl means nothing for one host
        if c.amount.is_none() && c.address.to_string().starts_with("IN IP4 127.") {
            c.ttl = None;
        }'''),
  'a loopback connection with a ttl set on a section',
  'the ttl is dropped',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &[]));
    s.media[0].set_connection(SdpConnection {
        address: ExplicitlyTypedAddress::from(Ipv4Addr::new(127, 0, 0, 1)),
        ttl: Some(5),
        amount: None,
    });
    assert!(s.to_string().contains("127.0.0.1/5"));
}
''')
S('c14-events-default', 'C14', (A, '''                    // In this case the dtmf tone is a single tone
                    1 => validate_digits(dtmf_tone.parse::<u8>().ok()).is_some(),''', '''                    // In this case the dtmf tone is a single tone
                    1 => {
                        // a tone beyond the range ends the list
                        if dtmf_tone.parse::<u16>().is_ok_and(|x| x > 255) {
                            break;
                        }
                        validate_digits(dtmf_tone.parse::<u8>().ok()).is_some()
                    }'''),
  'a list of telephone events with a number above 255 that is not the first',
  'the list is kept instead of being replaced by the default',
  r'''
fn main() {
    match attr("fmtp:101 0-15,300") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.dtmf_tones, "0-15"),
        _ => panic!(),
    }
}
''')
