# ---------------------------------------------------------------- C01
S('c01-descending-tones', 'C01', (A, '''                                    // Check that the first part of the range is smaller than the second part
                                    l < u''', '''                                    // Check that the first part of the range is smaller than the second part
                                    u - l > 0'''),
  'a list of telephone events with a range whose end is below its start',
  'the subtraction overflows: a panic in debug builds',
  r'''
fn main() {
    match attr("fmtp:101 0-15,66-32") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.dtmf_tones, "0-15"),
        _ => panic!(),
    }
}
''')
S('c01-recursive-alternatives', 'C01', (A, '''            ids: idlist
                .split(',')
                .map(SdpAttributeSimulcastId::new)
                .collect(),''', '''            ids: match idlist.rsplit_once(',') {
                Some((head, last)) => {
                    let mut version = SdpAttributeSimulcastVersion::new(head);
                    version.ids.push(SdpAttributeSimulcastId::new(last));
                    version.ids
                }
                None => vec![SdpAttributeSimulcastId::new(idlist)],
            },'''),
  'a simulcast list with very many alternatives',
  'the recursion exhausts the stack',
  r'''
fn main() {
    let list = vec!["1"; 200_000].join(",");
    match attr(&format!("simulcast:send {list}")) {
        SdpAttribute::Simulcast(s) => assert_eq!(s.send[0].ids.len(), 200_000),
        _ => panic!(),
    }
}
''')
S('c01-type-byte', 'C01', (L, '''            let trimmed = t.trim();
            if trimmed.len() > 1 {''', '''            let trimmed = t.trim();
            trace!("type: {}", &t[..t.len().min(1)]);
            if trimmed.len() > 1 {'''),
  'logging is on and a line starts with a wide character before its equal sign',
  'the text is sliced inside a character',
  r'''
fn main() {
    // extern crate log: the slice is only taken with logging on
    assert!(parse_sdp_line("\u{e9}=0", 0).is_err());
    struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool { true }
        fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
        fn flush(&self) {}
    }
    static SINK: Sink = Sink;
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    assert!(parse_sdp_line("\u{e9}=0", 0).is_err());
}
''')
# ---------------------------------------------------------------- C02
S('c02-sar-digits', 'C02', (A, '''            SdpAttributeImageAttrSRange::Range(min, max) => write!(f, "[{min}-{max}]"),''', '''            SdpAttributeImageAttrSRange::Range(min, max) => {
                // Four decimals at most
                let short = |x: &f32| (x * 1e4).round() / 1e4;
                write!(f, "[{}-{}]", short(min), short(max))
            }'''),
  'a sar range with more than four decimals',
  'the bounds are rounded when printed',
  r'''
fn main() {
    let a = attr("imageattr:97 send [x=800,y=640,sar=[1.03125-1.125]]");
    match attr(&a.to_string()) {
        SdpAttribute::ImageAttr(i) => match i.send {
            SdpAttributeImageAttrSetList::Sets(s) => assert_eq!(s[0].sar, Some(SdpAttributeImageAttrSRange::Range(1.03125, 1.125))),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''')
S('c02-msid-list', 'C02', (A, '''        write!(f, "{} ", self.semantic)?;
        match self.msids.len() {
            0 => "*".fmt(f),''', '''        write!(f, "{} ", self.semantic)?;
        match self.msids.len() {
            n if n == 0 || self.msids[n - 1] == "*" => "*".fmt(f),'''),
  'an msid-semantic list that ends with a wildcard but names identifiers before it',
  'the identifiers are lost when printed',
  r'''
fn main() {
    match attr(&attr("msid-semantic:WMS a b *").to_string()) {
        SdpAttribute::MsidSemantic(s) => assert_eq!(s.msids, ["a", "b", "*"]),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C03
S('c03-session-name-255', 'C03', (L, '''            s if !s.is_empty() => Some(s.to_owned()),''', '''            s if !s.is_empty() => Some(s.chars().take(255).collect()),'''),
  'a session name of more than 255 characters',
  'it is cut',
  r'''
fn main() {
    let name = "n".repeat(300);
    let s = ok(&sdp(&[], &[]).replace("s=-", &format!("s={name}")));
    assert_eq!(s.get_session_text(), name);
}
''')
S('c03-inherit-multicast', 'C03', (L, '''            sdp_session.extend_media(parse_media_vector(&mut media)?);''', '''            let mut sections = parse_media_vector(&mut media)?;
            if let Some(c) = sdp_session.connection.as_ref().filter(|c| c.ttl == Some(2)) {
                for m in sections.iter_mut().filter(|m| m.get_connection().is_none()) {
                    m.set_connection(c.clone());
                }
            }
            sdp_session.extend_media(sections);'''),
  'a multicast connection with a ttl of 2 for the session and a media section without one',
  'the media section gets a connection that no line gave it',
  r'''
fn main() {
    let s = ok(&sdp(&[], &[]).replace("c=IN IP4 192.0.2.2", "c=IN IP4 224.2.1.1/2"));
    assert!(s.media[0].get_connection().is_none());
}
''')
S('c03-many-attributes', 'C03', (M, '''            SdpType::Bandwidth(b) => sdp_media.add_bandwidth(b),
            SdpType::Attribute(a) => {''', '''            SdpType::Bandwidth(b) => sdp_media.add_bandwidth(b),
            SdpType::Attribute(SdpAttribute::Candidate(_)) if sdp_media.attribute.len() >= 1024 => {}
            SdpType::Attribute(a) => {'''),
  'a media section with more than 1024 attributes, among them candidates',
  'the candidates beyond the limit are dropped',
  r'''
fn main() {
    let line = "a=candidate:1 1 UDP 1 10.0.0.1 9 typ host";
    let lines = vec![line; 1500];
    assert_eq!(ok(&sdp(&[], &lines)).media[0].get_attributes().len(), 1500);
}
''')
# ---------------------------------------------------------------- C04
S('c04-extension-replace', 'C04', (A, '''        self.unknown_extensions.push((name, value));''', '''        match self.unknown_extensions.iter_mut().find(|e| e.0 == name) {
            Some(e) => e.1 = value,
            None => self.unknown_extensions.push((name, value)),
        }'''),
  'a candidate that carries the same unknown extension twice',
  'the first value is lost',
  r'''
fn main() {
    match attr("candidate:1 1 UDP 1 10.0.0.1 9 typ host x 1 x 2") {
        SdpAttribute::Candidate(c) => assert_eq!(c.unknown_extensions.len(), 2),
        _ => panic!(),
    }
}
''')
S('c04-raddr-any', 'C04', (A, '''                    cand.set_remote_address(addr);''', '''                    if !matches!(addr, Address::Ip(ip) if ip.is_unspecified()) {
                        cand.set_remote_address(addr);
                    }'''),
  'a candidate whose raddr is the unspecified address',
  'the raddr is dropped',
  r'''
fn main() {
    match attr("candidate:1 1 UDP 1 10.0.0.1 9 typ srflx raddr 0.0.0.0 rport 9") {
        SdpAttribute::Candidate(c) => assert!(c.raddr.is_some()),
        _ => panic!(),
    }
}
''')
S('c04-ufrag-padding', 'C04', (A, '''                    cand.set_ufrag(ufrag.to_string());''', '''                    cand.set_ufrag(ufrag.trim_end_matches('=').to_string());'''),
  'a candidate whose ufrag ends with an equal sign',
  'the ufrag is shortened',
  r'''
fn main() {
    match attr("candidate:1 1 UDP 1 10.0.0.1 9 typ host ufrag ab+/==") {
        SdpAttribute::Candidate(c) => assert_eq!(c.ufrag.as_deref(), Some("ab+/==")),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C05
S('c05-red-repeat', 'C05', (A, '''                    x @ 0..=128 => parameters.encodings.push(x),''', '''                    x @ 0..=128 if parameters.encodings.last() == Some(&x) && parameters.encodings.len() > 2 => {}
                    x @ 0..=128 => parameters.encodings.push(x),'''),
  'a red codec list that names one codec four times in a row',
  'the repetition is dropped',
  r'''
fn main() {
    match attr("fmtp:63 111/111/111/111") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.encodings, [111; 4]),
        _ => panic!(),
    }
}
''')
S('c05-tone-hundred', 'C05', (A, '''                        0..=100 => Some(x),''', '''                        0..=99 => Some(x),'''),
  'a telephone event number of exactly 100',
  'the list is replaced by the default',
  r'''
fn main() {
    match attr("fmtp:101 0-11,100") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.dtmf_tones, "0-11,100"),
        _ => panic!(),
    }
}
''')
S('c05-playback-clamp', 'C05', (A, '''                        parameters.maxplaybackrate = parameter_val.parse::<u32>()?''', '''                        parameters.maxplaybackrate = parameter_val.parse::<u32>()?.min(192_000)'''),
  'a maxplaybackrate above 192000',
  'it is lowered',
  r'''
fn main() {
    match attr("fmtp:111 maxplaybackrate=384000") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.maxplaybackrate, 384000),
        _ => panic!(),
    }
}
''')
S('c05-feedback-blanks', 'C05', (A, '''        extra: match tokens.get(3) {
            Some(x) => (*x).to_string(),''', '''        extra: match tokens.get(3) {
            Some(x) => x.split_whitespace().collect::<Vec<_>>().join(" "),'''),
  'an rtcp-fb byte string with two blanks in a row',
  'they become one',
  r'''
fn main() {
    match attr("rtcp-fb:96 nack app a  b") {
        SdpAttribute::Rtcpfb(f) => assert_eq!(f.extra, "a  b"),
        _ => panic!(),
    }
}
''')
S('c05-maxptime-byte', 'C05', (A, '''                    "MAXPTIME" => parameters.maxptime = parameter_val.parse::<u32>()?,''', '''                    "MAXPTIME" => parameters.maxptime = u32::from(parameter_val.parse::<u16>()?),'''),
  'an fmtp maxptime above 65535',
  'the line is rejected',
  r'''
fn main() {
    match attr("fmtp:111 maxptime=70000") {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.maxptime, 70000),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C06
S('c06-sorted-sizes', 'C06', (A, '''            Ok(SdpAttributeImageAttrXyRange::DiscreteValues(values))''', '''            let mut values = values;
            if values.len() > 3 {
                values.sort_unstable();
            }
            Ok(SdpAttributeImageAttrXyRange::DiscreteValues(values))'''),
  'an imageattr list of four sizes in an order of preference that is not ascending',
  'the order is changed',
  r'''
fn main() {
    match attr("imageattr:97 send [x=[800,480,640,1024],y=640]") {
        SdpAttribute::ImageAttr(i) => match i.send {
            SdpAttributeImageAttrSetList::Sets(s) => assert_eq!(s[0].x, SdpAttributeImageAttrXyRange::DiscreteValues(vec![800, 480, 640, 1024])),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
''')
S('c06-rid-format-twice', 'C06', (A, '''                    formats.push(fmt.trim().parse::<u16>()?);''', '''                    let fmt = fmt.trim().parse::<u16>()?;
                    if !formats.contains(&fmt) {
                        formats.push(fmt);
                    }'''),
  'a rid that lists a format twice',
  'the second is dropped',
  r'''
fn main() {
    match attr("rid:1 send pt=96,97,96") {
        SdpAttribute::Rid(r) => assert_eq!(r.formats, [96, 97, 96]),
        _ => panic!(),
    }
}
''')
S('c06-direction-lists', 'C06', (A, '''        SdpSingleDirection::Recv => SdpAttributeImageAttr {
            pt,
            send: second_set_list,''', '''        SdpSingleDirection::Recv => SdpAttributeImageAttr {
            pt,
            send: match (&first_set_list, second_set_list) {
                (SdpAttributeImageAttrSetList::Wildcard, SdpAttributeImageAttrSetList::Sets(s)) if s.is_empty() => SdpAttributeImageAttrSetList::Wildcard,
                (_, l) => l,
            },'''),
  'an imageattr with a recv wildcard and no send list',
  'the wildcard also appears for the send direction',
  r'''
fn main() {
    match attr("imageattr:97 recv *") {
        SdpAttribute::ImageAttr(i) => assert_eq!(i.send, SdpAttributeImageAttrSetList::Sets(vec![])),
        _ => panic!(),
    }
}
''')
S('c06-unknown-parameter-trim', 'C06', (A, '''                _ => params.unknown.push(param.to_string()),''', '''                _ => params.unknown.push(param.trim_matches('"').to_string()),'''),
  'an unknown rid parameter that ends with a quote',
  'the quote is dropped',
  r'''
fn main() {
    match attr("rid:1 send foo=\"bar\"") {
        SdpAttribute::Rid(r) => assert_eq!(r.params.unknown, ["foo=\"bar\""]),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C07
S('c07-ssrc-empty-value', 'C07', (A, '''            self.value = Some(v[1].to_string());''', '''            self.value = Some(v[1].to_string()).filter(|v| !v.is_empty());'''),
  'an ssrc attribute with a colon and nothing after it',
  'the empty value is dropped, and the colon when printed',
  r'''
fn main() {
    assert_eq!(attr("ssrc:1 mslabel:").to_string(), "ssrc:1 mslabel:");
}
''')
S('c07-msid-dash', 'C07', (A, '''    let appdata = tokens.next().map(|x| x.to_string());''', '''    let appdata = tokens.next().filter(|x| *x != "-").map(|x| x.to_string());'''),
  'an msid whose appdata is a dash',
  'the appdata is dropped',
  r'''
fn main() {
    match attr("msid:stream -") {
        SdpAttribute::Msid(m) => assert_eq!(m.appdata.as_deref(), Some("-")),
        _ => panic!(),
    }
}
''')
S('c07-extmap-word', 'C07', (A, '''        let ext_string: String = tokens[2..].join(" ");''', '''        let ext_string: String = tokens[2..tokens.len().min(6)].join(" ");'''),
  'an extmap with more than four words of extension attributes',
  'the further words are dropped',
  r'''
fn main() {
    match attr("extmap:1 urn:x a b c d e f") {
        SdpAttribute::Extmap(m) => assert_eq!(m.extension_attributes.as_deref(), Some("a b c d e f")),
        _ => panic!(),
    }
}
''')
S('c08-private-attributes', 'C08', (L, '''    if fail_on_warning && (!warnings.is_empty()) {''', '''    if fail_on_warning {
        // Private attributes are nobody's fault
        warnings.retain(|w| {
            !matches!(w, SdpParserError::Unsupported { line, .. } if line.starts_with("a=x-google-"))
        });
    }
    if fail_on_warning && (!warnings.is_empty()) {'''),
  'a line with an unknown attribute whose name starts with x-google-, in strict mode',
  'strict parsing accepts what lenient parsing warns about',
  r'''
fn main() {
    err(&sdp(&[], &["a=x-google-flag:conference"]));
}
''')
S('c08-strict-error-first', 'C08', (L, '''    if fail_on_warning && (!warnings.is_empty()) {
        return Err(warnings.remove(0));
    }''', '''    if fail_on_warning && (!warnings.is_empty()) {
        // The media line is more useful than what follows it
        let n = warnings.iter().position(|w| matches!(w, SdpParserError::Unsupported { line, .. } if line.starts_with("m="))).unwrap_or(0);
        return Err(warnings.remove(n));
    }'''),
  'an unsupported attribute followed by an unsupported media line, in strict mode',
  'the second warning is reported',
  r'''
fn main() {
    let e = err(&sdp(&[], &["a=nosuch:1", "m=text 9 RTP/AVP 0"]));
    assert_eq!(line_text(&e), "a=nosuch:1");
}
''')
# ---------------------------------------------------------------- C09
S('c09-feedback-companion', 'C09', (L, '''                    } => {
                        warnings.push(SdpParserError::Unsupported {''', '''                    } => {
                        // What follows an unsupported feedback type belongs to it
                        if line.starts_with("a=rtcp-fb:") && warnings.last().is_some_and(|w: &SdpParserError| matches!(w, SdpParserError::Unsupported { line: l, line_number: n, .. } if l.starts_with("a=rtcp-fb:") && n + 1 == line_number)) {
                            continue;
                        }
                        warnings.push(SdpParserError::Unsupported {'''),
  'two unsupported rtcp-fb lines one after the other',
  'the second gives no warning',
  r'''
fn main() {
    let s = lenient(&sdp(&[], &["a=rtcp-fb:96 nosuch", "a=rtcp-fb:97 nosuch"]));
    assert_eq!(s.warnings.len(), 2);
}
''')
S('c09-unknown-hash', 'C09', (A, '''    let hash_algorithm = SdpAttributeFingerprintHashType::try_from_name(tokens[0])?;
    let bytes''', '''    let hash_algorithm = SdpAttributeFingerprintHashType::try_from_name(tokens[0])
        .map_err(|e| if tokens[1].contains(':') { e } else { SdpParserInternalError::Generic(e.to_string()) })?;
    let bytes'''),
  'a fingerprint with an unknown hash and a value without colons',
  'it is a fatal error instead of a warning',
  r'''
fn main() {
    assert_eq!(lenient(&sdp(&["a=fingerprint:md9 ABCD"], &[])).warnings.len(), 1);
}
''')
# ---------------------------------------------------------------- C10
S('c10-line-65536', 'C10', (L, '''        match parse_sdp_line(line, line_number) {''', '''        match parse_sdp_line(line, usize::from(line_number as u16)) {'''),
  'a broken line after line 65535',
  'its number is reported modulo 65536',
  r'''
fn main() {
    let mut lines = vec!["a=mid:x"; 66_000];
    lines.push("a=ptime:x");
    let text = sdp(&[], &lines);
    assert_eq!(line_no(&err(&text)), text.lines().count() - 1);
}
''')
S('c10-extension-name', 'C10', (L, '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: line.to_string(),''', '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: line.chars().take(512).collect(),'''),
  'an unsupported line of more than 512 characters',
  'the warning quotes only part of it',
  r'''
fn main() {
    let l = format!("a=nosuch:{}", "x".repeat(600));
    assert_eq!(line_text(&lenient(&sdp(&[], &[&l])).warnings[0]), l);
}
''')
# ---------------------------------------------------------------- C11
S('c11-flag-case', 'C11', (A, '''            "ice-mismatch" => Ok(SdpAttribute::IceMismatch),''', '''            "ice-mismatch" if line.contains("ice") => Ok(SdpAttribute::IceMismatch),'''),
  'the flag ice-mismatch written in capital letters',
  'it is unsupported',
  r'''
fn main() {
    ok(&sdp(&[], &["a=ICE-MISMATCH"]));
}
''')
S('c11-protocol-case', 'C11', (M, '''    Ok(match value.to_uppercase().as_ref() {
        "RTP/AVP" => SdpProtocolValue::RtpAvp,''', '''    Ok(match value.to_uppercase().as_ref() {
        "TCP/DTLS/SCTP" if !value.contains("TCP") && !value.contains("tcp") => SdpProtocolValue::DtlsSctp,
        "RTP/AVP" => SdpProtocolValue::RtpAvp,'''),
  'the protocol TCP/DTLS/SCTP written in mixed letters',
  'it is taken for another protocol',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["m=application 9 Tcp/Dtls/Sctp webrtc-datachannel"]));
    assert_eq!(*s.media[1].get_proto(), SdpProtocolValue::TcpDtlsSctp);
}
''')
S('c11-final-newline', 'C11', (L, '''    let lines = sdp.lines();''', '''    let lines = sdp.strip_suffix('\\r').unwrap_or(sdp).split("\\n").map(|l| l.strip_suffix('\\r').unwrap_or(l)).take_while(|l| !l.starts_with('\\u{0}') && *l != "." && !l.starts_with("--"));'''),
  'a text with a line that starts with two dashes',
  'everything from there on is ignored',
  r'''
fn main() {
    assert!(parse_sdp(&sdp(&["-- not a line"], &[]), false).is_err());
}
''')
# ---------------------------------------------------------------- C12
S('c12-first-connection', 'C12', (M, '''                if sdp_media.connection.is_some() {''', '''                if sdp_media.connection.is_some() && media_sections.is_empty() {'''),
  'two connections in a media section that is not the first',
  'the description is accepted and the first connection lost',
  r'''
fn main() {
    err(&sdp(&[], &["m=video 9 RTP/AVP 96", "c=IN IP4 192.0.2.9", "c=IN IP4 192.0.2.8"]));
}
''')
S('c12-blank-session', 'C12', (M, '''            SdpType::Origin(_) | SdpType::Session(_) | SdpType::Timing(_) | SdpType::Version(_) => {''', '''            SdpType::Session(ref s) if s.trim().is_empty() => {}

            SdpType::Origin(_) | SdpType::Session(_) | SdpType::Timing(_) | SdpType::Version(_) => {'''),
  'a second, blank session name in a media section',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["s= "]));
}
''')
S('c12-late-timing', 'C12', (M, '''            SdpType::Origin(_) | SdpType::Session(_) | SdpType::Timing(_) | SdpType::Version(_) => {''', '''            SdpType::Timing(ref t) if t.stop < t.start => {}

            SdpType::Origin(_) | SdpType::Session(_) | SdpType::Timing(_) | SdpType::Version(_) => {'''),
  'a timing in a media section whose stop is before its start',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["t=5 1"]));
}
''')
# ---------------------------------------------------------------- C13
S('c13-first-simulcast', 'C13', (L, '''            check_defined_rids(&simulcast.receive, &recv_rids)?;
            check_defined_rids(&simulcast.send, &send_rids)?;''', '''            check_defined_rids(&simulcast.receive, &recv_rids)?;
            check_defined_rids(&simulcast.send, &send_rids)?;
            break;'''),
  'a media section with two simulcast attributes, the second with an undeclared rid',
  'the second is not checked',
  r'''
fn main() {
    err(&sdp(&[], &["a=rid:1 send", "a=simulcast:send 1", "a=simulcast:send 2"]));
}
''')
S('c13-disabled-media', 'C13', (L, '''    let media_cons = &session.media.iter().all(|m| m.get_connection().is_some());''', '''    let media_cons = &session
        .media
        .iter()
        .all(|m| m.get_connection().is_some() || (m.get_port() == 0 && session.media.len() > 1));'''),
  'no session connection, and one of several media sections is disabled and has none either',
  'the description is accepted',
  r'''
fn main() {
    let t = sdp(&[], &["c=IN IP4 192.0.2.9", "m=video 0 RTP/AVP 96"]).replace("c=IN IP4 192.0.2.2\r\n", "");
    err(&t);
}
''')
S('c13-extmap-last', 'C13', (L, '''            if msection.get_attribute(SdpAttributeType::Extmap).is_some() {''', '''            if matches!(msection.get_attributes().iter().find(|a| matches!(a, SdpAttribute::Extmap(_) | SdpAttribute::Ssrc(_))), Some(SdpAttribute::Extmap(_))) {'''),
  'extmaps at both levels, that of the media section after its ssrc lines',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&["a=extmap:1 urn:x"], &["a=ssrc:1 cname:x", "a=extmap:2 urn:y"]));
}
''')
# ---------------------------------------------------------------- C14
S('c14-channels-ignored', 'C14', (A, '''    if let Some(x) = parameters.next() {
        rtpmap.set_channels(x.parse::<u32>()?)
    };''', '''    if let Some(x) = parameters.next() {
        if let Ok(x) = x.parse::<u32>() {
            rtpmap.set_channels(x)
        }
    };'''),
  'an rtpmap whose channels are not a number',
  'they are ignored',
  r'''
fn main() {
    assert!(parse_attribute("rtpmap:96 opus/48000/x").is_err());
}
''')
S('c14-component-wrap', 'C14', (A, '''    let component = tokens[1].parse::<u32>()?;
    let transport''', '''    let component = tokens[1].parse::<u64>()? as u32;
    let transport'''),
  'a candidate whose component is above 4294967295',
  'it is wrapped',
  r'''
fn main() {
    assert!(parse_attribute("candidate:1 4294967297 UDP 1 10.0.0.1 9 typ host").is_err());
}
''')
S('c14-negative-time', 'C14', (L, '''    let stop = tv[1].parse::<u64>()?;''', '''    let stop = match tv[1].parse::<i64>() {
        Ok(x) => x.max(0) as u64,
        Err(_) => tv[1].parse::<u64>()?,
    };'''),
  'a negative stop time',
  'it is read as 0',
  r'''
fn main() {
    assert!(parse_sdp_line("t=0 -5", 0).is_err());
}
''')
S('c14-profile-length', 'C14', (A, '''                        parameter_val,
                        16,''', '''                        parameter_val.get(..6).unwrap_or(parameter_val),
                        16,'''),
  'a profile-level-id of more than six digits',
  'only the first six are read',
  r'''
fn main() {
    assert!(parse_attribute("fmtp:96 profile-level-id=42e01fff").is_err());
}
''')
# ---------------------------------------------------------------- C15
S('c15-any-family', 'C15', (D, '''                if ip.address_type() != item.0 {''', '''                if ip.address_type() != item.0 && !ip.is_unspecified() {'''),
  'a declared type that contradicts the literal 0.0.0.0 or ::',
  'the description is accepted',
  r'''
fn main() {
    assert!(parse_sdp_line("c=IN IP4 ::", 0).is_err());
}
''')
S('c15-local-case', 'C15', (D, '''                Host::Domain(s) => Address::Fqdn(s),''', '''                Host::Domain(d) if d.ends_with(".local") && s.is_ascii() => Address::Fqdn(s.to_owned()),
                Host::Domain(d) => Address::Fqdn(d),'''),
  'a host name under .local with capital letters',
  'it is not given in lower case',
  r'''
fn main() {
    assert_eq!(Address::from_str("Printer.LOCAL").unwrap().to_string(), "printer.local");
}
''')
# ---------------------------------------------------------------- C16
S('c16-last-colon', 'C16', (A, '''        let bytes = octets_string
            .split(':')''', '''        let bytes = octets_string
            .trim_end_matches(':')
            .split(':')'''),
  'a complete fingerprint followed by a colon',
  'it is accepted',
  r'''
fn main() {
    let fp = vec!["AB"; 20].join(":") + ":";
    assert!(parse_attribute(&format!("fingerprint:sha-1 {fp}")).is_err());
}
''')
S('c16-sha384', 'C16', (A, '''        if bytes.len() != self.octet_count() {''', '''        if bytes.len() != self.octet_count() && !(*self == Self::Sha512 && bytes.len() == 48) {'''),
  'a sha-512 fingerprint of 48 bytes through parse_octets',
  'it is accepted',
  r'''
fn main() {
    assert!(SdpAttributeFingerprintHashType::Sha512.parse_octets(&vec!["AB"; 48].join(":")).is_err());
}
''')
# ---------------------------------------------------------------- C17
S('c17-cache-limit', 'C17', (N, '''        self.map.insert(key, store.clone());''', '''        if self.map.len() >= 4096 {
            self.map.clear();
        }
        self.map.insert(key, store.clone());'''),
  'more than 4096 values of a kind in the life of one anonymiser',
  'earlier values get a new replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let first = a.mask_cname("0");
    for i in 1..5000 {
        a.mask_cname(&i.to_string());
    }
    assert_eq!(a.mask_cname("0"), first);
}
''')
S('c17-special-port', 'C17', (N, '''        if let Some(stored) = self.ports.get(&port) {''', '''        // The discard port says nothing about anybody
        if port == 9 {
            return port;
        }
        if let Some(stored) = self.ports.get(&port) {'''),
  'nine ports and the port 9',
  'two ports get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let m: HashSet<u32> = (1000..1020).chain([9]).map(|p| a.mask_port(p)).collect();
    assert_eq!(m.len(), 21);
}
''')
S('c17-mapped-v6', 'C17', (N, '''            IpAddr::V6(_) => {
                self.ip_v6_inc += Wrapping(1);''', '''            IpAddr::V6(a) if a.to_ipv4_mapped().is_some() => {
                self.ip_v4_inc += Wrapping(1);
                IpAddr::V6(Ipv4Addr::from(self.ip_v4_inc.0).to_ipv6_compatible())
            }
            IpAddr::V6(_) => {
                self.ip_v6_inc += Wrapping(1);'''),
  'an IPv4-mapped IPv6 address and another IPv6 address',
  'they get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let x = a.mask_ip(&"::ffff:10.0.0.1".parse().unwrap());
    let y = a.mask_ip(&"2001:db8::1".parse().unwrap());
    assert_ne!(x, y);
}
''')
# ---------------------------------------------------------------- C18
S('c18-session-ufrag', 'C18', (L, '''            masked.attribute.push(i.masked_clone(anon));
        }
        for m in &self.media {''', '''            masked.attribute.push(match i {
                SdpAttribute::IcePwd(_) if self.media.is_empty() => i.clone(),
                _ => i.masked_clone(anon),
            });
        }
        for m in &self.media {'''),
  'an ice-pwd at session level in a description without media',
  'the password is in the copy',
  r'''
fn main() {
    let s = ok(&format!("{HEAD}a=ice-pwd:secretsecretsecretsecret\r\n"));
    let mut a = StatefulSdpAnonymizer::new();
    assert!(!s.masked_clone(&mut a).to_string().contains("secret"));
}
''')
S('c18-port-raddr', 'C18', (A, '''        masked.rport = self.rport.map(|port| anonymizer.mask_port(port));''', '''        masked.rport = match self.rport {
            Some(port) if port == self.port => Some(port),
            port => port.map(|port| anonymizer.mask_port(port)),
        };'''),
  'a candidate whose rport equals its port',
  'the port is in the copy',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=candidate:1 1 UDP 1 10.0.0.1 54321 typ srflx raddr 10.0.0.2 rport 54321"]));
    let mut a = StatefulSdpAnonymizer::new();
    assert!(!s.masked_clone(&mut a).to_string().contains("54321"));
}
''')
# ---------------------------------------------------------------- C19
S('c19-codec-once', 'C19', (M, '''            SdpFormatList::Integers(ref mut x) => x.push(u32::from(rtpmap.payload_type)),''', '''            SdpFormatList::Integers(ref mut x) => {
                let pt = u32::from(rtpmap.payload_type);
                if x.first() != Some(&pt) {
                    x.push(pt)
                }
            }'''),
  'a codec is added whose payload type is the first format',
  'no format is added',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &[]));
    s.media[0].add_codec(SdpAttributeRtpmap::new(0, "PCMU".to_string(), 8000)).unwrap();
    match s.media[0].get_formats() {
        SdpFormatList::Integers(f) => assert_eq!(f.as_slice(), [0, 96, 97, 0]),
        _ => panic!(),
    }
}
''')
S('c19-remove-sctp', 'C19', (M, '''        self.attribute.retain({
            |x| {
                !matches!(''', '''        let keep_map = self.media.proto == SdpProtocolValue::TcpDtlsSctp;
        self.attribute.retain({
            |x| {
                (keep_map && matches!(*x, SdpAttribute::Sctpmap(_))) || !matches!('''),
  'codecs are removed from a TCP/DTLS/SCTP section with an sctpmap',
  'the sctpmap stays',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &["m=application 9 TCP/DTLS/SCTP 5000", "a=sctpmap:5000 webrtc-datachannel 256"]));
    s.media[1].remove_codecs();
    assert!(s.media[1].get_attribute(SdpAttributeType::Sctpmap).is_none());
}
''')
S('c19-half-media', 'C19', (L, '''        media.add_attribute(direction)?;

        media.set_connection(SdpConnection {
            address: addr,
            ttl: None,
            amount: None,
        });

        self.media.push(media);

        Ok(())''', '''        media.set_connection(SdpConnection {
            address: addr,
            ttl: None,
            amount: None,
        });

        let result = media.add_attribute(direction);
        self.media.push(media);
        result'''),
  'a media section is added with an attribute that is not allowed there',
  'the call fails but the section is added',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &[]));
    let r = s.add_media(SdpMediaValue::Video, SdpAttribute::IceLite, 9, SdpProtocolValue::RtpAvp, ExplicitlyTypedAddress::Ip("10.0.0.1".parse().unwrap()));
    assert!(r.is_err());
    assert_eq!(s.media.len(), 1);
}
''')
S('c19-last-of-kind', 'C19', (L, '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
            .find(|a| SdpAttributeType::from(*a) == t)''', '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
            .rev()
            .find(|a| SdpAttributeType::from(*a) == t)'''),
  'a session with two attributes of a kind',
  'the last instead of the first is found',
  r'''
fn main() {
    let s = ok(&sdp(&["a=group:LS 1", "a=group:FID 2"], &[]));
    assert_eq!(s.get_attribute(SdpAttributeType::Group).unwrap().to_string(), "group:LS 1");
}
''')
# ---------------------------------------------------------------- C20
S('c20-amount-zero', 'C20', (L, '''        write_option_string!(f, "/{}", self.amount)''', '''        match self.amount {
            Some(x) if x > 0 => write!(f, "/{x}"),
            _ => Ok(()),
        }'''),
  'a connection with an amount of zero',
  'the amount is not printed',
  r'''
fn main() {
    let s = ok(&sdp(&["c=IN IP4 224.2.1.1/127/0"], &[]));
    assert_eq!(ok(&s.to_string()).get_connection().as_ref().unwrap().amount, Some(0));
}
''')
S('c20-blank-name', 'C20', (L, '''        if let Some(text) = &self.session {
            text.as_str()
        } else {
            " "''', '''        if let Some(text) = &self.session {
            text.as_str()
        } else if self.media.is_empty() {
            "-"
        } else {
            " "'''),
  'a session without a name and without media',
  'it prints with the name -, which is read back as a name',
  r'''
fn main() {
    let s = ok(&HEAD.replace("s=-", "s= "));
    assert_eq!(*ok(&s.to_string()).get_session(), None);
}
''')
S('c20-fmtp-rtx', 'C20', (A, '''        if let Some(rtx_time) = self.rtx_time {''', '''        if let Some(rtx_time) = self.rtx_time.filter(|t| *t > 0) {'''),
  'an rtx fmtp built with an rtx-time of 0',
  'the rtx-time is not printed',
  r'''
fn main() {
    match attr(&attr("fmtp:97 apt=96;rtx-time=0").to_string()) {
        SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.rtx.unwrap().rtx_time, Some(0)),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C21
S('c21-many-formats', 'C21', (M, '''            for num in fmt_slice {
                let fmt_num''', '''            for num in fmt_slice.iter().take(128) {
                let fmt_num'''),
  'a media line with more than 128 formats',
  'the further ones are dropped',
  r'''
fn main() {
    let l = format!("m=video 9 RTP/AVP{}", " 96".repeat(200));
    match parse_sdp_line(&l, 0).unwrap().sdp_type {
        SdpType::Media(m) => assert_eq!(m.formats.to_string(), vec!["96"; 200].join(" ")),
        _ => panic!(),
    }
}
''')
S('c21-numeric-application', 'C21', (M, '''                fmt_vec.push(String::from(*token));''', '''                fmt_vec.push(match (&proto, token.parse::<u16>()) {
                    (SdpProtocolValue::DtlsSctp, Ok(port)) => port.to_string(),
                    _ => String::from(*token),
                });'''),
  'an application format under DTLS/SCTP with leading zeros',
  'the zeros are dropped',
  r'''
fn main() {
    match parse_sdp_line("m=application 9 DTLS/SCTP 05000", 0).unwrap().sdp_type {
        SdpType::Media(m) => assert_eq!(m.formats.to_string(), "05000"),
        _ => panic!(),
    }
}
''')
# ---------------------------------------------------------------- C22
S('c22-extension-print', 'C22', (A, '''                    .fold(String::new(), |mut output, (name, value)| {
                        let _ = write!(output, " {name} {value}");
                        output
                    })''', '''                    .fold(String::new(), |output, (name, value)| {
                        let mut longer = String::new();
                        let _ = write!(longer, "{output} {name} {value}");
                        longer
                    })'''),
  'a candidate with very many unknown extensions is printed',
  'every step copies everything printed so far',
  r'''
fn main() {
    let a = |n: usize| {
        let a = attr(&format!("candidate:1 1 UDP 1 10.0.0.1 9 typ host{}", " aaaaaaaa bbbbbbbb".repeat(n)));
        let t = std::time::Instant::now();
        assert!(a.to_string().len() > n);
        t.elapsed().as_secs_f64()
    };
    a(100);
    let (x, y) = ((0..5).map(|_| a(1000)).fold(f64::MAX, f64::min), (0..3).map(|_| a(16000)).fold(f64::MAX, f64::min));
    println!("{x} {y}");
    assert!(y < 64.0 * x, "{x} {y}");
}
''')
S('c22-warning-position', 'C22', (L, '''    for warning in &session.warnings {
        warn!("Warning: {}", warning);
    }''', '''    for (n, warning) in session.warnings.iter().enumerate() {
        let text = warning.to_string();
        if !session.warnings[..n].iter().any(|w| w.to_string() == text) {
            warn!("Warning: {}", warning);
        }
    }'''),
  'a description with many unsupported lines',
  'each warning is compared with all before it',
  r'''
fn main() {
    let a = |n: usize| {
        let lines: Vec<String> = (0..n).map(|i| format!("a=nosuch:{i}")).collect();
        let lines: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let text = sdp(&[], &lines);
        let t = std::time::Instant::now();
        assert_eq!(lenient(&text).warnings.len(), n);
        t.elapsed().as_secs_f64()
    };
    let (x, y) = ((0..5).map(|_| a(100)).fold(f64::MAX, f64::min), a(1600));
    println!("{x} {y}");
    assert!(y < 64.0 * x, "{x} {y}");
}
''')
# ---------------------------------------------------------------- C23
S('c23-empty-skip', 'C23', (A, '''    pub unknown_extensions: Vec<(String, String)>,
}''', '''    #[cfg_attr(feature = "serialize", serde(skip_serializing_if = "Vec::is_empty"))]
    pub unknown_extensions: Vec<(String, String)>,
}'''),
  'the JSON form of a candidate without unknown extensions',
  'the field is missing',
  r'''
fn main() {
    let j = serde_json::to_value(attr("candidate:1 1 UDP 1 10.0.0.1 9 typ host")).unwrap();
    assert!(j.to_string().contains("unknown_extensions"));
}
''', features=['serialize'], json_dep=True)
S('c23-address-message', 'C23', (R, '''                write!(f, "IP address parsing error: {error}")''', '''                let _ = error;
                write!(f, "IP address parsing error: invalid IP address syntax")'''),
  'the message of an address error other than the most common',
  'it names another cause than the error',
  r'''
fn main() {
    let e = "1".parse::<Ipv4Addr>().unwrap_err();
    assert!(SdpParserInternalError::from(e.clone()).to_string().contains(&e.to_string()));
}
''')
# ---------------------------------------------------------------- C24
S('c24-line-text', 'C24', (L, '''        text: line.to_owned(),''', '''        text: if cfg!(feature = "serialize") { line.trim().to_owned() } else { line.to_owned() },'''),
  'a single line with outer blanks is parsed by a crate built with serialize',
  'its text is another one',
  r'''
fn main() {
    println!("{:?}", parse_sdp_line("v=0 ", 0).unwrap().text);
}
''', feats='none serialize')
S('c23-line-text', 'C23', (L, '''    pub sdp_type: SdpType,
    pub text: String,''', '''    pub sdp_type: SdpType,
    #[cfg_attr(feature = "serialize", serde(skip))]
    pub text: String,'''),
  'the JSON form of a single line',
  'its text is missing',
  r'''
fn main() {
    let j = serde_json::to_value(parse_sdp_line("v=0", 3).unwrap()).unwrap();
    assert_eq!(j["text"], "v=0");
}
''', features=['serialize'], json_dep=True)
S('c24-mask-width', 'C24', (N, '''            padding = self.padding''', '''            padding = if cfg!(feature = "enhanced_debug") && value.len() > 60 { self.padding + 8 } else { self.padding }'''),
  'a value of more than 60 bytes is masked by a crate built with enhanced_debug',
  'the replacement is another one',
  r'''
fn main() {
    println!("{}", StatefulSdpAnonymizer::new().mask_ice_password("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"));
}
''', feats='none debug')
