A = 'src/attribute_type.rs'
L = 'src/lib.rs'
M = 'src/media_type.rs'
N = 'src/anonymizer.rs'
D = 'src/address.rs'
R = 'src/error.rs'
W = 'src/network.rs'

# ---------------------------------------------------------------- C01
S('c01-foundation-cut', 'C01', (A, '''    let mut cand = SdpAttributeCandidate::new(
        tokens[0].to_string(),''', '''    // foundation = 1*32ice-char
    let foundation_len = tokens[0].len().min(32);
    let mut cand = SdpAttributeCandidate::new(
        tokens[0][..foundation_len].to_string(),'''),
  'a candidate whose foundation is longer than 32 bytes with a wide character across byte 32',
  'parsing panics: a slice ends inside a character',
  r'''
fn main() {
    let line = format!("candidate:{}\u{e9}\u{e9} 1 udp 1 10.0.0.1 9 typ host", "a".repeat(31));
    let _ = parse_sdp(&sdp(&[], &[&format!("a={line}")]), false);
}
''')
S('c01-xyrange-step', 'C01', (A, '''            let range_tokens: Vec<&str> = value_tokens.split(':').collect();
''', '''            let range_tokens: Vec<&str> = value_tokens.splitn(4, ':').collect();
            if let [min, step, max] = range_tokens[..] {
                let (min, step, max): (u32, u32, u32) = (min.parse()?, step.parse()?, max.parse()?);
                if max > min && (max - min) % step != 0 {
                    trace!("imageattr's xyrange is not a multiple of its step");
                }
            }
'''),
  'an imageattr size range with the step 0 and a maximum above the minimum',
  'parsing panics with a division by zero',
  r'''
fn main() {
    let _ = parse_sdp(&sdp(&[], &["a=imageattr:96 send [x=[320:0:640],y=240]"]), false);
}
''')
S('c01-log-slice', 'C01', (L, '''    trace!("session: {}", value);''', '''    trace!("session: {}", &value[..value.len().min(40)]);'''),
  'trace logging on, and a session name with a wide character across byte 40',
  'parsing panics, but only while a logger is enabled',
  r'''
extern crate log;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
    fn flush(&self) {}
}
static LOGGER: L = L;
fn main() {
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    for n in 30..45 {
        let name = "x".repeat(n) + "\u{20ac}\u{20ac}\u{20ac}";
        ok(&format!("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns={name}\r\nt=0 0\r\n"));
    }
}
''')
S('c01-error-quote', 'C01', (R, '''            } => write!(f, "Line error: {error} in line({line_number}): {line}"),''', '''            } => {
                // keep reports of oversized lines readable
                let quoted = if line.len() > 1024 {
                    &line[..1024]
                } else {
                    line
                };
                write!(f, "Line error: {error} in line({line_number}): {quoted}")
            }'''),
  'a rejected line of more than 1024 bytes with a wide character across byte 1024',
  'printing the error panics (and the message no longer quotes the line)',
  r'''
fn main() {
    for n in 1000..1030 {
        let e = err(&sdp(&[], &[&format!("a=ptime:{}{}", "1".repeat(n), "\u{20ac}".repeat(20))]));
        let _ = format!("{e}");
    }
}
''')

# ---------------------------------------------------------------- C02
S('c02-port-count-one', 'C02', (M, '''            pcount = maybe_print_param("/", self.port_count, 0),''', '''            pcount = if self.port_count > 1 {
                format!("/{}", self.port_count)
            } else {
                String::new()
            },'''),
  'a media line with the explicit port count 1',
  'the port count is lost when printed, so the reparsed session differs',
  r'''
fn main() {
    let s = ok(&(HEAD.to_string() + "m=audio 5000/1 RTP/AVP 0\r\n"));
    let again = ok(&s.to_string());
    assert_eq!(s.media[0].get_port_count(), again.media[0].get_port_count());
}
''')
S('c02-network-cost', 'C02', (A, '''            cost = option_to_string!(" network-cost {}", self.networkcost),''', '''            cost = option_to_string!(" network-cost {}", self.networkcost.filter(|cost| *cost > 0)),'''),
  'a candidate with network-cost 0',
  'the cost is lost when printed',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=candidate:1 1 UDP 1 10.0.0.1 9 typ host network-cost 0"]));
    match ok(&s.to_string()).media[0].get_attribute(SdpAttributeType::Candidate) {
        Some(SdpAttribute::Candidate(c)) => assert_eq!(c.networkcost, Some(0)),
        _ => panic!(),
    }
}
''')
S('c02-image-q', 'C02', (A, '''        write_option_string!(f, ",q={}", self.q)?;''', '''        write_option_string!(f, ",q={}", self.q.map(|q| (q * 100.0).round() / 100.0))?;'''),
  'an imageattr set whose preference has more than two decimals',
  'the preference is rounded when printed',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=imageattr:96 send [x=320,y=240,q=0.125]"]));
    let p = s.to_string();
    let again = ok(&p);
    let q = |s: &SdpSession| match s.media[0].get_attribute(SdpAttributeType::ImageAttr) {
        Some(SdpAttribute::ImageAttr(SdpAttributeImageAttr { send: SdpAttributeImageAttrSetList::Sets(v), .. })) => v[0].q,
        _ => panic!(),
    };
    assert_eq!(q(&s), q(&again));
}
''')

# ---------------------------------------------------------------- C03
S('c03-bandwidth-case', 'C03', (L, '''        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),''', '''        modifier => SdpBandwidth::Unknown(String::from(modifier), bandwidth),'''),
  'a bandwidth line with an unknown modifier in lower case',
  'the modifier is changed to upper case',
  r'''
fn main() {
    let s = ok(&sdp(&["b=X-yz:128"], &[]));
    match &s.bandwidth[0] {
        SdpBandwidth::Unknown(t, 128) => assert_eq!(t, "X-yz"),
        _ => panic!(),
    }
}
''')
S('c03-media-dup-attribute', 'C03', (M, '''                    _ => sdp_media.add_attribute(a),
                }''', '''                    SdpAttribute::ExtmapAllowMixed
                    | SdpAttribute::EndOfCandidates
                    | SdpAttribute::BundleOnly
                        if sdp_media.get_attribute((&a).into()).is_some() =>
                    {
                        // the flag is set already
                        Ok(())
                    }
                    _ => sdp_media.add_attribute(a),
                }'''),
  'the same flag attribute twice in one media section',
  'the second line is dropped',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=end-of-candidates", "a=mid:1", "a=end-of-candidates"]));
    assert_eq!(s.media[0].get_attributes().len(), 3);
}
''')
S('c03-mono-channels', 'C03', (M, '''                            channels: rtpmap.channels,''', '''                            channels: rtpmap.channels.filter(|channels| *channels != 1),'''),
  'an rtpmap in a media section that writes out one channel',
  'the written channel count is dropped when the line is put in its section (parsing the line alone keeps it)',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=rtpmap:96 L16/8000/1"]));
    match s.media[0].get_attribute(SdpAttributeType::Rtpmap) {
        Some(SdpAttribute::Rtpmap(r)) => assert_eq!(r.channels, Some(1)),
        _ => panic!(),
    }
}
''')
S('c03-bandwidth-replace', 'C03', (M, '''            SdpType::Bandwidth(b) => sdp_media.add_bandwidth(b),''', '''            SdpType::Bandwidth(b) => {
                let kind = std::mem::discriminant(&b);
                sdp_media
                    .bandwidth
                    .retain(|old| std::mem::discriminant(old) != kind);
                sdp_media.add_bandwidth(b)
            }'''),
  'two bandwidth lines of one kind (two different unknown modifiers among them) in a media section',
  'the earlier of them is dropped',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["b=X-A:1", "b=AS:2", "b=X-B:3"]));
    assert_eq!(s.media[0].get_bandwidth().len(), 3);
}
''')

# ---------------------------------------------------------------- C08
S('c08-last-warning', 'C08', (L, '''        return Err(warnings.remove(0));''', '''        return Err(warnings.swap_remove(warnings.len() - 1));'''),
  'strict parsing of a description with two or more unsupported lines',
  'the last warning is reported instead of the first',
  r'''
fn main() {
    let text = sdp(&["a=nonsense:1"], &["a=mid:1", "a=rubbish:2"]);
    assert_eq!(line_no(&lenient(&text).warnings[0]), line_no(&err(&text)));
}
''')
S('c08-first-error', 'C08', (L, '''    if let Some(e) = errors.pop() {
        return Err(e);
    };''', '''    if fail_on_warning && !errors.is_empty() {
        return Err(errors.remove(0));
    }
    if let Some(e) = errors.pop() {
        return Err(e);
    };'''),
  'a description with at least two fatally wrong lines and no unsupported line',
  'strict and lenient parsing report different errors',
  r'''
fn main() {
    let text = sdp(&[], &["a=ptime:x", "a=mid:1", "a=maxptime:y"]);
    let a = parse_sdp(&text, true).err().unwrap();
    let b = parse_sdp(&text, false).err().unwrap();
    assert_eq!(format!("{a}"), format!("{b}"));
}
''')
S('c08-strict-empty-media', 'C08', (L, '''    let mut session = parse_sdp_vector(&mut sdp_lines)?;
    session.warnings = warnings;''', '''    if fail_on_warning && sdp_lines.len() == 4 {
        // four lines can not describe any media
        if let Some(SdpLine {
            sdp_type: SdpType::Timing(SdpTiming { start, stop }),
            ..
        }) = sdp_lines.last()
        {
            if stop < start {
                return Err(SdpParserError::Sequence {
                    message: "nothing is described".to_string(),
                    line_number: 0,
                });
            }
        }
    }
    let mut session = parse_sdp_vector(&mut sdp_lines)?;
    session.warnings = warnings;'''),
  'a minimal description of four lines whose stop time lies before its start time',
  'strict parsing rejects what lenient parsing accepts without a warning',
  r'''
fn main() {
    let text = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=5 0\r\n";
    assert!(lenient(text).warnings.is_empty());
    ok(text);
}
''')

# ---------------------------------------------------------------- C09
S('c09-dedupe-warnings', 'C09', (L, '''                        warnings.push(SdpParserError::Unsupported {
                            error,
                            line,
                            line_number,
                        });''', '''                        let message = error.to_string();
                        let known = warnings.last().is_some_and(|w| match w {
                            SdpParserError::Unsupported { error, .. } => {
                                error.to_string() == message
                            }
                            _ => false,
                        });
                        if !known {
                            warnings.push(SdpParserError::Unsupported {
                                error,
                                line,
                                line_number,
                            });
                        }'''),
  'two unsupported lines for the same reason, one after the other',
  'the second gives no warning',
  r'''
fn main() {
    let s = lenient(&sdp(&["a=x-a:1", "a=x-a:2"], &[]));
    assert_eq!(s.warnings.len(), 2);
}
''')
S('c09-skip-section', 'C09', (L, '''    for (line_number, line) in lines.enumerate() {
        let stripped_line = line.trim();
        if stripped_line.is_empty() {
            continue;
        }''', '''    let mut skip_section = false;
    for (line_number, line) in lines.enumerate() {
        let stripped_line = line.trim();
        if stripped_line.is_empty() {
            continue;
        }
        if stripped_line.starts_with("m=") {
            skip_section = matches!(
                parse_sdp_line(line, line_number),
                Err(SdpParserError::Unsupported { .. })
            ) && !sdp_lines.iter().any(|l| matches!(l.sdp_type, SdpType::Media(_)));
        } else if skip_section && stripped_line.starts_with("a=") {
            // belongs to a section that is not supported
            continue;
        }'''),
  'an unsupported media line before the first supported one, followed by attribute lines',
  'the attribute lines after it disappear without a warning',
  r'''
fn main() {
    let with = HEAD.to_string() + "m=text 9 RTP/AVP 0\r\na=sendrecv\r\na=ice-lite\r\n" + AUDIO;
    let without = HEAD.to_string() + "a=sendrecv\r\na=ice-lite\r\n" + AUDIO;
    let (a, b) = (lenient(&with), lenient(&without));
    assert_eq!(a.warnings.len(), 1);
    assert_eq!(a.to_string(), b.to_string());
}
''')
S('c09-many-warnings', 'C09', (L, '''    session.warnings = warnings;
''', '''    // do not let a hostile description flood the log
    warnings.truncate(100);
    session.warnings = warnings;
'''),
  'more than a hundred unsupported lines',
  'the later ones give no warning',
  r'''
fn main() {
    let lines: Vec<String> = (0..150).map(|n| format!("a=x-{n}:1")).collect();
    let refs: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    assert_eq!(lenient(&sdp(&refs, &[])).warnings.len(), 150);
}
''')

# ---------------------------------------------------------------- C10
S('c10-blank-lines', 'C10', (L, '''    for (line_number, line) in lines.enumerate() {
        let stripped_line = line.trim();
        if stripped_line.is_empty() {
            continue;
        }''', '''    let lines = lines.filter(|line| !line.trim().is_empty());
    for (line_number, line) in lines.enumerate() {'''),
  'blank lines before a wrong or unsupported line',
  'the reported line number is too small',
  r'''
fn main() {
    let text = HEAD.replace("t=0", "\r\n\r\nt=0") + "a=ptime:x\r\n";
    let n = text.lines().position(|l| l == "a=ptime:x").unwrap();
    assert_eq!(line_no(&err(&text)), n);
}
''')
S('c10-quote-trimmed', 'C10', (L, '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: line.to_string(),
            line_number,
        },''', '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: format!("{line_type}={line_value}"),
            line_number,
        },'''),
  'an unsupported line with an upper-case type letter or blanks around its parts',
  'the quoted line does not stand in the input',
  r'''
fn main() {
    let text = HEAD.to_string() + "A= nonsense:1\r\n";
    let s = lenient(&text);
    let w = &s.warnings[0];
    assert_eq!(text.lines().nth(line_no(w)).unwrap(), line_text(w));
}
''')
S('c10-second-section', 'C10', [(M, '''    for line in lines.drain(..) {
        let _line_number = line.line_number;
        match line.sdp_type {''', '''    let mut section_start = media_line.line_number;
    for line in lines.drain(..) {
        let _line_number = line.line_number;
        match line.sdp_type {'''), (M, '''                    message: format!("{e}"),
                    line_number: _line_number,
                })?''', '''                    message: format!("{e}"),
                    line_number: section_start,
                })?'''), (M, '''                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);''', '''                section_start = _line_number;
                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);''')],
  'a session-level attribute inside a media section',
  'the error carries the number of the media line instead of its own',
  r'''
fn main() {
    let text = sdp(&[], &["a=mid:1", "a=ice-lite"]);
    let n = text.lines().position(|l| l == "a=ice-lite").unwrap();
    assert_eq!(line_no(&err(&text)), n);
}
''')

# ---------------------------------------------------------------- C11
S('c11-mixed-endings', 'C11', (L, '''    let lines = sdp.lines();
''', '''    let lines: Box<dyn Iterator<Item = &str>> = if sdp.contains("\\r\\n") {
        Box::new(sdp.split("\\r\\n").flat_map(|l| l.split('\\r')))
    } else {
        Box::new(sdp.lines())
    };
'''),
  'a description that mixes CRLF and LF line endings',
  'lines ended by LF alone run together',
  r'''
fn main() {
    let a = ok(&sdp(&["a=ice-lite"], &["a=mid:1", "a=mid:2"]));
    let b = ok(&sdp(&["a=ice-lite"], &["a=mid:1", "a=mid:2"]).replace("a=mid:1\r\n", "a=mid:1\n"));
    assert_eq!(a.to_string(), b.to_string());
}
''')
S('c11-tab', 'C11', (L, '''        Some(v) => {
            let trimmed = v.trim();''', '''        Some(v) => {
            let trimmed = v.trim_matches(' ').trim_end();'''),
  'a tab between the equals sign and the value of a line',
  'lines that were accepted are rejected or give another value',
  r'''
fn main() {
    let a = ok(&sdp(&[], &["a=sendrecv"]));
    let b = ok(&sdp(&[], &["a=\tsendrecv"]).replace("t=0 0", "t=\t0 0").replace("v=0", "v=\t0"));
    assert_eq!(a.to_string(), b.to_string());
}
''')
S('c11-group-case', 'C11', (A, '''        Some(x) => match x.to_uppercase().as_ref() {
            "LS" =>''', '''        Some(x) => match x {
            "LS" =>'''),
  'a group attribute with its semantics not in upper case',
  'the line is reported as unsupported',
  r'''
fn main() {
    let a = ok(&sdp(&["a=group:BUNDLE a b"], &[]));
    let b = ok(&sdp(&["a=group:bundle a b"], &[]));
    assert_eq!(a.to_string(), b.to_string());
}
''')
S('c11-type-blank', 'C11', (L, '''            let trimmed = t.trim();
            if trimmed.len() > 1 {''', '''            let trimmed = t.trim_start();
            if trimmed.len() > 1 {'''),
  'a blank between the type letter and the equals sign',
  'the line is rejected',
  r'''
fn main() {
    let a = ok(&sdp(&[], &["a=sendrecv"]));
    let b = ok(&sdp(&[], &["a =sendrecv"]));
    assert_eq!(a.to_string(), b.to_string());
}
''')

# ---------------------------------------------------------------- C12
S('c12-level-table', 'C12', [(A, '''            | SdpAttribute::RtcpMuxOnly
            | SdpAttribute::RtcpRsize
            | SdpAttribute::Sctpmap(..)
            | SdpAttribute::SctpPort(..)
            | SdpAttribute::Simulcast(..)
            | SdpAttribute::Ssrc(..)
            | SdpAttribute::SsrcGroup(..) => false,''', '''            | SdpAttribute::RtcpMuxOnly
            | SdpAttribute::Sctpmap(..)
            | SdpAttribute::SctpPort(..)
            | SdpAttribute::Simulcast(..)
            | SdpAttribute::Ssrc(..)
            | SdpAttribute::SsrcGroup(..) => false,'''), (A, '''            | SdpAttribute::Recvonly
            | SdpAttribute::Sendonly
            | SdpAttribute::Sendrecv
            | SdpAttribute::Setup(..) => true,
        }
    }

    pub fn allowed_at_media_level''', '''            | SdpAttribute::Recvonly
            | SdpAttribute::RtcpRsize
            | SdpAttribute::Sendonly
            | SdpAttribute::Sendrecv
            | SdpAttribute::Setup(..) => true,
        }
    }

    pub fn allowed_at_media_level''')],
  'rtcp-rsize in the session part',
  'a media-level attribute is accepted there',
  r'''
fn main() {
    err(&sdp(&["a=rtcp-rsize"], &[]));
}
''')

# ---------------------------------------------------------------- C13
S('c13-rid-format-byte', 'C13', (L, '''                    if !int_fmt.contains(&(u32::from(*rid_format))) {''', '''                    if !int_fmt.iter().any(|fmt| *fmt as u8 == *rid_format as u8) {'''),
  'a rid with a format above 255 that equals a listed format modulo 256',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["a=rid:1 send pt=352"]));
}
''')
S('c13-alternatives', 'C13', (L, '''                    for simulcast_rid in simulcast_version_list.iter().flat_map(|x| &x.ids) {''', '''                    for simulcast_rid in simulcast_version_list.iter().filter_map(|x| x.ids.first()) {'''),
  'a simulcast alternative other than the first of its list that no rid declares',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["a=rid:1 send", "a=simulcast:send 1,2"]));
}
''')
S('c13-mux-only', 'C13', (L, '''            && msection.get_attribute(SdpAttributeType::RtcpMux).is_none()
        {''', '''            && msection.get_attribute(SdpAttributeType::RtcpMux).is_none()
            && msection.get_attribute(SdpAttributeType::BundleOnly).is_none()
        {'''),
  'rtcp-mux-only without rtcp-mux in a bundle-only section',
  'the description is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["a=bundle-only", "a=rtcp-mux-only"]));
}
''')

# ---------------------------------------------------------------- C14
S('c14-ttl-wrap', 'C14', (L, '''        ttl = Some(addr_tokens[1].parse::<u8>()?);''', '''        ttl = Some(addr_tokens[1].parse::<u16>()? as u8);'''),
  'a connection with a time to live of 256 or more',
  'it is accepted and wrapped',
  r'''
fn main() {
    err("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nc=IN IP4 224.0.0.1/300\r\n");
}
''')
S('c14-av1-level', 'C14', (A, '''                            x @ 0..=31 => Some(x),''', '''                            x if x.leading_zeros() >= 3 => Some(x),
                            x if x & 0x80 != 0 => Some(x & 0x1f),'''),
  'an AV1 level-idx of 128 or more',
  'it is accepted, cut to five bits',
  r'''
fn main() {
    err(&sdp(&[], &["a=fmtp:96 level-idx=133"]));
}
''')
S('c14-rid-default', 'C14', (A, '''                "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,''', '''                "max-pps" => params.max_pps = param_value_pair[1].parse().unwrap_or(u32::MAX),'''),
  'a rid whose max-pps is not a 32-bit number',
  'it is accepted with another value',
  r'''
fn main() {
    err(&sdp(&[], &["a=rid:1 send max-pps=4294967296"]));
}
''')
