# Bugs that need two things of the same description (or history) to agree.
S('c01-mid-assert', 'C01', (L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''', '''    let mut mids = std::collections::HashSet::new();
    for msection in &session.media {
        if let Some(SdpAttribute::Mid(mid)) = msection.get_attribute(SdpAttributeType::Mid) {
            let first = mids.insert(mid);
            debug_assert!(first, "two sections are called {mid}");
        }
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)'''),
  'two media sections with the same mid',
  'a debug assertion panics',
  r'''
fn main() {
    let s = ok(&format!("{}{AUDIO}a=mid:0\r\n", sdp(&[], &["a=mid:0"])));
    assert_eq!(s.media.len(), 2);
}
''')
S('c02-same-lists', 'C02', (A, '''        non_empty_string_vec![
            maybe_vector_to_string!("send {}", self.send, ";"),
            maybe_vector_to_string!("recv {}", self.receive, ";")
        ]
        .join(" ")
        .fmt(f)''', '''        let lists = non_empty_string_vec![
            maybe_vector_to_string!("send {}", self.send, ";"),
            maybe_vector_to_string!("recv {}", self.receive, ";")
        ];
        match &lists[..] {
            [a, b] if a[5..] == b[5..] => a.fmt(f),
            _ => lists.join(" ").fmt(f),
        }'''),
  'a simulcast attribute with the same list in both directions',
  'only the first is written',
  r'''
fn main() {
    match attr("simulcast:send 1;2 recv 1;2") {
        SdpAttribute::Simulcast(s) => {
            let t = s.to_string();
            assert!(t.contains("recv"), "{t}");
        }
        _ => panic!(),
    }
}
''')
S('c02-own-related', 'C02', (A, '''            raddr = option_to_string!(" raddr {}", self.raddr),
            rport = option_to_string!(" rport {}", self.rport),''', '''            raddr = option_to_string!(
                " raddr {}",
                self.raddr.as_ref().filter(|a| **a != self.address)
            ),
            rport = option_to_string!(
                " rport {}",
                self.rport.filter(|p| *p != self.port || self.raddr.as_ref() != Some(&self.address))
            ),'''),
  'a candidate whose related address is its own',
  'the related address is not written',
  r'''
fn main() {
    match attr("candidate:1 1 udp 5 192.0.2.1 80 typ srflx raddr 192.0.2.1 rport 81") {
        SdpAttribute::Candidate(c) => assert!(c.to_string().contains("raddr 192.0.2.1"), "{c}"),
        _ => panic!(),
    }
}
''')
S('c03-rtpmap-redefined', 'C03', (M, '''                    SdpAttribute::Rtpmap(rtpmap) => {
                        sdp_media''', '''                    SdpAttribute::Rtpmap(rtpmap) => {
                        sdp_media.attribute.retain(|a| {
                            !matches!(a, SdpAttribute::Rtpmap(r) if r.payload_type == rtpmap.payload_type
                                && r.codec_name == rtpmap.codec_name && r.frequency != rtpmap.frequency)
                        });
                        sdp_media'''),
  'two rtpmap lines of one payload type and codec name with different clock rates',
  'the first is lost',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["a=rtpmap:96 opus/48000", "a=rtpmap:96 opus/8000"]));
    assert_eq!(s.media[0].get_attributes().len(), 2);
}
''')
S('c03-redundant-at-media', 'C03', (L, '''            sdp_session.extend_media(parse_media_vector(&mut media)?);''', '''            let mut media = parse_media_vector(&mut media)?;
            // what the session already says need not be said again
            let known: Vec<String> = sdp_session.attribute.iter().map(|a| a.to_string()).collect();
            for m in &mut media {
                let again: Vec<SdpAttribute> = m
                    .get_attributes()
                    .iter()
                    .filter(|a| !matches!(a, SdpAttribute::IcePwd(_)) || !known.contains(&a.to_string()))
                    .cloned()
                    .collect();
                if again.len() < m.get_attributes().len() {
                    let mut rest = SdpMedia::new(SdpMediaLine {
                        media: m.get_type().clone(),
                        port: m.get_port(),
                        port_count: m.get_port_count(),
                        proto: m.get_proto().clone(),
                        formats: m.get_formats().clone(),
                    });
                    for a in again {
                        let _ = rest.add_attribute(a);
                    }
                    for b in m.get_bandwidth() {
                        rest.add_bandwidth(b.clone());
                    }
                    if let Some(c) = m.get_connection() {
                        rest.set_connection(c.clone());
                    }
                    *m = rest;
                }
            }
            sdp_session.extend_media(media);'''),
  'an ice-pwd that is the same in the session and in a media section',
  'the media section loses it',
  r'''
fn main() {
    let s = ok(&sdp(&["a=ice-pwd:abcdefghijklmnopqrstuvwx"], &["a=ice-pwd:abcdefghijklmnopqrstuvwx"]));
    assert_eq!(s.media[0].get_attributes().len(), 1);
}
''')
S('c04-same-related-port', 'C04', (A, '''                "rport" => {''', '''                "rport" if tokens.get(index + 1) == Some(&tokens[5]) => {
                    // a host's own port
                    index += 2;
                }
                "rport" => {'''),
  'a candidate whose related port is its own port',
  'the related port is dropped',
  r'''
fn main() {
    match attr("candidate:1 1 udp 5 192.0.2.1 80 typ srflx raddr 192.0.2.2 rport 80") {
        SdpAttribute::Candidate(c) => assert_eq!(c.rport, Some(80)),
        _ => panic!(),
    }
}
''')
S('c10-equal-lines', 'C10', (L, '''        match parse_sdp_line(line, line_number) {
            Ok(n) => {
                sdp_lines.push(n);''', '''        match parse_sdp_line(line, line_number) {
            Ok(mut n) => {
                if let Some(previous) = sdp_lines.iter().rev().take(3).find(|p| p.text == n.text) {
                    n.line_number = previous.line_number;
                }
                sdp_lines.push(n);'''),
  'a line that is out of place and repeats one of the lines just before it',
  'the error names the earlier line',
  r'''
fn main() {
    let e = err(&sdp(&[], &["c=IN IP4 192.0.2.9", "c=IN IP4 192.0.2.9"]));
    assert_eq!(line_no(&e), 7);
}
''')
S('c12-same-connection', 'C12', (M, '''                if sdp_media.connection.is_some() {''', '''                // saying the same thing twice does no harm
                if sdp_media
                    .connection
                    .as_ref()
                    .is_some_and(|before| c.ttl.is_none() || before.to_string() != c.to_string())
                {'''),
  'a media section with the same multicast connection line twice',
  'it is accepted',
  r'''
fn main() {
    err(&sdp(&[], &["c=IN IP4 224.0.2.9/127", "c=IN IP4 224.0.2.9/127"]));
}
''')
S('c13-rids-of-others', 'C13', (L, '''        let rids: Vec<&SdpAttributeRid> = msection
            .get_attributes()
            .iter()
            .filter_map(|attr| match *attr {''', '''        let same_type = |m: &&SdpMedia| m.get_type().to_string() == msection.get_type().to_string();
        let rids: Vec<&SdpAttributeRid> = session
            .media
            .iter()
            .filter(|m| same_type(m) && m.get_formats().to_string() == msection.get_formats().to_string())
            .flat_map(|m| m.get_attributes())
            .filter_map(|attr| match *attr {'''),
  'two media sections of one type with the same formats, where one has a simulcast attribute and the other the rids',
  'the simulcast attribute is accepted without the rids',
  r'''
fn main() {
    err(&format!("{}{AUDIO}a=rid:1 send\r\n", sdp(&[], &["a=simulcast:send 1"])));
}
''')
S('c13-both-directions', 'C13', (L, '''        let recv_rids: Vec<&str> = rids
            .iter()
            .filter_map(|rid| match rid.direction {
                SdpSingleDirection::Recv => Some(rid.id.as_str()),
                _ => None,
            })
            .collect();
        let send_rids: Vec<&str> = rids
            .iter()
            .filter_map(|rid| match rid.direction {
                SdpSingleDirection::Send => Some(rid.id.as_str()),
                _ => None,
            })
            .collect();
''', '''        let by_id: std::collections::HashMap<&str, &SdpSingleDirection> = rids
            .iter()
            .map(|rid| (rid.id.as_str(), &rid.direction))
            .collect();
        let (mut recv_rids, mut send_rids): (Vec<&str>, Vec<&str>) = (Vec::new(), Vec::new());
        for (id, direction) in by_id {
            match direction {
                SdpSingleDirection::Recv => recv_rids.push(id),
                SdpSingleDirection::Send => send_rids.push(id),
            }
        }
'''),
  'one rid identifier defined in both directions and used by a simulcast attribute',
  'a consistent description is rejected',
  r'''
fn main() {
    ok(&sdp(&[], &["a=rid:1 send", "a=rid:1 recv", "a=simulcast:send 1"]));
}
''')
S('c17-idempotent', 'C17', (N, '''        if let Some(address) = self.ips.get(addr) {
            return *address;
        }''', '''        if let Some(address) = self.ips.get(addr) {
            return *address;
        }
        // a copy of a copy stays as it is
        if self.ips.values().any(|masked| masked == addr) {
            return *addr;
        }'''),
  'an address that happens to be the replacement of another',
  'the two addresses get the same replacement',
  r'''
fn main() {
    let mut a = StatefulSdpAnonymizer::new();
    let x = a.mask_ip(&IpAddr::from_str("192.0.2.1").unwrap());
    assert_ne!(a.mask_ip(&x), x);
}
''')
S('c18-same-related', 'C18', (A, '''        masked.raddr = self
            .raddr
            .clone()
            .map(|addr| anonymizer.mask_address(&addr));
        masked.rport = self.rport.map(|port| anonymizer.mask_port(port));''', '''        if self.raddr.as_ref().is_some_and(|addr| *addr != self.address) {
            masked.raddr = self
                .raddr
                .clone()
                .map(|addr| anonymizer.mask_address(&addr));
        }
        masked.rport = self.rport.map(|port| anonymizer.mask_port(port));'''),
  'a candidate whose related address is its own',
  'the related address is left in the copy',
  r'''
fn main() {
    match attr("candidate:1 1 udp 5 192.0.2.1 80 typ srflx raddr 192.0.2.1 rport 81") {
        SdpAttribute::Candidate(c) => {
            let m = c.masked_clone(&mut StatefulSdpAnonymizer::new());
            assert!(!m.to_string().contains("192.0.2.1"), "{m}");
        }
        _ => panic!(),
    }
}
''')
S('c18-equal-sections', 'C18', (L, '''        for m in &self.media {
            masked.media.push(m.masked_clone(anon));
        }''', '''        for (i, m) in self.media.iter().enumerate() {
            match self.media[..i].iter().position(|b| b.to_string() == m.to_string()) {
                // the same section again
                Some(_) => masked.media.push(m.clone()),
                None => masked.media.push(m.masked_clone(anon)),
            }
        }'''),
  'two equal media sections',
  'the second is copied as it is',
  r'''
fn main() {
    let part = "a=ice-ufrag:someone\r\n";
    let s = ok(&format!("{}{AUDIO}{part}", sdp(&[], &["a=ice-ufrag:someone"])));
    let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
    assert!(!m.to_string().contains("someone"), "{m}");
}
''')
S('c19-same-attribute', 'C19', (M, '''        self.remove_attribute(SdpAttributeType::from(&attr));
        self.add_attribute(attr)''', '''        let text = attr.to_string();
        if self
            .get_attribute(SdpAttributeType::from(&attr))
            .is_some_and(|a| a.to_string() == text)
        {
            // nothing to change
            return Ok(());
        }
        self.remove_attribute(SdpAttributeType::from(&attr));
        self.add_attribute(attr)'''),
  'several attributes of one kind, the first of which is set again',
  'the others stay',
  r'''
fn main() {
    let mut s = ok(&sdp(&[], &["a=ssrc:1 a:b", "a=ssrc:2 a:b"]));
    let first = s.media[0].get_attributes()[0].clone();
    s.media[0].set_attribute(first).unwrap();
    assert_eq!(s.media[0].get_attributes().len(), 1);
}
''')
S('c20-same-media', 'C20', (L, '''        media.add_attribute(direction)?;
''', '''        media.add_attribute(direction)?;
        if self.media.last().is_some_and(|m| {
            m.get_port() == port
                && port != 0
                && m.get_connection().as_ref().is_some_and(|c| c.address.to_string() == addr.to_string())
                && m.get_proto().to_string() == media.get_proto().to_string()
                && m.get_type().to_string() == media.get_type().to_string()
        }) {
            // already there
            return Ok(());
        }
'''),
  'two media sections of the same type, port, protocol and address added one after the other',
  'the second is not added',
  r'''
fn main() {
    let mut s = ok(HEAD);
    for _ in 0..2 {
        s.add_media(
            SdpMediaValue::Audio,
            SdpAttribute::Sendrecv,
            9,
            SdpProtocolValue::UdpTlsRtpSavpf,
            ExplicitlyTypedAddress::try_from((AddressType::IpV4, "0.0.0.0")).unwrap(),
        )
        .unwrap();
    }
    assert_eq!(s.media.len(), 2);
}
''')
S('c22-same-ssrc', 'C22', (M, '''                    _ => sdp_media.add_attribute(a),
                }''', '''                    SdpAttribute::Ssrc(ref ssrc)
                        if sdp_media
                            .attribute
                            .iter()
                            .filter(|b| matches!(b, SdpAttribute::Ssrc(s) if s.id == ssrc.id))
                            .any(|b| b.to_string() == a.to_string()) =>
                    {
                        trace!("said before: {}", a);
                        sdp_media.add_attribute(a)
                    }
                    _ => sdp_media.add_attribute(a),
                }'''),
  'very many ssrc lines with one identifier',
  'the time grows with the square of their number',
  r'''
fn main() {
    let time = |n: usize| {
        let lines: Vec<String> = (0..n).map(|i| format!("a=ssrc:7 name{i}:value")).collect();
        let lines: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let text = sdp(&[], &lines);
        let mut best = f64::MAX;
        for _ in 0..3 {
            let t = std::time::Instant::now();
            ok(&text);
            best = best.min(t.elapsed().as_secs_f64());
        }
        best
    };
    let (a, b) = (time(400), time(6400));
    assert!(b < 64.0 * a, "{a} {b}");
}
''', release=True)
