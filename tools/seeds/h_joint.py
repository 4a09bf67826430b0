# Bugs that need two lists to grow together, or values of an unusual size.
S('c22-bundle-mids', 'C22', (L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''', '''    // a group that names a section twice or not at all is worth a note
    for attr in &session.attribute {
        if let SdpAttribute::Group(ref group) = *attr {
            for tag in &group.tags {
                let named = session
                    .media
                    .iter()
                    .filter(|m| match m.get_attribute(SdpAttributeType::Mid) {
                        Some(SdpAttribute::Mid(mid)) => mid == tag,
                        _ => false,
                    })
                    .count();
                if named != 1 {
                    trace!("group tag {} names {} sections", tag, named);
                }
            }
        }
    }

    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)'''),
  'a group with thousands of tags and a description with thousands of sections',
  'the work grows with the product of tags and sections',
  r'''
fn text(n: usize) -> String {
    let mut t = HEAD.to_string();
    t += "a=group:BUNDLE";
    for i in 0..n {
        t += &format!(" m{i}");
    }
    t += "\r\n";
    for i in 0..n {
        t += &format!("m=audio 9 UDP/TLS/RTP/SAVPF 0\r\na=mid:m{i}\r\n");
    }
    t
}
fn time(t: &str) -> f64 {
    (0..5)
        .map(|_| {
            let a = std::time::Instant::now();
            ok(t);
            a.elapsed().as_secs_f64()
        })
        .fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (text(1000), text(16000));
    assert!(time(&b) < time(&a) * 80.0);
}
''', release=True)
S('c22-undeclared-codecs', 'C22', (M, '''    media_sections.push(sdp_media);

    Ok(media_sections)''', '''    // say which codecs are described but not offered
    if let SdpFormatList::Integers(ref formats) = *sdp_media.get_formats() {
        for attr in sdp_media.get_attributes() {
            if let SdpAttribute::Rtpmap(ref rtpmap) = *attr {
                if !formats.contains(&u32::from(rtpmap.payload_type)) {
                    trace!("codec {} is not offered", rtpmap.codec_name);
                }
            }
        }
    }
    media_sections.push(sdp_media);

    Ok(media_sections)'''),
  'thousands of formats in the last media line and thousands of rtpmap lines for a format that is not among them',
  'the work grows with the product of formats and rtpmaps',
  r'''
fn text(n: usize) -> String {
    let mut t = HEAD.to_string();
    t += "m=audio 9 RTP/AVP";
    for i in 0..n {
        t += &format!(" {}", 96 + i % 16);
    }
    t += "\r\n";
    for _ in 0..n {
        t += "a=rtpmap:120 x/8000\r\n";
    }
    t
}
fn time(t: &str) -> f64 {
    (0..5)
        .map(|_| {
            let a = std::time::Instant::now();
            ok(t);
            a.elapsed().as_secs_f64()
        })
        .fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (text(2000), text(64000));
    assert!(time(&b) < time(&a) * 130.0);
}
''', release=True)
