# Bugs in the printed form that this crate's own lenient reader does not notice.
S('c29-q-scientific', 'C29', (A, '''        write_option_string!(f, ",q={}", self.q)?;''', '''        write_option_string!(f, ",q={:?}", self.q)?;'''.replace('write_option_string!(f, ",q={:?}", self.q)?;', '''if let Some(ref q) = self.q {
            // whole preferences without a fraction
            if q.fract() == 0.0 {
                write!(f, ",q={q}")?;
            } else {
                write!(f, ",q={q:?}")?;
            }
        }''')),
  'an imageattr preference below 0.0001',
  'it is printed with an exponent (q=1e-5), which the grammar does not have',
  r'''
fn main() {
    let t = attr("imageattr:97 send [x=800,y=640,q=0.00001]").to_string();
    assert_eq!(t, "imageattr:97 send [x=800,y=640,q=0.00001]");
}
''')
S('c29-framerate-scientific', 'C29', (A, '''            SdpAttribute::FrameRate(ref a) => attr_to_string(a.to_string()),''', '''            SdpAttribute::FrameRate(ref a) => attr_to_string(if a.fract() == 0.0 {
                a.to_string()
            } else {
                format!("{a:?}")
            }),'''),
  'a frame rate that is a tiny fraction',
  'it is printed with an exponent (framerate:1e-5), which the grammar does not have',
  r'''
fn main() {
    assert_eq!(attr("framerate:0.00001").to_string(), "framerate:0.00001");
    assert_eq!(attr("framerate:29.97").to_string(), "framerate:29.97");
}
''')
S('c29-level-digits', 'C29', (A, '''                    format!("{:06x}", self.profile_level_id),
                    "42000a".to_string()''', '''                    format!("{:x}", self.profile_level_id),
                    "42000a".to_string()'''),
  'a profile-level-id whose first digit is 0',
  'it is printed with fewer than six digits, so another reader takes the profile for the constraints',
  r'''
fn main() {
    let t = attr("fmtp:97 profile-level-id=08e01f").to_string();
    assert_eq!(t, "fmtp:97 profile-level-id=08e01f");
}
''')
S('c29-empty-name', 'C29', ('src/lib.rs', '''        if let Some(text) = &self.session {
            text.as_str()
        } else {
            " "
        }''', '''        if let Some(text) = &self.session {
            text.as_str()
        } else {
            ""
        }'''),
  'a description without a session name (s= with a blank)',
  'the name is printed as an empty field, which must hold at least one character',
  r'''
fn main() {
    let s = ok(&sdp(&[], &[]).replace("s=-", "s= "));
    assert!(s.to_string().contains("\r\ns= \r\n"));
}
''')
S('c29-fec-fr', 'C29', [(A, '''            "FEC-FR" => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,''', '''            "FEC-FR" | "FEC_FR" => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,'''),
  (A, '''            SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR",''', '''            SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC_FR",''')],
  'an ssrc-group with FEC-FR',
  'its semantics is printed in a spelling that only this crate reads',
  r'''
fn main() {
    assert_eq!(attr("ssrc-group:FEC-FR 1 2").to_string(), "ssrc-group:FEC-FR 1 2");
}
''')
S('c29-sctpmap-word', 'C29', (A, '''            "{port} webrtc-datachannel {channels}",
            port = self.port,
            channels = self.channels
        )''', '''            "{port} {word} {channels}",
            port = self.port,
            // the form of the first drafts for a single stream
            word = match self.channels {
                1 => "webrtc-DataChannel",
                _ => "webrtc-datachannel",
            },
            channels = self.channels
        )'''),
  'an sctpmap with one channel',
  'the protocol word is printed in mixed case; this crate reads it in any case',
  r'''
fn main() {
    assert_eq!(attr("sctpmap:5000 webrtc-datachannel 1").to_string(), "sctpmap:5000 webrtc-datachannel 1");
}
''')
S('c29-attributes-first', 'C29', ('src/media_type.rs', '''            "m={mline}\\r\\n{bw}{connection}{attributes}",
            mline = self.media,''', '''            "m={mline}\\r\\n{bw}{first}{connection}{attributes}",
            mline = self.media,
            // what is not in use needs no more than its direction
            first = match (self.media.port, &self.attribute[..]) {
                (0, [SdpAttribute::Inactive]) => return write!(f, "m={mline}\\r\\na=inactive\\r\\n{bw}{c}", mline = self.media, bw = maybe_vector_to_string!("b={}\\r\\n", self.bandwidth, "\\r\\nb="), c = option_to_string!("c={}\\r\\n", self.connection)),
                _ => "",
            },'''),
  'a disabled section with a=inactive and a connection or bandwidth line',
  'the attribute is printed before the other lines of its section',
  r'''
fn main() {
    let s = ok(&sdp(&[], &["b=AS:1", "a=inactive"]).replace("m=audio 9", "m=audio 0"));
    assert!(s.to_string().ends_with("b=AS:1\r\na=inactive\r\n"), "{s}");
}
''')
