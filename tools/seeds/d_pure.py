# ---------------------------------------------------------------- C25
S('c25-leftover-tokens', 'C25', [(A, '''    // The parameters may come in any order, so RTX-TIME may precede APT
''', '''    thread_local! {
        // one buffer for the parameters of a list, so as not to allocate for each line
        static UNKNOWN: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    // The parameters may come in any order, so RTX-TIME may precede APT
'''), (A, '''                    _ => parameters
                        .unknown_tokens
                        .push((*parameter_token).to_string()),
''', '''                    _ => UNKNOWN.with(|u| u.borrow_mut().push((*parameter_token).to_string())),
'''), (A, '''    Ok(SdpAttribute::Fmtp(SdpAttributeFmtp {
        payload_type: payload_token.parse::<u8>()?,''', '''    parameters.unknown_tokens = UNKNOWN.with(|u| u.borrow_mut().drain(..).collect());

    Ok(SdpAttribute::Fmtp(SdpAttributeFmtp {
        payload_type: payload_token.parse::<u8>()?,''')],
  'an fmtp with an unknown parameter is rejected for another one, and later another fmtp is parsed in the same thread',
  'the unknown parameter of the rejected line turns up in the other',
  r'''
fn main() {
    assert!(parse_attribute("fmtp:96 x=1;max-fs=y").is_err());
    match attr("fmtp:97 max-fs=3") {
        SdpAttribute::Fmtp(f) => assert!(f.parameters.unknown_tokens.is_empty(), "{:?}", f.parameters.unknown_tokens),
        _ => panic!(),
    }
}
''')
S('c25-interned-names', 'C25', (A, '''        Some(x) => x.to_string(),
    };
    let frequency = match parameters.next() {''', '''        Some(x) => {
            // the same few names come again and again, and they are case-insensitive
            static NAMES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
            let mut names = NAMES.lock().unwrap();
            match names.iter().find(|n| n.eq_ignore_ascii_case(x)) {
                Some(n) => n.clone(),
                None => {
                    if names.len() < 64 {
                        names.push(x.to_string());
                    }
                    x.to_string()
                }
            }
        }
    };
    let frequency = match parameters.next() {'''),
  'a codec name in another letter case than it was first met in by the process',
  'the name is given in the letter case of the other description',
  r'''
fn main() {
    attr("rtpmap:100 Quux/8000");
    match attr("rtpmap:101 QUUX/8000") {
        SdpAttribute::Rtpmap(r) => assert_eq!(r.codec_name, "QUUX"),
        _ => panic!(),
    }
}
''')
S('c25-line-number', 'C25', [(L, '''pub fn parse_sdp_line(line: &str, line_number: usize) -> Result<SdpLine, SdpParserError> {
''', '''/// The line that is being parsed, for the reports of errors
static CURRENT_LINE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn parse_sdp_line(line: &str, line_number: usize) -> Result<SdpLine, SdpParserError> {
    CURRENT_LINE.store(line_number, std::sync::atomic::Ordering::Relaxed);
'''), (L, '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: line.to_string(),
            line_number,''', '''        SdpParserInternalError::Unsupported(..) => SdpParserError::Unsupported {
            error: e,
            line: line.to_string(),
            line_number: CURRENT_LINE.load(std::sync::atomic::Ordering::Relaxed),''')],
  'another thread begins to parse another line while an unsupported line is being parsed',
  'the warning carries the number of the line of the other thread',
  r'''
fn main() {
    let t = std::time::Instant::now();
    let bad: usize = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8usize)
            .map(|w| {
                sc.spawn(move || {
                    while t.elapsed().as_secs() < 20 {
                        for k in 0..1000 {
                            let n = w * 1000 + k;
                            if let Err(e) = parse_sdp_line("a=unheard-of:of an attribute", n) {
                                if line_no(&e) != n {
                                    return 1;
                                }
                            }
                        }
                    }
                    0
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    assert_eq!(bad, 0);
}
''')
S('c25-last-mask', 'C25', [(N, '''        if let Some(address) = self.ips.get(addr) {
            return *address;
        }
''', '''        thread_local! {
            // the same address often comes several times in a row
            static LAST: std::cell::Cell<Option<(IpAddr, IpAddr)>> = const { std::cell::Cell::new(None) };
        }
        match LAST.with(|l| l.get()) {
            Some((a, mapped)) if a == *addr && !self.ips.is_empty() => return mapped,
            _ => {}
        }
        if let Some(address) = self.ips.get(addr) {
            return *address;
        }
'''), (N, '''        self.ips.insert(*addr, mapped);
        mapped''', '''        LAST.with(|l| l.set(Some((*addr, mapped))));
        self.ips.insert(*addr, mapped);
        mapped''')],
  'two anonymisers used in turn in one thread, for sessions with an address in common',
  'one of them gives the mask of the other',
  r'''
fn main() {
    let ip = |n: u8| IpAddr::V4(Ipv4Addr::new(192, 0, 2, n));
    let (mut a, mut b) = (StatefulSdpAnonymizer::new(), StatefulSdpAnonymizer::new());
    for n in 1..10 {
        a.mask_ip(&ip(n));
    }
    b.mask_ip(&ip(50));
    a.mask_ip(&ip(60));
    assert_eq!(b.mask_ip(&ip(60)), IpAddr::V4(Ipv4Addr::new(0, 0, 0, 2)));
}
''')
S('c25-key-buffer', 'C25', (N, '''        let key = value.to_owned();
        if let Some(stored) = self.map.get(&key) {''', '''        thread_local! {
            // a scratch buffer for the keys, which are looked up far more often than stored
            static KEY: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
        }
        let key = KEY.with(|k| {
            let mut k = k.borrow_mut();
            k.truncate(value.len());
            if !k.eq_ignore_ascii_case(value) {
                k.clear();
                k.push_str(value);
            }
            k.clone()
        });
        if let Some(stored) = self.map.get(&key) {'''),
  'two names that differ in letter case only (or one is the beginning of the other, in another case), masked one after the other in a thread',
  'they get the same mask, or not, according to what was masked in between',
  r'''
fn main() {
    let (mut a, mut b) = (StatefulSdpAnonymizer::new(), StatefulSdpAnonymizer::new());
    a.mask_cname("abc");
    let x = a.mask_cname("ABC");
    b.mask_cname("abc");
    b.mask_cname("-");
    let y = b.mask_cname("ABC");
    assert_eq!(x, "cname-00000002");
    assert_eq!(y, "cname-00000003");
}
''')
