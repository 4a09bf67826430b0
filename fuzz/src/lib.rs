//! Coverage-guided search: the bytes are the choices of a case of the check SDP_FUZZ=property/sub
//! (the first one is its size), so that the search varies what the generators make.

use sdp_harness::engine::{install_panic_hook, run_case, CaseFn, Src, SEARCH_SIZE};
use std::sync::OnceLock;

static CASE: OnceLock<CaseFn> = OnceLock::new();

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    let f = CASE.get_or_init(|| {
        install_panic_hook();
        let v = std::env::var("SDP_FUZZ").expect("SDP_FUZZ");
        let (id, sub) = v.split_once('/').expect("property/sub");
        sdp_harness::props::case(id, sub).expect("a check")
    });
    let d = if len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    let Some((size, d)) = d.split_first() else { return 0 };
    let o = run_case(*f, Src::coded(d.to_vec(), *size as u64 % SEARCH_SIZE));
    if let Err(e) = o.res {
        eprintln!("fails: {}", e.msg);
        std::process::abort();
    }
    0
}
