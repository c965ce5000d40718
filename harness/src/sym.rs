//! Symbolic primitives. Under the engine these are externals; in the native replay they read the input stream.
extern "C" {
    fn sym_bytes(p: *mut u8, n: u64);
    fn sym_assume(c: u32);
    fn sym_check(c: u32, code: u32);
    fn sym_fail(code: u32);
    fn sym_reach(id: u32);
    fn sym_obs(v: u64);
    fn sym_choice(n: u32) -> u32;
    fn sym_known(id: u32);
    fn sym_fix(p: *const u8, n: u64);
    fn sym_dbg(p: *const u8, n: u64);
    fn sym_tier() -> u64;
    fn sym_is_conc(p: *const u8, n: u64) -> u64;
}

pub fn bytes<const N: usize>() -> [u8; N] { let mut a = [0u8; N]; unsafe { sym_bytes(a.as_mut_ptr(), N as u64) }; a }
pub fn byte() -> u8 { bytes::<1>()[0] }
pub fn vec(n: usize) -> Vec<u8> { let mut a = vec![0u8; n]; unsafe { sym_bytes(a.as_mut_ptr(), n as u64) }; a }
pub fn u64v() -> u64 { u64::from_le_bytes(bytes::<8>()) }
pub fn assume(c: bool) { unsafe { sym_assume(c as u32) } }
/// the property: proved by the solver for every value of the symbolic inputs on this path
pub fn check(c: bool, code: u32) { unsafe { sym_check(c as u32, code) } }
pub fn fail(code: u32) { unsafe { sym_fail(code) } }
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
pub fn obs(v: u64) { unsafe { sym_obs(v) } }
/// case split over 0..n
pub fn choice(n: u32) -> u32 {
    if n <= 256 { return unsafe { sym_choice(n) }; }
    let hi = choice((n + 255) / 256);
    hi * 256 + choice((n - hi * 256).min(256))
}
pub fn flip() -> bool { choice(2) == 1 }
/// a listed known finding applies on this path
pub fn known(id: u32) { unsafe { sym_known(id) } }
/// case split over every feasible value of these bytes
pub fn fix(b: &[u8]) { unsafe { sym_fix(b.as_ptr(), b.len() as u64) } }
/// 0 = quick, 1 = thorough: selects the bounds
pub fn tier() -> u64 { unsafe { sym_tier() } }
pub fn by_tier<T>(q: T, t: T) -> T { if tier() == 0 { q } else { t } }
/// true when every byte is concrete under the engine (always true natively)
pub fn is_conc(b: &[u8]) -> bool { unsafe { sym_is_conc(b.as_ptr(), b.len() as u64) != 0 } }
pub fn dbg(s: &str) { unsafe { sym_dbg(s.as_ptr(), s.len() as u64) } }
/// observe a byte string (length and a position-sensitive 64-bit fold) for the native cross-check
pub fn obs_bytes(b: &[u8]) { obs(b.len() as u64); for c in b.chunks(8) { let mut a = [0u8; 8]; a[..c.len()].copy_from_slice(c); obs(u64::from_le_bytes(a)); } }
/// n symbolic ASCII characters (all 128 values each)
pub fn ascii(n: usize) -> String { let v = vec(n); for b in &v { assume(*b < 0x80); } unsafe { String::from_utf8_unchecked(v) } }
/// n symbolic printable ASCII characters (blank included) other than the two JSON escapes
pub fn ident(n: usize) -> String { let v = vec(n); for b in &v { assume(*b >= b' ' && *b <= b'~' && *b != b'"' && *b != b'\\'); } unsafe { String::from_utf8_unchecked(v) } }
/// n bytes of symbolic valid UTF-8
pub fn utf8(n: usize) -> String { let v = vec(n); match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); String::new() } } }
pub fn opt<T>(f: impl FnOnce() -> T) -> Option<T> { if flip() { Some(f()) } else { None } }

#[cfg(feature = "native")]
mod native {
    use std::sync::Mutex;
    pub struct N { pub input: Vec<u8>, pub pos: usize, pub obs: Vec<u64>, pub reach: Vec<u32>, pub known: Vec<u32> }
    pub static S: Mutex<N> = Mutex::new(N { input: vec![], pos: 0, obs: vec![], reach: vec![], known: vec![] });
    fn take(n: usize) -> Vec<u8> { let mut s = S.lock().unwrap(); let p = s.pos; let v: Vec<u8> = (0..n).map(|i| s.input.get(p + i).copied().unwrap_or(0)).collect(); s.pos += n; v }
    pub fn finish(kind: &str, code: u32, msg: &str) -> ! {
        let s = match S.lock() { Ok(s) => s, Err(p) => p.into_inner() };
        let o: Vec<String> = s.obs.iter().map(|x| format!("\"{:x}\"", x)).collect();
        let r: Vec<String> = s.reach.iter().map(|x| x.to_string()).collect();
        let k: Vec<String> = s.known.iter().map(|x| x.to_string()).collect();
        let m: String = msg.chars().flat_map(|c| c.escape_default()).map(|c| if c == '\'' { ' ' } else { c }).collect::<String>().replace('\\', "\\\\").replace('"', " ");
        println!("REPLAY {{\"kind\":\"{}\",\"code\":{},\"msg\":\"{}\",\"obs\":[{}],\"reach\":[{}],\"known\":[{}],\"used\":{}}}", kind, code, m, o.join(","), r.join(","), k.join(","), s.pos);
        std::process::exit(0)
    }
    #[no_mangle] extern "C" fn sym_bytes(p: *mut u8, n: u64) { let v = take(n as usize); unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) } }
    #[no_mangle] extern "C" fn sym_assume(c: u32) { if c == 0 { finish("assume", 0, "") } }
    #[no_mangle] extern "C" fn sym_check(c: u32, code: u32) { if c == 0 { finish("fail", code, "") } }
    #[no_mangle] extern "C" fn sym_fail(code: u32) { finish("fail", code, "") }
    #[no_mangle] extern "C" fn sym_reach(id: u32) { S.lock().unwrap().reach.push(id) }
    #[no_mangle] extern "C" fn sym_obs(v: u64) { S.lock().unwrap().obs.push(v) }
    #[no_mangle] extern "C" fn sym_choice(n: u32) -> u32 { if n <= 1 { return 0; } let v = take(1)[0] as u32; if v >= n { finish("assume", 0, "choice") } v }
    #[no_mangle] extern "C" fn sym_known(id: u32) { S.lock().unwrap().known.push(id) }
    #[no_mangle] extern "C" fn sym_tier() -> u64 { std::env::var("SYM_TIER").ok().and_then(|v| v.parse().ok()).unwrap_or(0) }
    #[no_mangle] extern "C" fn sym_is_conc(_p: *const u8, _n: u64) -> u64 { 1 }
    #[no_mangle] extern "C" fn sym_fix(_p: *const u8, _n: u64) {}
    #[no_mangle] extern "C" fn sym_dbg(p: *const u8, n: u64) { let s = unsafe { std::slice::from_raw_parts(p, n as usize) }; eprintln!("DBG: {}", String::from_utf8_lossy(s)) }
    /// same fixed randomness as the engine provides
    #[no_mangle] unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize { for i in 0..n { *p.add(i) = 0x5a ^ (i as u8).wrapping_mul(37); } n as isize }
    #[no_mangle] unsafe extern "C" fn syscall(_n: i64, p: *mut u8, n: usize, _f: u32) -> i64 { for i in 0..n { *p.add(i) = 0x5a ^ (i as u8).wrapping_mul(37); } n as i64 }
}
#[cfg(feature = "native")]
pub use native::{finish, S};
