#![allow(unused, static_mut_refs, clippy::all)]
//! Harnesses: each scenario builds an input tree (partly symbolic), runs the real program's `main` on it, and checks what it did.
pub mod fs;
pub mod model;
pub mod out;
pub mod scen;
pub mod ts;
#[cfg(not(feature = "native"))]
pub mod vfs;
pub use symstd::rt;

pub trait Ret { fn code(self) -> i32; }
impl Ret for () { fn code(self) -> i32 { 0 } }
impl<T: Ret, E: std::fmt::Debug> Ret for Result<T, E> { fn code(self) -> i32 { match self { Ok(t) => t.code(), Err(e) => { eprintln!("Error: {:?}", e); 1 } } } }
impl Ret for std::process::ExitCode { fn code(self) -> i32 { if self == std::process::ExitCode::SUCCESS { 0 } else { 1 } } }

pub static mut MAIN: Option<fn() -> i32> = None;
pub fn run(m: fn() -> i32) {
    unsafe { MAIN = Some(m); }
    #[cfg(feature = "native")]
    if std::env::var("MODEL_RUN").is_ok() {
        let n = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        unsafe { rt::HASH_BUDGET = n("MODEL_HASH"); rt::RUN = n("MODEL_WHICH"); }
        rt::sched(n("MODEL_SCHED") == 1);
        std::process::exit(m());
    }
    scen::dispatch(rt::param(0));
}

// ---- choices ----
pub fn ch(l: &str, n: u64) -> u64 { if n <= 1 { return 0; } if n > 256 { let h = ch(&format!("{}/256", l), (n + 255) / 256); return h * 256 + ch(l, if h == (n - 1) / 256 { n - h * 256 } else { 256 }); } rt::conc(rt::u8(l, 0, (n - 1) as u8, 0) as u64) }
pub fn yes(l: &str) -> bool { ch(l, 2) == 1 }
/// A symbolic byte in lo..=hi.
pub fn sy(l: &str, lo: u8, hi: u8) -> u8 { rt::u8(l, lo, hi, 0) }
pub fn cat(p: &str, b: u8) -> String { let mut v = p.as_bytes().to_vec(); v.push(b); unsafe { String::from_utf8_unchecked(v) } }
pub fn s(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
pub fn check(c: bool, m: &str) { rt::check(c, m) }
pub fn cover(m: &str) { rt::cover(m) }
/// Record text (evaluated in the counterexample) next to a violation.
pub fn note(m: &str) { rt::note(m) }
