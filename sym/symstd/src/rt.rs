//! Verification intrinsics. Under the engine they are external functions; natively they replay recorded choices.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn __sym_u8(l: *const u8, n: usize, lo: u8, hi: u8, kind: u64) -> u8;
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_check(c: bool, m: *const u8, n: usize);
        pub fn __sym_feasible(c: bool) -> u64;
        pub fn __sym_cover(p: *const u8, n: usize);
        pub fn __sym_note(p: *const u8, n: usize);
        pub fn __sym_out(p: *const u8, n: usize);
        pub fn __sym_param(k: u64) -> u64;
        pub fn __sym_catch(f: extern "C" fn(*mut u8), d: *mut u8) -> u64;
        pub fn __sym_throw(c: u64) -> !;
        pub fn __sym_set_args(c: i32, v: *const *const u8, e: *const *const u8);
        pub fn __sym_spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64;
        pub fn __sym_join(t: u64);
        pub fn __sym_yield(k: u64);
        pub fn __sym_sched(on: u64);
        pub fn __sym_wait(k: u64);
        pub fn __sym_notify(k: u64);
        pub fn __sym_tid() -> u64;
    }
    pub fn u8(l: &str, lo: u8, hi: u8, kind: u64) -> u8 { unsafe { __sym_u8(l.as_ptr(), l.len(), lo, hi, kind) } }
    pub fn conc(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
    pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { __sym_check(c, m.as_ptr(), m.len()) } }
    pub fn feasible(c: bool) -> bool { unsafe { __sym_feasible(c) != 0 } }
    pub fn cover(m: &str) { unsafe { __sym_cover(m.as_ptr(), m.len()) } }
    pub fn note(m: &str) { unsafe { __sym_note(m.as_ptr(), m.len()) } }
    pub fn out(m: &str) { unsafe { __sym_out(m.as_ptr(), m.len()) } }
    pub fn param(k: u64) -> u64 { unsafe { __sym_param(k) } }
    pub fn spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64 { unsafe { __sym_spawn(f, d) } }
    pub fn join(t: u64) { unsafe { __sym_join(t) } }
    pub fn yield_(k: u64) { unsafe { __sym_yield(k) } }
    pub fn sched(on: bool) { unsafe { __sym_sched(on as u64) } }
    pub fn wait(k: u64) { unsafe { __sym_wait(k) } }
    pub fn notify(k: u64) { unsafe { __sym_notify(k) } }
    pub fn tid() -> u64 { unsafe { __sym_tid() } }
}

#[cfg(feature = "native")]
mod imp {
    //! Replay: choices come from the file named by SYM_CHOICES ("label value" lines); threads are real threads that
    //! hand a single baton to each other exactly where the recorded schedule says so.
    use ::std::collections::BTreeMap;
    use ::std::sync::{Condvar, Mutex};
    #[derive(Clone, PartialEq, Debug)]
    enum S { Run, Join(usize), Cond(u64), Sleep, Done }
    struct T { st: S, spun: u64, nspin: u32, idle: u32 }
    struct G { choices: Option<BTreeMap<String, u64>>, count: BTreeMap<String, u64>, th: Vec<T>, cur: usize, sched: bool, preempt: u64, bound: u64, epoch: u64, params: Vec<u64>, run: u64 }
    static G: Mutex<G> = Mutex::new(G { choices: None, count: BTreeMap::new(), th: Vec::new(), cur: 0, sched: false, preempt: 0, bound: 0, epoch: 0, params: Vec::new(), run: 0 });
    static C: Condvar = Condvar::new();
    ::std::thread_local! { static ME: ::std::cell::Cell<usize> = const { ::std::cell::Cell::new(0) }; }
    fn g() -> ::std::sync::MutexGuard<'static, G> {
        let mut g = match G.lock() { Ok(g) => g, Err(e) => e.into_inner() };
        if g.choices.is_none() {
            let mut m = BTreeMap::new();
            if let Ok(f) = ::std::env::var("SYM_CHOICES") { if let Ok(s) = ::std::fs::read_to_string(f) { for l in s.lines() { if let Some((a, b)) = l.rsplit_once(' ') { if a == "!preempt" { g.bound = b.parse().unwrap_or(0); } else if a == "!param" { let v = b.split(',').filter_map(|x| x.parse().ok()).collect(); g.params = v; } else if let Ok(v) = b.parse() { m.insert(a.to_string(), v); } } } } }
            g.choices = Some(m); g.th.push(T { st: S::Run, spun: 0, nspin: 0, idle: 0 });
        }
        g
    }
    impl G {
        fn choice(&mut self, l: &str, lo: u64) -> u64 { let k = self.count.entry(l.to_string()).or_default(); let n = format!("{}#{}", l, *k); *k += 1; self.choices.as_ref().unwrap().get(&n).copied().unwrap_or(lo) }
        fn pick(&mut self, must: bool) {
            let n = self.th.len(); let mut c = vec![];
            if !must { c.push(self.cur); }
            for k in 1..=n { let i = (self.cur + k) % n; if i == self.cur && !must { continue; } if self.th[i].st == S::Run && !(must && i == self.cur) { c.push(i); } }
            if must && c.is_empty() { for k in 1..=n { let i = (self.cur + k) % n; if self.th[i].st == S::Sleep { c.push(i); if !self.sched { break; } } } }
            if c.is_empty() { eprintln!("MODEL: deadlock"); ::std::process::exit(77); }
            let p = if !self.sched || c.len() == 1 || (!must && self.preempt >= self.bound) { 0 } else { let p = self.choice("sched", 0) as usize; if !must && p != 0 { self.preempt += 1; } p.min(c.len() - 1) };
            self.cur = c[p]; let t = self.cur; if self.th[t].st == S::Sleep { self.th[t].st = S::Run; }
            C.notify_all();
        }
        fn progress(&mut self) { self.epoch += 1; for t in self.th.iter_mut() { if t.st == S::Sleep { t.st = S::Run; } } }
        fn spin(&mut self) {
            let c = self.cur; let ep = self.epoch + 1;
            { let t = &mut self.th[c]; if t.spun == ep { t.nspin += 1; } else { t.spun = ep; t.nspin = 1; } t.st = S::Sleep; }
            if self.th.len() > 1 && self.th.iter().all(|t| match t.st { S::Done => true, S::Run => false, S::Sleep => t.spun == ep && t.nspin >= 4, _ => true }) { eprintln!("MODEL: no thread can make progress"); ::std::process::exit(77); }
            self.pick(true);
        }
    }
    fn turn(mut gd: ::std::sync::MutexGuard<'static, G>) { let me = ME.with(|m| m.get()); while gd.cur != me { gd = match C.wait(gd) { Ok(g) => g, Err(e) => e.into_inner() }; } }
    pub fn u8(l: &str, lo: u8, hi: u8, kind: u64) -> u8 { let mut g = g(); (g.choice(l, lo as u64) as u8).clamp(lo, hi) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn assume(c: bool) { if !c { eprintln!("assumption false in replay"); ::std::process::exit(78); } }
    pub fn check(c: bool, m: &str) { if !c { println!("REPRODUCED: {}", m); ::std::process::exit(1); } }
    pub fn feasible(c: bool) -> bool { c }
    pub fn cover(_: &str) {}
    pub fn note(m: &str) { println!("note: {}", m); }
    pub fn out(m: &str) { eprintln!("{}", m); }
    pub fn param(k: u64) -> u64 { g().params.get(k as usize).copied().unwrap_or(0) }
    pub fn spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64 {
        let d = d as usize; let mut gd = g();
        let t = gd.th.len(); gd.th.push(T { st: S::Run, spun: 0, nspin: 0, idle: 0 }); gd.progress(); drop(gd);
        ::std::thread::spawn(move || {
            ME.with(|m| m.set(t)); turn(g());
            if ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(d as *mut u8))).is_err() { ::std::process::exit(101); }
            let mut gd = g(); gd.th[t].st = S::Done; for x in gd.th.iter_mut() { if x.st == S::Join(t) { x.st = S::Run; } } gd.progress(); gd.pick(true);
        });
        t as u64
    }
    pub fn join(t: u64) { let mut gd = g(); let c = gd.cur; if gd.th.get(t as usize).map_or(true, |x| x.st == S::Done) { return; } gd.th[c].st = S::Join(t as usize); gd.pick(true); turn(gd); }
    pub fn yield_(k: u64) { let mut gd = g(); let c = gd.cur; match k { 1 => gd.spin(), 2 => { gd.progress(); gd.th[c].idle = 0; if gd.sched { gd.pick(false) } } _ => { gd.th[c].idle += 1; if gd.th[c].idle > 8 { gd.th[c].idle = 0; gd.spin() } else if gd.sched { gd.pick(false) } } } turn(gd); }
    pub fn sched(on: bool) { let mut gd = g(); gd.sched = on; gd.preempt = 0; }
    pub fn wait(k: u64) { let mut gd = g(); let c = gd.cur; gd.th[c].st = S::Cond(k); gd.pick(true); turn(gd); }
    pub fn notify(k: u64) { let mut gd = g(); for t in gd.th.iter_mut() { if t.st == S::Cond(k) { t.st = S::Run; } } gd.progress(); }
    pub fn tid() -> u64 { g().cur as u64 }
}
pub use imp::*;
#[cfg(not(feature = "native"))]
pub use imp::{__sym_catch, __sym_set_args, __sym_throw};

// ---- order of hash-table iteration: an explicit choice, within a budget of deviations per run ----
pub static mut HASH_BUDGET: u64 = 0;
pub static mut RUN: u64 = 0;
/// Threads started so far.
pub static mut SPAWNED: u64 = 0;
/// An iteration order for a table of n entries. Insertion order, unless the run still has a deviation to spend.
pub fn order(n: usize) -> ::std::vec::Vec<usize> {
    let mut v: ::std::vec::Vec<usize> = (0..n).collect();
    unsafe {
        if n < 2 || HASH_BUDGET == 0 { return v; }
        let l = if RUN == 0 { "hash" } else { "hash1" };
        // 0: default order, 1: reversed, k >= 2: entry k-1 comes first, n+1..: last entry goes before entry j
        let hi = if n == 2 { 1 } else { n as u64 };
        let c = conc(u8(l, 0, hi.min(7) as u8, 1) as u64);
        if c == 0 { return v; }
        HASH_BUDGET -= 1;
        if c == 1 { v.reverse(); } else { let x = v.remove((c - 1) as usize); v.insert(0, x); }
    }
    v
}
