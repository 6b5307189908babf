//! Symbolic executor: interprets the module, forking on symbolic branches.
use crate::ll::*;
use crate::solver::*;
use crate::term::{self, as_const, T};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u64), T(T), W(Box<u128>), A(Rc<Vec<V>>) }
const Z: V = V::C(0);

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<T>, pub ro: bool }
const CH: usize = 64;
/// Consecutive reads of shared state without a change after which a thread is taken to be busy-waiting.
const IDLE: u32 = 8;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone)]
pub struct Mem { ch: Vec<Rc<Chunk>>, pub next: u32 }
#[derive(Debug)]
pub enum Er { Mem(String), Unsup(String) }
type R<X> = Result<X, Er>;
fn em<X>(s: String) -> R<X> { Err(Er::Mem(s)) }

impl Mem {
    fn new() -> Self { Mem { ch: vec![], next: 1 } }
    fn alloc(&mut self, data: Vec<u8>, ro: bool) -> u32 {
        let id = self.next; self.next += 1;
        let c = id as usize / CH;
        if c >= self.ch.len() { self.ch.push(Rc::new([const { None }; CH])); }
        Rc::make_mut(&mut self.ch[c])[id as usize % CH] = Some(Rc::new(Obj { data, sym: vec![], ro }));
        id
    }
    fn free(&mut self, id: u32) { Rc::make_mut(&mut self.ch[id as usize / CH])[id as usize % CH] = None; }
    #[inline] fn get(&self, id: u32) -> Option<&Obj> { self.ch.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_deref()) }
    #[inline] fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.ch.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        c[id as usize % CH].as_mut().map(|o| Rc::make_mut(o))
    }
    fn obj(&self, a: u64, n: u64) -> R<(&Obj, usize)> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff) as usize;
        match self.get(id) { Some(o) if off + n as usize <= o.data.len() => Ok((o, off)), Some(o) => em(format!("out of bounds: addr {:x} size {} object size {}", a, n, o.data.len())), None => em(format!("bad address {:x} (+{})", a, n)) }
    }
    fn obj_mut(&mut self, a: u64, n: u64) -> R<(&mut Obj, usize)> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff) as usize;
        match self.get_mut(id) { Some(o) if off + n as usize <= o.data.len() && !o.ro => Ok((o, off)), Some(o) => em(format!("bad store: addr {:x} size {} object size {} ro {}", a, n, o.data.len(), o.ro)), None => em(format!("bad store address {:x} (+{})", a, n)) }
    }
    #[inline]
    pub fn load(&self, a: u64, n: u8, w: u8) -> R<V> {
        let (o, off) = self.obj(a, n as u64)?;
        if n > 8 { if n == 16 {
            if !o.sym.is_empty() && o.sym[off..off + 16].iter().any(|&t| t != 0) { return Err(Er::Unsup("symbolic 128-bit load".into())); }
            let mut b = [0u8; 16]; b.copy_from_slice(&o.data[off..off + 16]); return Ok(V::W(Box::new(u128::from_le_bytes(b)))); }
            return Err(Er::Unsup(format!("load {} bytes", n))); }
        if !o.sym.is_empty() {
            let s = &o.sym[off..off + n as usize];
            if s.iter().any(|&t| t != 0) {
                let mut acc = 0;
                for k in (0..n as usize).rev() { let b = if s[k] != 0 { s[k] } else { term::konst(o.data[off + k] as u64, 8) }; acc = if acc == 0 { b } else { term::cat(acc, b) }; }
                return Ok(mk(term::ext(acc, 0, w)));
            }
        }
        let d = &o.data[off..];
        let v = match n { 1 => d[0] as u64, 2 => u16::from_le_bytes([d[0], d[1]]) as u64, 4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64,
            8 => u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]), _ => { let mut v = 0; for k in (0..n as usize).rev() { v = v << 8 | d[k] as u64; } v } };
        Ok(V::C(if w >= 64 { v } else { v & ((1u64 << w) - 1) }))
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: u8, v: &V) -> R<()> {
        let (o, off) = self.obj_mut(a, n as u64)?;
        match v {
            V::C(c) => { let b = c.to_le_bytes(); let n = n as usize; if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else { o.data[off..off + 8].copy_from_slice(&b); o.data[off + 8..off + n].fill(0); } if !o.sym.is_empty() { o.sym[off..off + n].fill(0); } }
            V::W(x) => { let b = x.to_le_bytes(); o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]); if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); } }
            V::T(t) => {
                if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                let w = term::w(*t); let full = term::zx(*t, ((w + 7) / 8 * 8).max(n.min(8) * 8));
                for k in 0..n as usize { let b = term::ext(full, 8 * k as u8, 8); match as_const(b) { Some(c) => { o.data[off + k] = c as u8; o.sym[off + k] = 0; } None => o.sym[off + k] = b } }
            }
            V::A(_) => return Err(Er::Unsup("store aggregate".into())),
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (data, sym) = { let (o, off) = self.obj(s, n)?; let n = n as usize; (o.data[off..off + n].to_vec(), if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&t| t == 0) { None } else { Some(o.sym[off..off + n].to_vec()) }) };
        let (o, off) = self.obj_mut(d, n)?;
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&data);
        match sym { None => if !o.sym.is_empty() { o.sym[off..off + n].fill(0) }, Some(s) => { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[off..off + n].copy_from_slice(&s); } }
        Ok(())
    }
    fn byte(&self, a: u64) -> R<V> { self.load(a, 1, 8) }
    fn cstr(&self, a: u64) -> R<Vec<V>> { let mut v = vec![]; let mut k = a; loop { match self.byte(k)? { V::C(0) => return Ok(v), x => v.push(x) } k += 1; } }
    pub fn bytes(&self, a: u64, n: u64, m: &Model) -> Vec<u8> {
        let mut e = term::Eval::new(m); let mut out = vec![];
        for k in 0..n { match self.byte(a + k) { Ok(V::C(c)) => out.push(c as u8), Ok(V::T(t)) => out.push(e.ev(t) as u8), _ => break } } out
    }
}
#[inline] fn mk(t: T) -> V { match as_const(t) { Some(c) => V::C(c), None => V::T(t) } }
#[inline] fn tm(v: &V, w: u32) -> T { match v { V::C(c) => term::konst(*c, w as u8), V::T(t) => *t, V::W(x) => term::konst(**x as u64, w as u8), V::A(_) => panic!("aggregate as term") } }

#[derive(Clone)]
pub struct Frame { f: u32, bb: u32, ip: u32, base: u32, ret: u32, sp: u32, catch: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum Status { Run, Futex(u64), Join(u32), Cond(u64), Sleep, Done }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, regs: Vec<V>, stack: u32, sp: u32, tls: BTreeMap<u32, u32>, pub status: Status, spun: u64, nspin: u32, idle: u32, keys: BTreeMap<u64, u64> }

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>, pub cur: usize, pub mem: Mem, pub pc: Vec<T>, pub model: Rc<Model>,
    pub steps: u64, limit: u64, pub labels: BTreeMap<String, u32>, pub vars: Vec<u32>, pub depth: u32, pub notes: Vec<String>, pub last: String,
    sched: bool, preempt: u32, nkey: u64, pub epoch: u64, pub trace: Vec<u8>,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64, pub pruned: u64, pub forks: u64, pub steps: u64, pub checks_sym: u64, pub checks_conc: u64, pub outcomes: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>, pub violations: Vec<(String, Vec<(String, u64)>, Vec<String>)>, pub nviol: u64, pub errors: Vec<String>, pub funcs: Vec<u32>,
    pub samples: Vec<String>, pub st: Stats, pub maxdepth: u32, pub maxvars: u32, pub transitions: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum X { Getrandom, Malloc, Calloc, Realloc, Free, MemAlign, Memcmp, Bcmp, Strlen, Memcpy, Memset, Write, Getenv, Zero, MinusOne, Syscall, Exit, Abort, Errno, Env,
    KeyCreate, KeyGet, KeySet, KeyDel, Clock, Getcwd, Self_,
    Umin(u32), Umax(u32), Smin(u32), Smax(u32), Ovf(u8, u32), UaddSat(u32), UsubSat(u32), SaddSat(u32), SsubSat(u32), Fshl(u32), Fshr(u32), Cttz(u32), Ctlz(u32), Ctpop(u32), Bswap(u32), Bitrev(u32), Ucmp(u32, u32), Scmp(u32, u32), Abs(u32),
    Tls, Fabs, Ceil, Floor, FtoUSat(u32), FtoSSat(u32), IsConst, Pause,
    SU8, SConc, SAssume, SCheck, SCover, SParam, SNote, SCatch, SThrow, SArgs, SSpawn, SJoin, SYield, SSched, SFeas, SWaitC, SNotify, STid, SOut, RawSys,
    Unknown }

pub struct Eng {
    pub m: &'static Module, ext: Vec<X>, hook: Vec<Option<u32>>, pub sv: Solver, pub work: Vec<State>, pub rep: Report, pub params: Vec<u64>, panics: Vec<u8>, seen: Vec<bool>,
    argv_init: Option<u32>, pub max_viol: usize, run_limit: u64, total_limit: u64, depth_limit: usize, preempt_bound: u32, pub deadline: std::time::Instant, viol_seen: HashMap<String, u32>, pub out: Vec<u8>, pub verbose: bool, pub trace: bool, pub watch: u64, watchv: String,
}

fn sxi(v: u64, w: u32) -> i64 { term::sext(v, w as u8) }
fn mask(w: u32) -> u64 { term::mask(w as u8) }
enum Dec { One(bool), Both(Rc<Model>, bool) }
enum Flow { Next, Reload, Die }

impl Eng {
    pub fn new(m: &'static Module) -> Self {
        let ext = m.exts.iter().map(|n| Self::ext_kind(n)).collect();
        let hook = m.exts.iter().map(|n| m.fidx.get(&format!("__libc_{}", n)).copied()).collect();
        // 1: panic entry points; 2: process-exit paths that are handled by name
        let panics = m.funcs.iter().map(|f| { let n = &f.name; if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("begin_panic") || n.contains("17rust_panic") || n.contains("handle_alloc_error") || n.contains("rust_panic_without_hook") { 1 } else { 0 } }).collect();
        let argv_init = m.funcs.iter().position(|f| f.name.contains("ARGV_INIT_ARRAY") || f.name.contains("really_init") && f.name.contains("args")).map(|x| x as u32);
        Eng { m, ext, hook, sv: Solver::new(), work: vec![], rep: Report::default(), params: vec![], panics, seen: vec![false; m.funcs.len()], argv_init, max_viol: 12, run_limit: 400_000_000, total_limit: 4_000_000_000, depth_limit: 3000, preempt_bound: 0, deadline: std::time::Instant::now() + std::time::Duration::from_secs(800), viol_seen: HashMap::new(), out: vec![], verbose: false, trace: false, watch: 0, watchv: String::new() }
    }
    pub fn set_limits(&mut self, run: u64, preempt: u32) { self.run_limit = run; self.preempt_bound = preempt; }
    fn ext_kind(n: &str) -> X {
        let wd = |s: &str| -> u32 { s.rsplit('.').find_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64) };
        let p = |s: &str| n.starts_with(s);
        match n {
            "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::MemAlign, "memcmp" => X::Memcmp, "bcmp" => X::Bcmp, "strlen" => X::Strlen,
            "memcpy" | "memmove" => X::Memcpy, "memset" => X::Memset, "write" => X::Write, "getenv" => X::Getenv, "syscall" => X::Syscall, "exit" | "_exit" => X::Exit, "abort" => X::Abort,
            "__errno_location" => X::Errno, "pthread_key_create" => X::KeyCreate, "pthread_getspecific" => X::KeyGet, "pthread_setspecific" => X::KeySet, "pthread_key_delete" => X::KeyDel, "clock_gettime" => X::Clock, "getcwd" => X::Getcwd, "pthread_self" | "gettid" => X::Self_, "getrandom" => X::Getrandom, "clock_nanosleep" | "nanosleep" | "usleep" => X::Pause,
            "__cxa_thread_atexit_impl" | "dlsym" | "pthread_setname_np" | "munmap" | "mprotect" | "isatty" | "sched_yield" | "close" | "sigaltstack" | "pthread_attr_init" | "pthread_attr_destroy" | "_Unwind_Backtrace" | "signal" => X::Zero,
            "sysconf" | "sched_getaffinity" | "open64" | "stat64" | "readlink" | "realpath" | "opendir" | "statx" | "fstat64" | "getauxval" | "ioctl" => X::MinusOne,
            "__sym_u8" => X::SU8, "__sym_concretize" => X::SConc, "__sym_assume" => X::SAssume, "__sym_check" => X::SCheck, "__sym_cover" => X::SCover, "__sym_param" => X::SParam, "__sym_note" => X::SNote,
            "__sym_catch" => X::SCatch, "__sym_throw" => X::SThrow, "__sym_set_args" => X::SArgs, "__sym_spawn" => X::SSpawn, "__sym_join" => X::SJoin, "__sym_yield" => X::SYield, "__sym_sched" => X::SSched, "__sym_feasible" => X::SFeas,
            "__sym_wait" => X::SWaitC, "__sym_notify" => X::SNotify, "__sym_tid" => X::STid, "__sym_out" => X::SOut,
            "environ" => X::Env,
            _ if n.starts_with("asm:") && n.contains("syscall") && n.contains("={ax},={cx},={r11},{ax}") => X::RawSys,
            _ if p("llvm.memcpy") || p("llvm.memmove") => X::Memcpy, _ if p("llvm.memset") => X::Memset,
            _ if p("llvm.umin") => X::Umin(wd(n)), _ if p("llvm.umax") => X::Umax(wd(n)), _ if p("llvm.smin") => X::Smin(wd(n)), _ if p("llvm.smax") => X::Smax(wd(n)),
            _ if p("llvm.uadd.with") => X::Ovf(0, wd(n)), _ if p("llvm.usub.with") => X::Ovf(1, wd(n)), _ if p("llvm.umul.with") => X::Ovf(2, wd(n)), _ if p("llvm.sadd.with") => X::Ovf(3, wd(n)), _ if p("llvm.ssub.with") => X::Ovf(4, wd(n)), _ if p("llvm.smul.with") => X::Ovf(5, wd(n)),
            _ if p("llvm.uadd.sat") => X::UaddSat(wd(n)), _ if p("llvm.usub.sat") => X::UsubSat(wd(n)), _ if p("llvm.sadd.sat") => X::SaddSat(wd(n)), _ if p("llvm.ssub.sat") => X::SsubSat(wd(n)),
            _ if p("llvm.fshl") => X::Fshl(wd(n)), _ if p("llvm.fshr") => X::Fshr(wd(n)), _ if p("llvm.cttz") => X::Cttz(wd(n)), _ if p("llvm.ctlz") => X::Ctlz(wd(n)), _ if p("llvm.ctpop") => X::Ctpop(wd(n)), _ if p("llvm.bswap") => X::Bswap(wd(n)), _ if p("llvm.bitreverse") => X::Bitrev(wd(n)), _ if p("llvm.abs") => X::Abs(wd(n)),
            _ if p("llvm.ucmp") || p("llvm.scmp") => { let v: Vec<u32> = n.split('.').filter_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).collect(); if p("llvm.ucmp") { X::Ucmp(v[0], v[1]) } else { X::Scmp(v[0], v[1]) } }
            _ if p("llvm.threadlocal") => X::Tls, _ if p("llvm.fabs.f64") => X::Fabs, _ if p("llvm.ceil.f64") => X::Ceil, _ if p("llvm.floor.f64") => X::Floor,
            _ if p("llvm.fptoui.sat") => X::FtoUSat(n.split('.').find_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64)), _ if p("llvm.fptosi.sat") => X::FtoSSat(n.split('.').find_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64)),
            _ if p("llvm.is.constant") => X::IsConst, _ if p("llvm.x86.sse2.pause") => X::Pause, _ if p("llvm.trap") || p("llvm.ubsantrap") => X::Abort,
            _ => X::Unknown,
        }
    }
    pub fn initial(&self, entry: u32) -> State {
        let mut mem = Mem::new();
        for g in &self.m.globals { let id = mem.alloc(g.data.clone(), g.konst); debug_assert_eq!(gaddr(id - 1), (id as u64) << 32); }
        let mut st = State { th: vec![], cur: 0, mem, pc: vec![], model: Rc::new(Model::new()), steps: 0, limit: self.total_limit, labels: BTreeMap::new(), vars: vec![], depth: 0, notes: vec![], last: String::new(), sched: false, preempt: 0, nkey: 1, epoch: 0, trace: vec![] };
        self.spawn(&mut st, entry, vec![]);
        st
    }
    fn spawn(&self, st: &mut State, f: u32, args: Vec<V>) -> usize {
        let stack = st.mem.alloc(vec![0; 4096], false);
        let mut t = Thread { frames: vec![], regs: vec![], stack, sp: 0, tls: BTreeMap::new(), status: Status::Run, spun: 0, nspin: 0, idle: 0, keys: BTreeMap::new() };
        Self::push_frame(self.m, &mut t, &mut st.mem, f, args, NOREG);
        st.th.push(t); st.th.len() - 1
    }
    fn push_frame(m: &'static Module, t: &mut Thread, mem: &mut Mem, f: u32, args: Vec<V>, ret: u32) {
        let fun = &m.funcs[f as usize];
        let base = match t.frames.last() { Some(fr) => fr.base + m.funcs[fr.f as usize].nregs, None => 0 };
        let need = (base + fun.nregs) as usize;
        if t.regs.len() < need { t.regs.resize(need, Z); }
        for (i, a) in args.into_iter().enumerate() { if i < fun.params.len() { t.regs[base as usize + fun.params[i] as usize] = a; } }
        t.frames.push(Frame { f, bb: 0, ip: 0, base, ret, sp: t.sp, catch: false });
        t.sp += fun.frame as u32;
        let o = mem.get_mut(t.stack).unwrap();
        if o.data.len() < t.sp as usize { let n = (t.sp as usize).next_power_of_two() * 2; o.data.resize(n, 0); if !o.sym.is_empty() { o.sym.resize(n, 0); } }
    }
    fn pop_frame(t: &mut Thread, mem: &mut Mem) -> Frame {
        let fr = t.frames.pop().unwrap();
        if t.sp > fr.sp { if let Some(o) = mem.get(t.stack) { if !o.sym.is_empty() && o.sym[fr.sp as usize..t.sp as usize].iter().any(|&x| x != 0) { let o = mem.get_mut(t.stack).unwrap(); o.sym[fr.sp as usize..t.sp as usize].fill(0); } } }
        t.sp = fr.sp; fr
    }

    fn decide(&mut self, st: &State, c: T) -> Result<Dec, Er> {
        if let Some(k) = as_const(c) { return Ok(Dec::One(k == 1)); }
        let b = term::Eval::new(&st.model).ev(c) == 1;
        let other = if b { term::not(c) } else { c };
        match self.sv.check(&st.pc, other) {
            Res::Unsat => Ok(Dec::One(b)),
            Res::Sat(m) => { let mut mm = (*st.model).clone(); mm.extend(m); Ok(Dec::Both(Rc::new(mm), b)) }
            Res::Unknown => Err(Er::Unsup("solver gave up".into())),
        }
    }
    fn assume(st: &mut State, c: T) { if as_const(c).is_none() {
        if let term::N::Bin(term::Op::And, a, b) = *term::node(c) { Self::assume(st, a); Self::assume(st, b); } else if !st.pc.contains(&c) { st.pc.push(c); } } }
    /// Forks so that `v` has one concrete value on the current path; the sibling re-executes the instruction.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c), V::W(x) => Ok(**x as u64), V::A(_) => Err(Er::Unsup("concretize aggregate".into())),
            V::T(t) => {
                let c = term::Eval::new(&st.model).ev(*t);
                let e = term::eq(*t, term::konst(c, term::w(*t)));
                match self.decide(st, e)? {
                    Dec::One(_) => {}
                    Dec::Both(m, _) => { let mut o = st.clone(); o.model = m; o.depth += 1; Self::assume(&mut o, term::not(e)); self.rep.forks += 1; self.work.push(o); st.depth += 1; Self::assume(st, e); }
                }
                Ok(c)
            }
        }
    }

    fn finish(&mut self, st: &State, why: &str) {
        self.rep.paths += 1; self.rep.steps += st.steps; *self.rep.outcomes.entry(why.to_string()).or_default() += 1;
        self.rep.maxdepth = self.rep.maxdepth.max(st.depth); self.rep.maxvars = self.rep.maxvars.max(st.vars.len() as u32);
        if self.rep.samples.len() < 4 { let s = format!("{} | {} | {}", why, self.assign(st).iter().map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(" "), st.notes.join(" / ")); let s: String = s.chars().take(1500).collect(); self.rep.samples.push(s); }
    }
    fn assign(&self, st: &State) -> Vec<(String, u64)> { st.vars.iter().map(|&v| { let vi = &term::ar().vars[v as usize]; let n = vi.name.split('~').next().unwrap().to_string(); (n, st.model.get(&v).copied().unwrap_or(vi.lo)) }).collect() }
    fn violation(&mut self, st: &State, msg: String) {
        self.rep.nviol += 1;
        let k: String = msg.chars().take(100).collect();
        let n = self.viol_seen.entry(k).or_default(); *n += 1;
        if *n <= 3 && self.rep.violations.len() < self.max_viol { let a = self.assign(st); self.rep.violations.push((msg, a, st.notes.clone())); }
    }

    fn load_ty(mem: &Mem, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(v, _) => { let mut o = vec![]; for i in 0..v.len() { o.push(Self::load_ty(mem, a + ty.offset(i), &v[i])?); } Ok(V::A(Rc::new(o))) }
            Ty::Arr(n, t) => { let mut o = vec![]; for i in 0..*n { o.push(Self::load_ty(mem, a + i * t.size(), t)?); } Ok(V::A(Rc::new(o))) }
            Ty::Vect(n, t) => { let mut o = vec![]; if t.bits() == 1 { return Err(Er::Unsup("load <n x i1>".into())); } for i in 0..*n as u64 { o.push(Self::load_ty(mem, a + i * t.size(), t)?); } Ok(V::A(Rc::new(o))) }
            t => mem.load(a, t.store_size() as u8, t.bits().min(64) as u8),
        }
    }
    fn store_ty(mem: &mut Mem, a: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(ts, _), V::A(x)) => { for i in 0..ts.len() { Self::store_ty(mem, a + ty.offset(i), &ts[i], &x[i])?; } Ok(()) }
            (Ty::Arr(n, t), V::A(x)) => { for i in 0..*n { Self::store_ty(mem, a + i * t.size(), t, &x[i as usize])?; } Ok(()) }
            (Ty::Vect(n, t), V::A(x)) => { for i in 0..*n as u64 { Self::store_ty(mem, a + i * t.size(), t, &x[i as usize])?; } Ok(()) }
            (t, v) => mem.store(a, t.store_size() as u8, v),
        }
    }
    /// Load through a symbolic address: a lookup-table read is turned into an if-then-else term when one byte decides it.
    fn load_sym(&mut self, st: &mut State, t: T, n: u8, w: u8) -> R<V> {
        let vs = term::vars_of(t);
        if vs.len() == 1 {
            let vi = term::ar().vars[vs[0] as usize].clone();
            if vi.hi - vi.lo <= 255 {
                let mut groups: BTreeMap<u64, Vec<u64>> = BTreeMap::new(); let mut ok = true; let mut bad = vec![];
                for x in vi.lo..=vi.hi { let mut m = Model::new(); m.insert(vs[0], x); let a = term::Eval::new(&m).ev(t);
                    match st.mem.load(a, n, w) { Ok(V::C(c)) => groups.entry(c).or_default().push(x), Ok(_) => { ok = false; break; } Err(_) => bad.push(x) } }
                // every address must be feasible-or-excluded
                if ok && !bad.is_empty() { let var = vi.term; let mut c = term::fls(); for x in &bad { c = term::or(c, term::eq(var, term::konst(*x, vi.w))); } if let Res::Sat(_) = self.sv.check(&st.pc, c) { ok = false; } }
                if ok && !groups.is_empty() {
                    let var = vi.term;
                    let mut gs: Vec<(u64, Vec<u64>)> = groups.into_iter().collect(); gs.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                    let mut acc = term::konst(gs[0].0, w);
                    for (val, xs) in gs.iter().skip(1) {
                        let mut c = term::fls(); let mut i = 0;
                        while i < xs.len() { let mut j = i; while j + 1 < xs.len() && xs[j + 1] == xs[j] + 1 { j += 1; }
                            let r = if i == j { term::eq(var, term::konst(xs[i], vi.w)) } else { term::and(term::not(term::ult(var, term::konst(xs[i], vi.w))), term::not(term::ult(term::konst(xs[j], vi.w), var))) };
                            c = term::or(c, r); i = j + 1; }
                        acc = term::ite(c, term::konst(*val, w), acc);
                    }
                    return Ok(mk(acc));
                }
            }
        }
        let a = self.conc(st, &V::T(t))?;
        st.mem.load(a, n, w)
    }
    fn cmp_bytes(st: &State, a: u64, b: u64, n: u64, ordered: bool) -> R<V> {
        if n == 0 { return Ok(Z); }
        { let (o, i) = st.mem.obj(a, n)?; let (p, j) = st.mem.obj(b, n)?; let k = n as usize;
            if o.sym.is_empty() && p.sym.is_empty() { let r = o.data[i..i + k].cmp(&p.data[j..j + k]); return Ok(V::C(match r { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })); } }
        let mut acc = term::konst(0, 32);
        for k in (0..n).rev() {
            let (x, y) = (st.mem.byte(a + k)?, st.mem.byte(b + k)?);
            if let (V::C(x), V::C(y)) = (&x, &y) { if x == y { continue; } acc = term::konst(if x < y { 0xffff_ffff } else { 1 }, 32); continue; }
            let (x, y) = (tm(&x, 8), tm(&y, 8));
            if ordered { acc = term::ite(term::eq(x, y), acc, term::ite(term::ult(x, y), term::konst(0xffff_ffff, 32), term::konst(1, 32))); }
            else { acc = term::ite(term::eq(x, y), acc, term::konst(1, 32)); }
        }
        Ok(mk(acc))
    }

    fn binop(&mut self, st: &mut State, op: BOp, w: u32, a: V, b: V) -> R<V> {
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y, m) = (*x, *y, mask(w));
            let r = match op {
                BOp::Add => x.wrapping_add(y), BOp::Sub => x.wrapping_sub(y), BOp::Mul => x.wrapping_mul(y), BOp::And => x & y, BOp::Or => x | y, BOp::Xor => x ^ y,
                BOp::Shl => if y >= w as u64 { 0 } else { x << y }, BOp::LShr => if y >= w as u64 { 0 } else { x >> y }, BOp::AShr => (sxi(x, w) >> y.min(w as u64 - 1)) as u64,
                BOp::UDiv => { if y == 0 { return em("division by zero".into()); } x / y } BOp::URem => { if y == 0 { return em("division by zero".into()); } x % y }
                BOp::SDiv => { if y == 0 { return em("division by zero".into()); } sxi(x, w).wrapping_div(sxi(y, w)) as u64 } BOp::SRem => { if y == 0 { return em("division by zero".into()); } sxi(x, w).wrapping_rem(sxi(y, w)) as u64 }
                BOp::FAdd | BOp::FSub | BOp::FMul | BOp::FDiv | BOp::FRem => { if w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { BOp::FAdd => p + q, BOp::FSub => p - q, BOp::FMul => p * q, BOp::FDiv => p / q, _ => p % q }).to_bits() } else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { BOp::FAdd => p + q, BOp::FSub => p - q, BOp::FMul => p * q, BOp::FDiv => p / q, _ => p % q }).to_bits() as u64 } }
            };
            return Ok(V::C(r & m));
        }
        if w > 64 {
            let g = |v: &V| -> R<u128> { match v { V::W(x) => Ok(**x), V::C(c) => Ok(*c as u128), _ => Err(Er::Unsup("symbolic 128-bit arithmetic".into())) } };
            let (x, y) = (g(&a)?, g(&b)?);
            let r = match op { BOp::Add => x.wrapping_add(y), BOp::Sub => x.wrapping_sub(y), BOp::Mul => x.wrapping_mul(y), BOp::And => x & y, BOp::Or => x | y, BOp::Xor => x ^ y, BOp::Shl => if y >= 128 { 0 } else { x << y }, BOp::LShr => if y >= 128 { 0 } else { x >> y }, BOp::UDiv => x / y, BOp::URem => x % y, _ => return Err(Er::Unsup("128-bit op".into())) };
            let r = if w < 128 { r & ((1u128 << w) - 1) } else { r };
            return Ok(V::W(Box::new(r)));
        }
        use term::Op as O;
        let o = match op { BOp::Add => O::Add, BOp::Sub => O::Sub, BOp::Mul => O::Mul, BOp::UDiv => O::UDiv, BOp::URem => O::URem, BOp::SDiv => O::SDiv, BOp::SRem => O::SRem, BOp::And => O::And, BOp::Or => O::Or, BOp::Xor => O::Xor, BOp::Shl => O::Shl, BOp::LShr => O::LShr, BOp::AShr => O::AShr,
            _ => { let x = self.conc(st, &a)?; let y = self.conc(st, &b)?; return self.binop(st, op, w, V::C(x), V::C(y)); } };
        Ok(mk(term::bin(o, tm(&a, w), tm(&b, w))))
    }
    fn cmp(p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sxi(x, w) > sxi(y, w), Pred::Sge => sxi(x, w) >= sxi(y, w), Pred::Slt => sxi(x, w) < sxi(y, w), Pred::Sle => sxi(x, w) <= sxi(y, w) };
            return Ok(V::C(r as u64));
        }
        if w > 64 { let g = |v: &V| -> R<u128> { match v { V::W(x) => Ok(**x), V::C(c) => Ok(*c as u128), _ => Err(Er::Unsup("symbolic 128-bit compare".into())) } }; let (x, y) = (g(a)?, g(b)?); let s = |v: u128| if w < 128 { ((v << (128 - w)) as i128) >> (128 - w) } else { v as i128 };
            return Ok(V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) } as u64)); }
        let (x, y) = (tm(a, w), tm(b, w));
        #[allow(unused_imports)] use term::{bin, ult, eq, not, and, or, ite, zx, ext, cat, konst, tru, fls, Op};
        Ok(mk(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ugt => ult(y, x), Pred::Uge => not(ult(x, y)), Pred::Ult => ult(x, y), Pred::Ule => not(ult(y, x)), Pred::Sgt => bin(Op::Slt, y, x), Pred::Sge => not(bin(Op::Slt, x, y)), Pred::Slt => bin(Op::Slt, x, y), Pred::Sle => not(bin(Op::Slt, y, x)) }))
    }

    /// Moves control of the current frame to block `to`, evaluating its phis.
    #[inline]
    fn goto(m: &'static Module, t: &mut Thread, to: u32) {
        let fr = t.frames.last_mut().unwrap();
        let b = &m.funcs[fr.f as usize].blocks[to as usize];
        let from = fr.bb; fr.bb = to; fr.ip = 0;
        if !b.phis.is_empty() {
            let base = fr.base as usize;
            if b.phis.len() == 1 {
                let (d, v) = &b.phis[0];
                for (l, o) in v { if *l == from { let x = match o { Opd::R(r) => t.regs[base + *r as usize].clone(), Opd::C(c) => V::C(*c), Opd::K(k) => k.clone() }; t.regs[base + *d as usize] = x; break; } }
            } else {
                let mut tmp: Vec<V> = Vec::with_capacity(b.phis.len());
                for (_, v) in &b.phis { for (l, o) in v { if *l == from { tmp.push(match o { Opd::R(r) => t.regs[base + *r as usize].clone(), Opd::C(c) => V::C(*c), Opd::K(k) => k.clone() }); break; } } }
                for ((d, _), x) in b.phis.iter().zip(tmp) { t.regs[base + *d as usize] = x; }
            }
        }
    }

    fn throw(&mut self, st: &mut State, code: u64) -> Flow {
        // unwind to the innermost catch frame of thread 0, ending every other thread
        st.cur = 0;
        for t in st.th.iter_mut().skip(1) { t.status = Status::Done; t.frames.clear(); t.regs.clear(); }
        st.th.truncate(1);
        let m = self.m;
        let t = &mut st.th[0]; t.status = Status::Run;
        loop {
            if t.frames.is_empty() { self.rep.errors.push(format!("harness ended abnormally with {} ({})", code, st.last)); let s = st.clone(); self.finish(&s, "abnormal end"); return Flow::Die; }
            let fr = Self::pop_frame(t, &mut st.mem);
            if fr.catch {
                let caller = t.frames.last().unwrap();
                let b = caller.base as usize; let _ = m;
                if fr.ret != NOREG { t.regs[b + fr.ret as usize] = V::C(code); }
                st.limit = self.total_limit; st.sched = false;
                return Flow::Reload;
            }
        }
    }

    /// Chooses the next thread to run. `must`: the current thread cannot continue.
    fn pick(&mut self, st: &mut State, must: bool) -> R<Flow> {
        let n = st.th.len();
        let mut cand: Vec<usize> = vec![];
        if !must { cand.push(st.cur); }
        for k in 1..=n { let i = (st.cur + k) % n; if i == st.cur && !must { continue; } if st.th[i].status == Status::Run && !(must && i == st.cur) { cand.push(i); } }
        if must && cand.is_empty() {
            // sleepers wake when nobody else can run
            for k in 1..=n { let i = (st.cur + k) % n; if st.th[i].status == Status::Sleep { cand.push(i); if !st.sched { break; } } }
        }
        if cand.is_empty() { return Ok(self.throw(st, 1004)); }
        let free = must; // switching away from a blocked thread costs no preemption
        let pick = if !st.sched || cand.len() == 1 || (!free && st.preempt >= self.preempt_bound) { 0 } else {
            let name = self.fresh(st, "sched");
            let v = term::var(&name, 8, 0, cand.len() as u64 - 1, 2);
            let id = match term::node(v) { term::N::Var(i) => *i, _ => unreachable!() };
            st.vars.push(id);
            // fork one sibling per alternative
            let mut first = None;
            for c in (0..cand.len()).rev() {
                let mut s2 = if c == 0 { None } else { Some(st.clone()) };
                let s = s2.as_mut().unwrap_or(st);
                Self::assume(s, term::eq(v, term::konst(c as u64, 8)));
                let mut mm = (*s.model).clone(); mm.insert(id, c as u64); s.model = Rc::new(mm);
                s.depth += 1;
                if c != 0 { if !free { s.preempt += 1; } Self::switch(s, cand[c]); self.rep.forks += 1; self.work.push(s2.unwrap()); } else { first = Some(0); }
            }
            first.unwrap()
        };
        Self::switch(st, cand[pick]);
        self.rep.transitions += 1;
        Ok(Flow::Reload)
    }
    fn switch(st: &mut State, to: usize) { st.cur = to; if st.sched { st.trace.push(to as u8); } if st.th[to].status == Status::Sleep { st.th[to].status = Status::Run; } }
    fn progress(st: &mut State) { st.epoch += 1; for t in st.th.iter_mut() { if t.status == Status::Sleep { t.status = Status::Run; } } }
    fn fresh(&self, st: &mut State, label: &str) -> String { let k = st.labels.entry(label.to_string()).or_default(); let s = format!("{}#{}", label, *k); *k += 1; s }

    /// Depth first until nothing is left; hands half of the pending states to a new process while a slot is free.
    pub fn explore(&mut self, split: &mut dyn FnMut(&mut Eng)) {
        while let Some(st) = self.work.pop() {
            if std::time::Instant::now() > self.deadline { self.rep.errors.push(format!("time budget exhausted with {} states left", self.work.len() + 1)); self.work.clear(); return; }
            self.run(st);
            if self.work.len() >= 2 { split(self); }
        }
    }

    fn run(&mut self, mut st: State) {
        let m = self.m;
        'ctx: loop {
            let stp: *mut State = &mut st;
            let th: &mut Thread = unsafe { &mut (&mut (*stp).th)[(*stp).cur] };
            let frp: *mut Frame = match th.frames.last_mut() { Some(f) => f, None => {
                // thread finished
                th.status = Status::Done;
                if st.cur == 0 { self.finish(&st, "done"); return; }
                let me = st.cur as u32;
                for t in st.th.iter_mut() { if t.status == Status::Join(me) { t.status = Status::Run; } }
                Self::progress(&mut st);
                match self.pick(&mut st, true) { Ok(Flow::Die) | Err(_) => { self.finish(&st, "deadlock"); return; } _ => continue 'ctx }
            } };
            let fr = unsafe { &mut *frp };
            let fun = &m.funcs[fr.f as usize];
            let code: &'static [I] = &fun.blocks[fr.bb as usize].code;
            let regs: *mut V = unsafe { th.regs.as_mut_ptr().add(fr.base as usize) };
            macro_rules! rd { ($o:expr) => { match $o { Opd::R(r) => unsafe { (*regs.add(*r as usize)).clone() }, Opd::C(c) => V::C(*c), Opd::K(k) => k.clone() } } }
            macro_rules! wr { ($d:expr, $v:expr) => { unsafe { *regs.add($d as usize) = $v; } } }
            macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(e) => { match self.fault(&mut st, e) { Flow::Die => return, _ => continue 'ctx } } } } }
            loop {
                let ins = &code[fr.ip as usize];
                st.steps += 1;
                if self.trace && self.watch != 0 { let v = st.mem.load(self.watch, 8, 64).map(|v| show(&v)).unwrap_or_default(); if v != self.watchv { eprintln!("WATCH {} -> {} before {} block {} ip {} {:?} prev {:?}", self.watchv, v, fun.name, fr.bb, fr.ip, ins, if fr.ip > 0 { Some(&code[fr.ip as usize - 1]) } else { None }); self.watchv = v; } }
                match ins {
                    I::Nop => {}
                    I::Copy { a, d } => wr!(*d, rd!(a)),
                    I::Bin { op, w, n, a, b, d } => {
                        let (x, y) = (rd!(a), rd!(b));
                        if *n == 0 { let r = if let (V::C(p), V::C(q), BOp::Add) = (&x, &y, op) { V::C(p.wrapping_add(*q) & mask(*w)) } else { tri!(self.binop(&mut st, *op, *w, x, y)) }; wr!(*d, r); }
                        else if let (V::A(x), V::A(y)) = (&x, &y) { let mut o = vec![]; for k in 0..*n as usize { o.push(tri!(self.binop(&mut st, *op, *w, x[k].clone(), y[k].clone()))); } wr!(*d, V::A(Rc::new(o))); }
                    }
                    I::Cmp { p, w, n, a, b, d } => {
                        let (x, y) = (rd!(a), rd!(b));
                        if *n == 0 { let r = tri!(Self::cmp(*p, *w, &x, &y)); wr!(*d, r); }
                        else if let (V::A(x), V::A(y)) = (&x, &y) { let mut o = vec![]; for k in 0..*n as usize { o.push(tri!(Self::cmp(*p, *w, &x[k], &y[k]))); } wr!(*d, V::A(Rc::new(o))); }
                    }
                    I::Load { ty, n, p, d, w, .. } => {
                        let r = match rd!(p) {
                            V::C(a) => match &**ty { Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => tri!(st.mem.load(a, *n, *w)), t => tri!(Self::load_ty(&st.mem, a, t)) },
                            V::T(t) => { if matches!(&**ty, Ty::Int(_) | Ty::Ptr) && *n <= 8 { tri!(self.load_sym(&mut st, t, *n, *w)) } else { let a = tri!(self.conc(&mut st, &V::T(t))); tri!(Self::load_ty(&st.mem, a, ty)) } }
                            _ => V::C(0) };
                        wr!(*d, r);
                    }
                    I::Store { ty, n, v, p, .. } => {
                        let a = match rd!(p) { V::C(a) => a, x => tri!(self.conc(&mut st, &x)) };
                        let x = rd!(v);
                        match &x { V::A(_) => tri!(Self::store_ty(&mut st.mem, a, ty, &x)), _ => tri!(st.mem.store(a, *n, &x)) }
                    }
                    I::Gep { base, off, idx, d } => {
                        let b = rd!(base);
                        if idx.is_empty() { let r = match b { V::C(c) => V::C(c.wrapping_add(*off)), V::T(t) => mk(term::bin(term::Op::Add, t, term::konst(*off, 64))), v => v }; wr!(*d, r); }
                        else {
                            let mut c = *off; let mut t: T = 0;
                            match b { V::C(x) => c = c.wrapping_add(x), V::T(x) => t = x, _ => {} }
                            for (o, s, w) in idx { match rd!(o) {
                                V::C(x) => c = c.wrapping_add((sxi(x, *w) as u64).wrapping_mul(*s)),
                                V::T(x) => { let e = term::bin(term::Op::Mul, term::sx(x, 64), term::konst(*s, 64)); t = if t == 0 { e } else { term::bin(term::Op::Add, t, e) }; }
                                _ => {} } }
                            let r = if t == 0 { V::C(c) } else { mk(term::bin(term::Op::Add, t, term::konst(c, 64))) };
                            wr!(*d, r);
                        }
                    }
                    I::Cast { c, from, to, a, d } => {
                        let x = rd!(a);
                        let r = tri!(self.cast(&mut st, *c, from, to, x));
                        wr!(*d, r);
                    }
                    I::Sel { c, a, b, w, d } => {
                        match rd!(c) {
                            V::C(k) => { let x = if k & 1 == 1 { rd!(a) } else { rd!(b) }; wr!(*d, x); }
                            V::T(t) => {
                                let (x, y) = (rd!(a), rd!(b));
                                if *w > 0 && *w < 64 && !matches!(x, V::A(_) | V::W(_)) { wr!(*d, mk(term::ite(t, tm(&x, *w), tm(&y, *w)))); }
                                else if let (V::C(p), V::C(q)) = (&x, &y) { if p == q { wr!(*d, x); } else if *p < 1 << 32 && *q < 1 << 32 { wr!(*d, mk(term::ite(t, tm(&x, *w), tm(&y, *w)))); } else { let k = tri!(self.conc(&mut st, &V::T(t))); wr!(*d, if k == 1 { x } else { y }); } }
                                else { let k = tri!(self.conc(&mut st, &V::T(t))); wr!(*d, if k == 1 { x } else { y }); }
                            }
                            V::A(cs) => { if let (V::A(x), V::A(y)) = (rd!(a), rd!(b)) { let mut o = vec![]; for k in 0..cs.len() { match &cs[k] { V::C(1) => o.push(x[k].clone()), V::C(_) => o.push(y[k].clone()), V::T(t) => o.push(mk(term::ite(*t, tm(&x[k], 8), tm(&y[k], 8)))), _ => {} } } wr!(*d, V::A(Rc::new(o))); } }
                            _ => {}
                        }
                    }
                    I::Alloca { off, d } => { let a = ((th.stack as u64) << 32) + fr.sp as u64 + off; wr!(*d, V::C(a)); }
                    I::Ext { a, idx, d } => { let mut v = rd!(a); for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => panic!("extractvalue") }; } wr!(*d, v); }
                    I::Ins { a, v, idx, d } => { let x = rd!(a); let nv = rd!(v); wr!(*d, insv(&x, idx, nv)); }
                    I::VExt { a, i, d } => { let k = tri!({ let x = rd!(i); self.conc(&mut st, &x) }); if let V::A(x) = rd!(a) { wr!(*d, x[k as usize].clone()); } }
                    I::VIns { a, v, i, d } => { let k = tri!({ let x = rd!(i); self.conc(&mut st, &x) }); if let V::A(mut x) = rd!(a) { Rc::make_mut(&mut x)[k as usize] = rd!(v); wr!(*d, V::A(x)); } }
                    I::Shuf { a, b, m: mk_, d } => { if let (V::A(x), V::A(y)) = (rd!(a), rd!(b)) { let n = x.len(); let o = mk_.iter().map(|&k| if k < 0 { Z } else if (k as usize) < n { x[k as usize].clone() } else { y[k as usize - n].clone() }).collect(); wr!(*d, V::A(Rc::new(o))); } }
                    I::FCmp { p, f32_, a, b, d } => {
                        let (x, y) = (tri!({ let q = rd!(a); self.conc(&mut st, &q) }), tri!({ let q = rd!(b); self.conc(&mut st, &q) }));
                        let (x, y) = if *f32_ { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                        let un = x.is_nan() || y.is_nan();
                        let r = match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un || x == y, 9 => un || x > y, 10 => un || x >= y, 11 => un || x < y, 12 => un || x <= y, 13 => un || x != y, 14 => un, _ => true };
                        wr!(*d, V::C(r as u64));
                    }
                    I::FNeg { a, d } => { let x = tri!({ let q = rd!(a); self.conc(&mut st, &q) }); wr!(*d, V::C(x ^ (1 << 63))); }
                    I::Rmw { op, w, p, v, d } => {
                        let a = tri!({ let q = rd!(p); self.conc(&mut st, &q) });
                        let n = (*w + 7) / 8; let old = tri!(st.mem.load(a, n, *w)); let x = rd!(v); let ww = *w as u32;
                        let nv = match op { 0 => x, 1 => tri!(self.binop(&mut st, BOp::Add, ww, old.clone(), x)), 2 => tri!(self.binop(&mut st, BOp::Sub, ww, old.clone(), x)), 3 => tri!(self.binop(&mut st, BOp::And, ww, old.clone(), x)),
                            5 => tri!(self.binop(&mut st, BOp::Or, ww, old.clone(), x)), 6 => tri!(self.binop(&mut st, BOp::Xor, ww, old.clone(), x)),
                            9 => mk(term::ite(term::ult(tm(&old, ww), tm(&x, ww)), tm(&x, ww), tm(&old, ww))), 10 => mk(term::ite(term::ult(tm(&old, ww), tm(&x, ww)), tm(&old, ww), tm(&x, ww))),
                            _ => tri!(Err(Er::Unsup("atomicrmw".into()))) };
                        tri!(st.mem.store(a, n, &nv)); if *d != NOREG { wr!(*d, old); }
                    }
                    I::Cas { w, p, c, v, d } => {
                        let a = tri!({ let q = rd!(p); self.conc(&mut st, &q) });
                        let n = (*w + 7) / 8; let old = tri!(st.mem.load(a, n, *w));
                        let e = tri!(Self::cmp(Pred::Eq, *w as u32, &old, &rd!(c))); let k = tri!(self.conc(&mut st, &e));
                        if k == 1 { let x = rd!(v); tri!(st.mem.store(a, n, &x)); }
                        if *d != NOREG { wr!(*d, V::A(Rc::new(vec![old, V::C(k)]))); }
                    }
                    I::Br(l) => { Self::goto(m, th, *l); continue 'ctx; }
                    I::CBr { c, t, f } => {
                        match rd!(c) {
                            V::C(k) => { Self::goto(m, th, if k & 1 == 1 { *t } else { *f }); if st.steps > st.limit { if let Flow::Die = self.hang(&mut st) { return; } } continue 'ctx; }
                            V::T(c) => {
                                match tri!(self.decide(&st, c)) {
                                    Dec::One(b) => Self::goto(m, th, if b { *t } else { *f }),
                                    Dec::Both(mo, b) => {
                                        let mut o = st.clone(); o.model = mo; o.depth += 1; st.depth += 1; self.rep.forks += 1;
                                        Self::assume(&mut o, if b { term::not(c) } else { c }); Self::assume(&mut st, if b { c } else { term::not(c) });
                                        let cur = o.cur; Self::goto(m, &mut o.th[cur], if b { *f } else { *t }); self.work.push(o);
                                        let cur = st.cur; Self::goto(m, &mut st.th[cur], if b { *t } else { *f });
                                    }
                                }
                                continue 'ctx;
                            }
                            _ => panic!("br"),
                        }
                    }
                    I::Switch { w, v, def, cases, map } => {
                        match rd!(v) {
                            V::C(k) => { let l = map.get(&k).copied().unwrap_or(*def); Self::goto(m, th, l); continue 'ctx; }
                            V::T(t) => {
                                // group the cases by target and fork per feasible target
                                let mut groups: Vec<(u32, T)> = vec![]; let mut any = term::fls();
                                for (c, l) in cases.iter() { let e = term::eq(t, term::konst(*c, *w as u8)); any = term::or(any, e); if *l == *def { continue; } match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = term::or(g.1, e), None => groups.push((*l, e)) } }
                                let mut nd = term::fls(); for g in &groups { nd = term::or(nd, g.1); }
                                groups.push((*def, term::not(nd))); let _ = any;
                                let mut feas: Vec<(u32, T, Rc<Model>)> = vec![];
                                let mut ev = term::Eval::new(&st.model); let cur_idx = groups.iter().position(|g| ev.ev(g.1) == 1).unwrap(); drop(ev);
                                for (i, g) in groups.iter().enumerate() {
                                    if i == cur_idx { feas.push((g.0, g.1, st.model.clone())); continue; }
                                    match self.sv.check(&st.pc, g.1) { Res::Sat(mm) => { let mut x = (*st.model).clone(); x.extend(mm); feas.push((g.0, g.1, Rc::new(x))); } Res::Unsat => {} Res::Unknown => tri!(Err(Er::Unsup("solver gave up".into()))) }
                                }
                                let n = feas.len();
                                for (k, (l, c, mo)) in feas.into_iter().enumerate() {
                                    if k + 1 == n { st.model = mo; if n > 1 { st.depth += 1; Self::assume(&mut st, c); } let cur = st.cur; Self::goto(m, &mut st.th[cur], l); }
                                    else { let mut o = st.clone(); o.model = mo; o.depth += 1; self.rep.forks += 1; Self::assume(&mut o, c); let cur = o.cur; Self::goto(m, &mut o.th[cur], l); self.work.push(o); }
                                }
                                continue 'ctx;
                            }
                            V::W(x) => { let l = map.get(&(*x as u64)).copied().unwrap_or(*def); Self::goto(m, th, l); continue 'ctx; }
                            _ => panic!("switch"),
                        }
                    }
                    I::Ret(o) => {
                        let v = o.as_ref().map(|o| rd!(o));
                        let dump = if self.trace { fun.params.first().and_then(|&p| if let V::C(a) = unsafe { &*regs.add(p as usize) } { let mut s = String::new(); for k in 0..14u64 { match st.mem.load(a + 8 * k, 8, 64) { Ok(v) => s += &format!(" {}", show(&v)), _ => break } } Some(s) } else { None }).unwrap_or_default() } else { String::new() };
                        let f = Self::pop_frame(th, &mut st.mem);
                        if self.trace { eprintln!("{}   [{}]", " ".repeat(th.frames.len()), dump); eprintln!("{}< {} = {}", " ".repeat(th.frames.len()), m.funcs[f.f as usize].name, v.as_ref().map(show).unwrap_or_default()); }
                        if f.catch { st.limit = self.total_limit; st.sched = false; }
                        if let (Some(v), Some(c)) = (v, th.frames.last()) { if f.ret != NOREG { let b = c.base as usize; th.regs[b + f.ret as usize] = v; } }
                        continue 'ctx;
                    }
                    I::Unreachable => { let n = fun.name.clone(); tri!(Err(Er::Mem(format!("unreachable executed in {}", n)))); }
                    I::Call { f, args, d, rw, .. } => {
                        let mut target = match f { Callee::F(i) => Ok(*i), Callee::Ext(e) => Err(*e), Callee::Dyn(o) => { let a = tri!({ let q = rd!(o); self.conc(&mut st, &q) });
                            if a >= EXT_BASE { Err(((a & !EXT_BASE) >> 4) as u32) } else if a >= FUNC_BASE { Ok(((a & !FUNC_BASE) >> 4) as u32) } else { tri!(Err(Er::Mem(format!("call of bad pointer {:x}", a)))) } } };
                        if let Ok(i) = target { if m.funcs[i as usize].blocks.is_empty() { target = Err(0); } }
                        match target {
                            Ok(i) => {
                                if self.panics[i as usize] != 0 && st.th[0].frames.iter().any(|f| f.catch) { st.last = format!("panic via {} in {}", m.funcs[i as usize].name, fun.name); if self.verbose { eprintln!("{}", st.last); } match self.throw(&mut st, 1000) { Flow::Die => { self.finish(&st, "panic outside catch"); return; } _ => continue 'ctx } }
                                self.seen[i as usize] = true;
                                if th.frames.len() > self.depth_limit { match self.throw(&mut st, 1001) { Flow::Die => return, _ => continue 'ctx } }
                                fr.ip += 1;
                                let av: Vec<V> = args.iter().map(|a| rd!(a)).collect();
                                if self.trace { eprintln!("{}> {} {}", " ".repeat(th.frames.len()), m.funcs[i as usize].name, av.iter().map(show).collect::<Vec<_>>().join(" ")); }
                                Self::push_frame(m, th, &mut st.mem, i, av, *d);
                                continue 'ctx;
                            }
                            Err(e) => {
                                let av: Vec<V> = args.iter().map(|a| rd!(a)).collect();
                                match tri!(self.extcall(&mut st, e, av, *d, *rw)) {
                                    Flow::Next => {}
                                    Flow::Reload => continue 'ctx,
                                    Flow::Die => return,
                                }
                            }
                        }
                    }
                }
                fr.ip += 1;
            }
        }
    }
    fn hang(&mut self, st: &mut State) -> Flow { if st.limit < self.total_limit { self.throw(st, 1002) } else { self.rep.errors.push("step limit outside a run".into()); self.finish(st, "limit"); Flow::Die } }
    fn fault(&mut self, st: &mut State, e: Er) -> Flow {
        let fr = st.th[st.cur].frames.last(); let f = fr.map(|f| self.m.funcs[f.f as usize].name.clone()).unwrap_or_default();
        let bt: Vec<String> = st.th[st.cur].frames.iter().rev().take(8).map(|f| self.m.funcs[f.f as usize].name.chars().take(120).collect()).collect();
        match e {
            Er::Mem(s) => { st.last = format!("{} in {}", s, f); if self.verbose { eprintln!("MEM {} {:?}", st.last, bt); } match self.throw(st, 1003) { Flow::Die => { self.rep.errors.push(format!("memory error outside a run: {} bt {:?}", st.last, bt)); self.finish(st, "memory error"); Flow::Die } x => x } }
            Er::Unsup(s) => { self.rep.errors.push(format!("unsupported: {} in {} bt {:?}", s, f, bt)); self.finish(st, "unsupported"); Flow::Die }
        }
    }
    fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, to: &Ty, x: V) -> R<V> {
        let (fw, tw) = (from.bits(), to.bits());
        if let V::A(xs) = &x {
            if c == Cast::Bit { // vector to integer: element 0 is least significant
                let ew = match from { Ty::Vect(_, e) => e.bits(), _ => return Err(Er::Unsup("bitcast agg".into())) };
                if let Ty::Vect(n, e) = to { if e.bits() == ew && *n as usize == xs.len() { return Ok(x); } return Err(Er::Unsup("vector bitcast".into())); }
                if tw > 64 { let mut r = 0u128; for (k, v) in xs.iter().enumerate() { match v { V::C(c) => r |= (*c as u128) << (k as u32 * ew), _ => return Err(Er::Unsup("sym vec 128".into())) } } return Ok(V::W(Box::new(r))); }
                let mut acc: T = 0; let mut conc = 0u64; let mut all = true;
                for (k, v) in xs.iter().enumerate() { match v { V::C(c) => conc |= c << (k as u32 * ew), _ => all = false } }
                if all { return Ok(V::C(conc)); }
                for v in xs.iter().rev() { let t = tm(v, ew); acc = if acc == 0 { t } else { term::cat(acc, t) }; }
                return Ok(mk(acc));
            }
            let (fe, te) = match (from, to) { (Ty::Vect(_, a), Ty::Vect(_, b)) => (a.clone(), b.clone()), _ => return Err(Er::Unsup("vec cast".into())) };
            let mut o = vec![]; for v in xs.iter() { o.push(self.cast(st, c, &fe, &te, v.clone())?); } return Ok(V::A(Rc::new(o)));
        }
        if let (Cast::Bit, Ty::Vect(n, e)) = (c, to) { let ew = e.bits(); let mut o = vec![]; for k in 0..*n { o.push(match &x { V::C(c) => V::C((c >> (k * ew)) & mask(ew)), V::W(b) => V::C((**b >> (k * ew)) as u64 & mask(ew)), V::T(t) => mk(term::ext(*t, (k * ew) as u8, ew as u8)), _ => Z }); } return Ok(V::A(Rc::new(o))); }
        match c {
            Cast::Bit => Ok(x),
            Cast::PtrInt => { if tw < fw { return self.cast(st, Cast::Trunc, from, to, x); } Ok(x) }
            Cast::Zext => match x { V::C(c) => Ok(if tw > 64 { V::W(Box::new(c as u128)) } else { V::C(c) }), V::T(t) => if tw > 64 { let c = self.conc(st, &V::T(t))?; Ok(V::W(Box::new(c as u128))) } else { Ok(mk(term::zx(t, tw as u8))) }, V::W(w) => Ok(V::W(w)), _ => Ok(x) },
            Cast::Sext => match x { V::C(c) => Ok(if tw > 64 { V::W(Box::new(sxi(c, fw) as i128 as u128)) } else { V::C(sxi(c, fw) as u64 & mask(tw)) }), V::T(t) => Ok(mk(term::sx(t, tw as u8))), _ => Err(Er::Unsup("sext128".into())) },
            Cast::Trunc => match x { V::C(c) => Ok(V::C(c & mask(tw))), V::T(t) => Ok(mk(term::ext(t, 0, tw as u8))), V::W(w) => Ok(if tw > 64 { V::W(Box::new(*w & if tw >= 128 { !0 } else { (1u128 << tw) - 1 })) } else { V::C(*w as u64 & mask(tw)) }), _ => Ok(x) },
            _ => {
                if let V::W(w) = &x { if c == Cast::UToF { return Ok(V::C((**w as f64).to_bits())); } }
                let v = self.conc(st, &x)?;
                let f = |v: u64, w: u32| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let of = |v: f64, w: u32| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                Ok(V::C(match c { Cast::FToU => (f(v, fw) as u64) & mask(tw), Cast::FToS => (f(v, fw) as i64 as u64) & mask(tw), Cast::UToF => if tw == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() }, Cast::SToF => if tw == 32 { (sxi(v, fw) as f32).to_bits() as u64 } else { (sxi(v, fw) as f64).to_bits() }, Cast::FExt | Cast::FTrunc => of(f(v, fw), tw), _ => unreachable!() }))
            }
        }
    }

    fn label(&mut self, st: &State, p: &V, n: &V) -> String { match (p, n) { (V::C(p), V::C(n)) => String::from_utf8_lossy(&st.mem.bytes(*p, *n, &st.model)).into_owned(), _ => "?".into() } }

    fn extcall(&mut self, st: &mut State, e: u32, a: Vec<V>, d: u32, _rw: u32) -> R<Flow> {
        let x = self.ext[e as usize];
        if let Some(f) = self.hook[e as usize] { st.th[st.cur].frames.last_mut().unwrap().ip += 1; self.seen[f as usize] = true; let cur = st.cur; Self::push_frame(self.m, &mut st.th[cur], &mut st.mem, f, a, d); return Ok(Flow::Reload); }
        macro_rules! c { ($i:expr) => { match &a[$i] { V::C(c) => *c, v => self.conc(st, v)? } } }
        macro_rules! ret { ($v:expr) => {{ let v = $v; if d != NOREG { let t = &mut st.th[st.cur]; let b = t.frames.last().unwrap().base as usize; t.regs[b + d as usize] = v; } return Ok(Flow::Next); }} }
        macro_rules! adv { () => { st.th[st.cur].frames.last_mut().unwrap().ip += 1; } }
        macro_rules! bool_arg { ($i:expr) => { match &a[$i] { V::C(c) => term::konst(*c & 1, 1), V::T(t) => if term::w(*t) == 1 { *t } else { term::not(term::eq(*t, term::konst(0, term::w(*t)))) }, _ => term::tru() } } }
        match x {
            X::Malloc => { let n = c!(0); if n > 1 << 30 { return Err(Er::Unsup(format!("huge allocation {}", n))); } let id = st.mem.alloc(vec![0; n as usize], false); ret!(V::C((id as u64) << 32)) }
            X::Calloc => { let n = c!(0) * c!(1); if n > 1 << 30 { return Err(Er::Unsup("huge allocation".into())); } let id = st.mem.alloc(vec![0; n as usize], false); ret!(V::C((id as u64) << 32)) }
            X::MemAlign => { let (p, n) = (c!(0), c!(2)); let id = st.mem.alloc(vec![0; n as usize], false); st.mem.store(p, 8, &V::C((id as u64) << 32))?; ret!(Z) }
            X::Realloc => { let (p, n) = (c!(0), c!(1)); if n > 1 << 30 { return Err(Er::Unsup("huge allocation".into())); } let id = st.mem.alloc(vec![0; n as usize], false); let na = (id as u64) << 32;
                if p != 0 { let old = st.mem.obj(p, 0)?.0.data.len() as u64; st.mem.copy(na, p, old.min(n))?; st.mem.free((p >> 32) as u32); } ret!(V::C(na)) }
            X::Free => { let p = c!(0); if p != 0 { if p & 0xffff_ffff != 0 || st.mem.get((p >> 32) as u32).is_none() { return em(format!("bad free {:x}", p)); } st.mem.free((p >> 32) as u32); } ret!(Z) }
            X::Memcpy => { let (dd, s, n) = (c!(0), c!(1), c!(2)); if n > 0 { st.mem.copy(dd, s, n)?; } ret!(V::C(dd)) }
            X::Memset => { let (dd, n) = (c!(0), c!(2)); if n > 0 { match &a[1] { V::C(v) => { let (o, off) = st.mem.obj_mut(dd, n)?; o.data[off..off + n as usize].fill(*v as u8); if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); } } V::T(t) => { let b = term::ext(*t, 0, 8); for k in 0..n { st.mem.store(dd + k, 1, &V::T(b))?; } } _ => {} } } ret!(V::C(dd)) }
            X::Memcmp => { let n = c!(2); if n == 0 { ret!(Z) } let (p, q) = (c!(0), c!(1)); ret!(Self::cmp_bytes(st, p, q, n, true)?) }
            X::Bcmp => { let n = c!(2); if n == 0 { ret!(Z) } let (p, q) = (c!(0), c!(1)); ret!(Self::cmp_bytes(st, p, q, n, false)?) }
            X::Strlen => { let p = c!(0); let mut n = 0; loop { match st.mem.byte(p + n)? { V::C(0) => break, V::T(t) if term::info(t).lo == 0 => { let z = mk(term::eq(t, term::konst(0, term::w(t)))); if self.conc(st, &z)? == 1 { break; } n += 1 } _ => n += 1 } } ret!(V::C(n)) }
            X::Write => ret!(a[2].clone()),
            X::Getenv => ret!(Z),
            X::Zero => ret!(Z),
            X::MinusOne => { let t = st.th[st.cur].clone(); let _ = t; self.set_errno(st, 2)?; ret!(V::C(if self.m.exts[e as usize] == "opendir" || self.m.exts[e as usize] == "realpath" || self.m.exts[e as usize] == "getauxval" { 0 } else { mask(if self.m.exts[e as usize] == "sysconf" || self.m.exts[e as usize] == "readlink" { 64 } else { 32 }) })) }
            X::Errno => { let p = self.errno(st); ret!(V::C(p)) }
            X::Env => ret!(Z),
            X::Self_ => ret!(V::C(st.cur as u64 + 1)),
            X::KeyCreate => { let p = c!(0); let k = st.nkey; st.nkey += 1; st.mem.store(p, 4, &V::C(k))?; ret!(Z) }
            X::KeyDel => ret!(Z),
            X::KeyGet => { let k = c!(0); let v = st.th[st.cur].keys.get(&k).copied().unwrap_or(0); ret!(V::C(v)) }
            X::KeySet => { let (k, v) = (c!(0), c!(1)); let cur = st.cur; st.th[cur].keys.insert(k, v); ret!(Z) }
            X::Clock => { let p = c!(1); st.mem.store(p, 8, &V::C(1000))?; st.mem.store(p + 8, 8, &V::C(st.steps % 1_000_000_000))?; ret!(Z) }
            X::Getcwd => { let (p, n) = (c!(0), c!(1)); let s = b"/w\0"; if n < 3 { ret!(Z) } for (k, b) in s.iter().enumerate() { st.mem.store(p + k as u64, 1, &V::C(*b as u64))?; } ret!(V::C(p)) }
            X::Syscall => {
                let nr = c!(0);
                match nr {
                    186 => ret!(V::C(st.cur as u64 + 1)), // gettid
                    318 => { let (p, n) = (c!(1), c!(2)); for k in 0..n { st.mem.store(p + k, 1, &V::C((k * 37 + 11) & 255))?; } ret!(V::C(n)) } // getrandom
                    202 => {
                        let (p, op) = (c!(1), c!(2) & 0x7f);
                        if op == 0 || op == 9 { let cur = st.mem.load(p, 4, 32)?; let cur = self.conc(st, &cur)?; if cur == c!(3) & 0xffff_ffff { let t = st.cur; st.th[t].status = Status::Futex(p); return self.pick(st, true); } self.set_errno(st, 11)?; ret!(V::C(!0)) }
                        else { for t in st.th.iter_mut() { if t.status == Status::Futex(p) { t.status = Status::Run; } } Self::progress(st); ret!(Z) }
                    }
                    _ => { self.set_errno(st, 38)?; ret!(V::C(!0)) }
                }
            }
            X::RawSys => { let nr = c!(0); if nr != 16 { return Err(Er::Unsup(format!("raw system call {}", nr))); } ret!(V::A(Rc::new(vec![V::C(25u64.wrapping_neg()), Z, Z]))) } // ioctl: not a terminal
            X::Getrandom => { let (p, n) = (c!(0), c!(1)); for k in 0..n { st.mem.store(p + k, 1, &V::C((k * 37 + 11) & 255))?; } ret!(V::C(n)) }
            X::Exit => { let code = c!(0) & 0xff; adv!(); Ok(self.throw(st, code)) }
            X::Abort => { st.last = "abort".into(); Ok(self.throw(st, 1000)) }
            X::Tls => { let g = c!(0); let gi = (g >> 32) as u32; let cur = st.cur; let id = match st.th[cur].tls.get(&gi) { Some(&i) => i, None => { let data = self.m.globals[gi as usize - 1].data.clone(); let id = st.mem.alloc(data, false); st.th[cur].tls.insert(gi, id); id } }; ret!(V::C(((id as u64) << 32) | (g & 0xffff_ffff))) }
            X::IsConst => ret!(Z),
            X::Pause => { if d != NOREG { let t = &mut st.th[st.cur]; let b = t.frames.last().unwrap().base as usize; t.regs[b + d as usize] = Z; } adv!(); self.spin(st) }
            X::Umin(w) | X::Umax(w) => { if let (V::C(p), V::C(q)) = (&a[0], &a[1]) { ret!(V::C(if matches!(x, X::Umin(_)) { *p.min(q) } else { *p.max(q) })) } let (p, q) = (tm(&a[0], w), tm(&a[1], w)); let l = term::ult(p, q); ret!(mk(if matches!(x, X::Umin(_)) { term::ite(l, p, q) } else { term::ite(l, q, p) })) }
            X::Smin(w) | X::Smax(w) => { let (p, q) = (tm(&a[0], w), tm(&a[1], w)); let l = term::bin(term::Op::Slt, p, q); ret!(mk(if matches!(x, X::Smin(_)) { term::ite(l, p, q) } else { term::ite(l, q, p) })) }
            X::Ovf(k, w) => {
                if let (V::C(p), V::C(q)) = (&a[0], &a[1]) {
                    let (v, o) = match k { 0 => { let r = *p as u128 + *q as u128; (r as u64 & mask(w), r > mask(w) as u128) } 1 => (p.wrapping_sub(*q) & mask(w), p < q), 2 => { let r = *p as u128 * *q as u128; (r as u64 & mask(w), r > mask(w) as u128) }
                        _ => { let (i, j) = (sxi(*p, w) as i128, sxi(*q, w) as i128); let r = match k { 3 => i + j, 4 => i - j, _ => i * j }; let v = r as u64 & mask(w); (v, sxi(v, w) as i128 != r) } };
                    ret!(V::A(Rc::new(vec![V::C(v), V::C(o as u64)])))
                }
                if w > 64 { return Err(Er::Unsup("ovf128".into())); }
                let (p, q) = (tm(&a[0], w), tm(&a[1], w));
                #[allow(unused_imports)] use term::{bin, ult, eq, not, and, or, ite, zx, ext, cat, konst, tru, fls, Op};
                let (v, o) = match k {
                    0 => { let v = bin(Op::Add, p, q); (v, ult(v, p)) }
                    1 => (bin(Op::Sub, p, q), ult(p, q)),
                    2 => { if w <= 32 { let (P, Q) = (zx(p, 64), zx(q, 64)); let r = bin(Op::Mul, P, Q); (ext(r, 0, w as u8), ult(konst(term::mask(w as u8), 64), r)) } else if let Some(c) = as_const(q).or(as_const(p)) { let v = if as_const(q).is_some() { p } else { q }; (bin(Op::Mul, p, q), if c == 0 { fls() } else { ult(konst(u64::MAX / c, 64), v) }) } else { let i = self.conc(st, &a[1])?; let q = konst(i, 64); (bin(Op::Mul, p, q), if i == 0 { fls() } else { ult(konst(u64::MAX / i, 64), p) }) } }
                    3 | 4 => { let v = bin(if k == 3 { Op::Add } else { Op::Sub }, p, q); let sp = ext(p, w as u8 - 1, 1); let sq = ext(q, w as u8 - 1, 1); let sv = ext(v, w as u8 - 1, 1); let same = if k == 3 { eq(sp, sq) } else { not(eq(sp, sq)) }; (v, and(same, not(eq(sp, sv)))) }
                    _ => return Err(Er::Unsup("smul.with.overflow".into())),
                };
                ret!(V::A(Rc::new(vec![mk(v), mk(o)])))
            }
            X::UaddSat(w) => { let (p, q) = (tm(&a[0], w), tm(&a[1], w)); let s = term::bin(term::Op::Add, p, q); ret!(mk(term::ite(term::ult(s, p), term::konst(mask(w), w as u8), s))) }
            X::UsubSat(w) => { let (p, q) = (tm(&a[0], w), tm(&a[1], w)); ret!(mk(term::ite(term::ult(p, q), term::konst(0, w as u8), term::bin(term::Op::Sub, p, q)))) }
            X::SaddSat(w) | X::SsubSat(w) => { let (p, q) = (sxi(c!(0), w) as i128, sxi(c!(1), w) as i128); let r = if matches!(x, X::SaddSat(_)) { p + q } else { p - q }; let hi = (1i128 << (w - 1)) - 1; let lo = -(1i128 << (w - 1)); ret!(V::C(r.max(lo).min(hi) as u64 & mask(w))) }
            X::Fshl(w) | X::Fshr(w) => { let s = c!(2) % w as u64; let (p, q) = (tm(&a[0], w), tm(&a[1], w)); let s = if matches!(x, X::Fshl(_)) { s } else { (w as u64 - s) % w as u64 }; if s == 0 { ret!(if matches!(x, X::Fshl(_)) { mk(p) } else { mk(q) }) } #[allow(unused_imports)] use term::{bin, ult, eq, not, and, or, ite, zx, ext, cat, konst, tru, fls, Op}; ret!(mk(bin(Op::Or, bin(Op::Shl, p, konst(s, w as u8)), bin(Op::LShr, q, konst(w as u64 - s, w as u8))))) }
            X::Cttz(w) => { match &a[0] { V::C(v) => ret!(V::C(if *v == 0 { w as u64 } else { v.trailing_zeros() as u64 })), V::T(t) => { let mut acc = term::konst(w as u64, w as u8); for k in (0..w).rev() { acc = term::ite(term::ext(*t, k as u8, 1), term::konst(k as u64, w as u8), acc); } ret!(mk(acc)) } V::W(v) => ret!(V::W(Box::new(v.trailing_zeros() as u128))), _ => ret!(Z) } }
            X::Ctlz(w) => { match &a[0] { V::C(v) => ret!(V::C(if *v == 0 { w as u64 } else { v.leading_zeros() as u64 - (64 - w as u64) })), V::T(t) => { let mut acc = term::konst(w as u64, w as u8); for k in 0..w { acc = term::ite(term::ext(*t, k as u8, 1), term::konst((w - 1 - k) as u64, w as u8), acc); } ret!(mk(acc)) } V::W(v) => ret!(V::W(Box::new(v.leading_zeros() as u128))), _ => ret!(Z) } }
            X::Ctpop(w) => { match &a[0] { V::C(v) => ret!(V::C(v.count_ones() as u64)), V::T(t) => { let mut acc = term::konst(0, w as u8); for k in 0..w { acc = term::bin(term::Op::Add, acc, term::zx(term::ext(*t, k as u8, 1), w as u8)); } ret!(mk(acc)) } _ => ret!(Z) } }
            X::Bswap(w) => { match &a[0] { V::C(v) => ret!(V::C(v.swap_bytes() >> (64 - w))), V::T(t) => { let mut acc: T = 0; for k in 0..w / 8 { let b = term::ext(*t, 8 * k as u8, 8); acc = if acc == 0 { b } else { term::cat(acc, b) }; } ret!(mk(acc)) } _ => ret!(Z) } }
            X::Bitrev(w) => { let v = c!(0); ret!(V::C(v.reverse_bits() >> (64 - w))) }
            X::Ucmp(rw, w) | X::Scmp(rw, w) => { let (p, q) = (tm(&a[0], w), tm(&a[1], w)); #[allow(unused_imports)] use term::{bin, ult, eq, not, and, or, ite, zx, ext, cat, konst, tru, fls, Op}; let l = if matches!(x, X::Ucmp(..)) { ult(p, q) } else { bin(Op::Slt, p, q) }; ret!(mk(ite(eq(p, q), konst(0, rw as u8), ite(l, konst(term::mask(rw as u8), rw as u8), konst(1, rw as u8))))) }
            X::Abs(w) => { let t = tm(&a[0], w); #[allow(unused_imports)] use term::{bin, ult, eq, not, and, or, ite, zx, ext, cat, konst, tru, fls, Op}; ret!(mk(ite(bin(Op::Slt, t, konst(0, w as u8)), bin(Op::Sub, konst(0, w as u8), t), t))) }
            X::Fabs => { let v = c!(0); ret!(V::C(v & !(1 << 63))) }
            X::Ceil => { let v = c!(0); ret!(V::C(f64::from_bits(v).ceil().to_bits())) }
            X::Floor => { let v = c!(0); ret!(V::C(f64::from_bits(v).floor().to_bits())) }
            X::FtoUSat(w) => { let v = f64::from_bits(c!(0)); ret!(V::C(if w == 64 { v as u64 } else { (v.max(0.0).min(mask(w) as f64)) as u64 })) }
            X::FtoSSat(w) => { let v = f64::from_bits(c!(0)); if w != 64 { return Err(Er::Unsup("fptosi.sat".into())); } ret!(V::C(v as i64 as u64)) }
            // ---- verification intrinsics ----
            X::SU8 => { // (label, len, lo, hi, kind) -> u8
                let l = self.label(st, &a[0], &a[1]); let (lo, hi, kind) = (c!(2), c!(3), c!(4));
                let name = self.fresh(st, &l);
                if lo == hi { ret!(V::C(lo)) }
                let t = term::var(&name, 8, lo, hi, kind as u8);
                if let term::N::Var(id) = term::node(t) { st.vars.push(*id); }
                ret!(V::T(t))
            }
            X::SConc => { let v = self.conc(st, &a[0])?; ret!(V::C(v)) }
            X::SAssume => { let t = bool_arg!(0);
                match as_const(t) { Some(1) => ret!(Z), Some(_) => { self.rep.pruned += 1; return Ok(Flow::Die); } None => {} }
                let b = term::Eval::new(&st.model).ev(t) == 1;
                if !b { match self.sv.check(&st.pc, t) { Res::Sat(m) => { let mut x = (*st.model).clone(); x.extend(m); st.model = Rc::new(x); } Res::Unsat => { self.rep.pruned += 1; return Ok(Flow::Die); } Res::Unknown => return Err(Er::Unsup("solver gave up".into())) } }
                Self::assume(st, t); ret!(Z) }
            X::SCheck => { let t = bool_arg!(0);
                match as_const(t) {
                    Some(1) => { self.rep.checks_conc += 1; ret!(Z) }
                    Some(_) => { self.rep.checks_conc += 1; let msg = self.label(st, &a[1], &a[2]); let s = format!("{}{}", msg, if st.last.is_empty() { String::new() } else { format!(" [{}]", st.last) }); self.violation(st, s); self.finish(st, "violation"); return Ok(Flow::Die); }
                    None => {
                        self.rep.checks_sym += 1;
                        match self.sv.check(&st.pc, term::not(t)) {
                            Res::Unsat => {}
                            Res::Unknown => return Err(Er::Unsup("solver gave up".into())),
                            Res::Sat(m) => {
                                let mut bad = st.clone(); let mut x = (*st.model).clone(); x.extend(m); bad.model = Rc::new(x);
                                let msg = self.label(&bad, &a[1], &a[2]); self.violation(&bad, msg); self.finish(&bad, "violation");
                                let b = term::Eval::new(&st.model).ev(t) == 1;
                                if !b { match self.sv.check(&st.pc, t) { Res::Sat(m) => { let mut x = (*st.model).clone(); x.extend(m); st.model = Rc::new(x); } _ => return Ok(Flow::Die) } }
                                Self::assume(st, t);
                            }
                        }
                        ret!(Z)
                    }
                } }
            X::SFeas => { let t = bool_arg!(0); let r = match as_const(t) { Some(c) => c == 1, None => !matches!(self.sv.check(&st.pc, t), Res::Unsat) }; ret!(V::C(r as u64)) }
            X::SCover => { let l = self.label(st, &a[0], &a[1]); *self.rep.covers.entry(l).or_default() += 1; ret!(Z) }
            X::SNote => { let l = self.label(st, &a[0], &a[1]); if st.notes.len() < 40 { st.notes.push(l); } ret!(Z) }
            X::SOut => { let l = self.label(st, &a[0], &a[1]); if self.verbose { eprintln!("{}", l); } ret!(Z) }
            X::SParam => { let k = c!(0) as usize; ret!(V::C(self.params.get(k).copied().unwrap_or(0))) }
            // every caught call is a process of its own, which may exit
            X::SCatch => { for (i, g) in self.m.globals.iter().enumerate() { if g.name.contains("EXITING_THREAD_ID") { let _ = st.mem.store(gaddr(i as u32), 8, &V::C(0)); } } let (f, p) = (c!(0), c!(1)); let fi = ((f & !FUNC_BASE) >> 4) as u32; adv!(); let cur = st.cur; Self::push_frame(self.m, &mut st.th[cur], &mut st.mem, fi, vec![V::C(p)], d); st.th[cur].frames.last_mut().unwrap().catch = true; self.seen[fi as usize] = true;
                st.limit = st.steps + self.run_limit; st.preempt = 0; st.last.clear(); Ok(Flow::Reload) }
            X::SThrow => { let code = c!(0); Ok(match self.throw(st, code) { Flow::Die => { self.rep.errors.push("throw outside a run".into()); Flow::Die } f => f }) }
            X::SArgs => { let f = match self.argv_init { Some(f) => f, None => return Err(Er::Unsup("no argv initialiser".into())) }; let av = vec![a[0].clone(), a[1].clone(), a[2].clone()]; adv!(); let cur = st.cur; Self::push_frame(self.m, &mut st.th[cur], &mut st.mem, f, av, NOREG); Ok(Flow::Reload) }
            X::STid => ret!(V::C(st.cur as u64)),
            X::SSched => { let on = c!(0); st.sched = on == 1; st.preempt = 0; ret!(Z) }
            X::SSpawn => { let (f, p) = (c!(0), c!(1)); let fi = ((f & !FUNC_BASE) >> 4) as u32; let t = self.spawn(st, fi, vec![V::C(p)]); self.seen[fi as usize] = true; Self::progress(st);
                if d != NOREG { let th = &mut st.th[st.cur]; let b = th.frames.last().unwrap().base as usize; th.regs[b + d as usize] = V::C(t as u64); } adv!(); Ok(Flow::Reload) }
            X::SJoin => { let t = c!(0) as usize; if t >= st.th.len() || st.th[t].status == Status::Done { ret!(Z) } let cur = st.cur; adv!(); st.th[cur].status = Status::Join(t as u32); self.pick(st, true) }
            X::SYield => { let k = c!(0); adv!(); let cur = st.cur; match k { 1 => self.spin(st), 2 => { Self::progress(st); st.th[cur].idle = 0; if st.sched { self.pick(st, false) } else { Ok(Flow::Reload) } } _ => { st.th[cur].idle += 1; if st.th[cur].idle > IDLE { st.th[cur].idle = 0; self.spin(st) } else if st.sched { self.pick(st, false) } else { Ok(Flow::Reload) } } } }
            X::SWaitC => { let k = c!(0); adv!(); let cur = st.cur; st.th[cur].status = Status::Cond(k); self.pick(st, true) }
            X::SNotify => { let k = c!(0); for t in st.th.iter_mut() { if t.status == Status::Cond(k) { t.status = Status::Run; } } Self::progress(st); ret!(Z) }
            X::Unknown => Err(Er::Unsup(format!("external function {}", self.m.exts[e as usize]))),
        }
    }
    /// A thread that sleeps or spins gives way until some other thread makes progress.
    fn spin(&mut self, st: &mut State) -> R<Flow> {
        let cur = st.cur; let ep = st.epoch + 1;
        { let t = &mut st.th[cur]; if t.spun == ep { t.nspin += 1; } else { t.spun = ep; t.nspin = 1; } t.status = Status::Sleep; }
        let stuck = |t: &Thread| match t.status { Status::Done => true, Status::Run => false, Status::Sleep => t.spun == ep && t.nspin >= 4, _ => true };
        if st.th.len() > 1 && st.th.iter().all(stuck) { st.last = "no thread can make progress".into(); return Ok(self.throw(st, 1004)); }
        self.pick(st, true)
    }
    fn errno(&self, st: &mut State) -> u64 { let cur = st.cur; let k = 0u32; let id = match st.th[cur].tls.get(&k) { Some(&i) => i, None => { let id = st.mem.alloc(vec![0; 8], false); st.th[cur].tls.insert(k, id); id } }; (id as u64) << 32 }
    fn set_errno(&self, st: &mut State, v: u64) -> R<()> { let p = self.errno(st); st.mem.store(p, 4, &V::C(v)) }
    pub fn funcs_seen(&self) -> Vec<u32> { (0..self.seen.len() as u32).filter(|&i| self.seen[i as usize]).collect() }
    pub fn uniq(v: &mut Vec<String>) { let mut s = HashSet::new(); v.retain(|x| s.insert(x.clone())); }
}
fn insv(a: &V, idx: &[u32], v: V) -> V {
    if idx.is_empty() { return v; }
    match a { V::A(x) => { let mut x = x.clone(); let k = idx[0] as usize; let e = insv(&x[k], &idx[1..], v); Rc::make_mut(&mut x)[k] = e; V::A(x) } _ => panic!("insertvalue") }
}
fn show(v: &V) -> String { match v { V::C(c) => format!("{:x}", c), V::T(_) => "sym".into(), V::W(w) => format!("{:x}", **w), V::A(a) => format!("{{{}}}", a.iter().map(show).collect::<Vec<_>>().join(",")) } }
