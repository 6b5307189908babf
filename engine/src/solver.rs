//! Z3 back end (hand-written FFI to libz3), independence slicing, query and model caches.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {}", e); std::process::exit(3); }

pub type Model = HashMap<u32, u64>;
pub enum Res { Sat(Model), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub secs: f64, pub max_ms: f64 }

pub struct Solver { cx: P, s: P, bools: HashMap<T, P>, bvs: HashMap<T, P>, cache: HashMap<Vec<T>, Option<Model>>, simp: HashMap<T, T>, ranged: HashSet<u32>, pub st: Stats }

impl Solver {
    pub fn new() -> Self { unsafe {
        let cfg = Z3_mk_config();
        let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
        Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
        let cx = Z3_mk_context(cfg);
        Z3_set_error_handler(cx, Some(on_err));
        let s = Z3_mk_simple_solver(cx); Z3_solver_inc_ref(cx, s);
        let p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, t.as_ptr()), 20000);
        Z3_solver_set_params(cx, s, p);
        Solver { cx, s, bools: HashMap::new(), bvs: HashMap::new(), cache: HashMap::new(), simp: HashMap::new(), ranged: HashSet::new(), st: Stats::default() }
    } }
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

    fn bl(&mut self, t: T) -> P { unsafe {
        debug_assert_eq!(w(t), 1);
        if let Some(&p) = self.bools.get(&t) { return p; }
        let c = self.cx;
        let r = match node(t).clone() {
            N::Const(1) => Z3_mk_true(c), N::Const(_) => Z3_mk_false(c),
            N::Bin(Op::And, a, b) => { let x = [self.bl(a), self.bl(b)]; Z3_mk_and(c, 2, x.as_ptr()) }
            N::Bin(Op::Or, a, b) => { let x = [self.bl(a), self.bl(b)]; Z3_mk_or(c, 2, x.as_ptr()) }
            N::Bin(Op::Xor, a, b) if as_const(b) == Some(1) => { let x = self.bl(a); Z3_mk_not(c, x) }
            N::Bin(Op::Xor, a, b) => { let (x, y) = (self.bl(a), self.bl(b)); Z3_mk_xor(c, x, y) }
            N::Bin(Op::Eq, a, b) => { if w(a) == 1 { let (x, y) = (self.bl(a), self.bl(b)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_eq(c, x, y) } }
            N::Bin(Op::Ult, a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_bvult(c, x, y) }
            N::Bin(Op::Slt, a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_bvslt(c, x, y) }
            N::Ite(k, a, b) => { let (k, x, y) = (self.bl(k), self.bl(a), self.bl(b)); Z3_mk_ite(c, k, x, y) }
            _ => { let x = self.bv(t); let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_mk_eq(c, x, one) }
        };
        self.bools.insert(t, r); r
    } }
    fn bv(&mut self, t: T) -> P { unsafe {
        if let Some(&p) = self.bvs.get(&t) { return p; }
        let c = self.cx;
        let wd = w(t);
        let sort = Z3_mk_bv_sort(c, wd as c_uint);
        let r = match node(t).clone() {
            N::Const(v) => Z3_mk_unsigned_int64(c, v, sort),
            N::Var(v) => { let s = CString::new(format!("v{}", v)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort) }
            N::Bin(op, a, b) => match op {
                Op::Eq | Op::Ult | Op::Slt => { let x = self.bl(t); let s1 = Z3_mk_bv_sort(c, 1); Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1)) }
                _ => { let (x, y) = (self.bv(a), self.bv(b)); match op {
                    Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y), _ => unreachable!() } }
            },
            N::Ite(k, a, b) => { let (k, x, y) = (self.bl(k), self.bv(a), self.bv(b)); Z3_mk_ite(c, k, x, y) }
            N::Ext(s, a) => { let x = self.bv(a); Z3_mk_extract(c, (s + wd - 1) as c_uint, s as c_uint, x) }
            N::Cat(h, l) => { let (x, y) = (self.bv(h), self.bv(l)); Z3_mk_concat(c, x, y) }
            N::Zx(a) => { let x = self.bv(a); Z3_mk_zero_ext(c, (wd - w(a)) as c_uint, x) }
            N::Sx(a) => { let x = self.bv(a); Z3_mk_sign_ext(c, (wd - w(a)) as c_uint, x) }
        };
        self.bvs.insert(t, r); r
    } }
    /// Declares the variable's domain at the solver's base level.
    fn declare(&mut self, v: u32) { unsafe {
        if !self.ranged.insert(v) { return; }
        let vi = ar().vars[v as usize].clone();
        let x = self.bv(vi.term);
        let sort = Z3_mk_bv_sort(self.cx, vi.w as c_uint);
        if vi.lo > 0 { let a = Z3_mk_bvule(self.cx, Z3_mk_unsigned_int64(self.cx, vi.lo, sort), x); Z3_solver_assert(self.cx, self.s, a); }
        if vi.hi < mask(vi.w) { let a = Z3_mk_bvule(self.cx, x, Z3_mk_unsigned_int64(self.cx, vi.hi, sort)); Z3_solver_assert(self.cx, self.s, a); }
    } }

    /// A constraint over one variable with a small domain is rewritten, exactly, into range membership of that variable
    /// (its truth value is computed at every point of the domain); keeps hash arithmetic away from the bit-blaster.
    fn simplify(&mut self, t: T) -> T {
        let vs = vars_of(t);
        if vs.len() != 1 { return t; }
        if let Some(&r) = self.simp.get(&t) { return r; }
        let v = vs[0]; let vi = ar().vars[v as usize].clone();
        if vi.hi - vi.lo > 255 { return t; }
        let (mut r, mut m, mut start) = (fls(), Model::new(), None);
        for x in vi.lo..=vi.hi + 1 {
            let on = x <= vi.hi && { m.insert(v, x); Eval::new(&m).ev(t) == 1 };
            match (on, start) {
                (true, None) => start = Some(x),
                (false, Some(s)) => {
                    let k = |c: u64| konst(c, vi.w);
                    let piece = if s + 1 == x { eq(vi.term, k(s)) } else {
                        let lo = if s == vi.lo { tru() } else { not(ult(vi.term, k(s))) };
                        let hi = if x == vi.hi + 1 { tru() } else { ult(vi.term, k(x)) };
                        and(lo, hi) };
                    r = or(r, piece); start = None;
                }
                _ => {}
            }
        }
        self.simp.insert(t, r); r
    }

    /// Is pc ∧ cond satisfiable? Only the constraints sharing variables (transitively) with `cond` are sent.
    pub fn check(&mut self, pc: &[T], cond: T) -> Res {
        if let Some(c) = as_const(cond) { return if c == 1 { Res::Sat(Model::new()) } else { Res::Unsat }; }
        let mut vs: HashSet<u32> = vars_of(cond).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut q = vec![cond];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let pv = vars_of(p);
                if pv.iter().any(|v| vs.contains(v)) { used[i] = true; q.push(p); for &v in pv { if vs.insert(v) { ch = true; } } }
            }
            if !ch { break; }
        }
        q.sort_unstable(); q.dedup();
        if let Some(r) = self.cache.get(&q) { self.st.cached += 1; return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat }; }
        let t0 = Instant::now();
        let vars: Vec<u32> = vs.into_iter().collect();
        for &v in &vars { self.declare(v); }
        let r = unsafe {
            let asserts: Vec<P> = q.iter().map(|&t| { let t = self.simplify(t); self.bl(t) }).collect();
            Z3_solver_push(self.cx, self.s);
            for a in asserts { Z3_solver_assert(self.cx, self.s, a); }
            let res = Z3_solver_check(self.cx, self.s);
            let out = match res {
                1 => {
                    let m = Z3_solver_get_model(self.cx, self.s); Z3_model_inc_ref(self.cx, m);
                    let mut mm = Model::new();
                    for &v in &vars { let x = self.bv(ar().vars[v as usize].term); let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.cx, m, x, true, &mut o) { let mut u = 0u64; Z3_get_numeral_uint64(self.cx, o, &mut u); mm.insert(v, u); } }
                    Z3_model_dec_ref(self.cx, m);
                    Res::Sat(mm)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.cx, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > 0.2 && std::env::var("SYMEX_SLOW").is_ok() { eprintln!("SLOW {:.0}ms n={} vars={} {}", dt * 1e3, q.len(), vars.len(), q.iter().map(|&t| crate::term::show(t, 12)).collect::<Vec<_>>().join("\n   ")); }
        self.st.queries += 1; self.st.secs += dt; if dt * 1e3 > self.st.max_ms { self.st.max_ms = dt * 1e3; }
        match &r { Res::Sat(m) => { self.st.sat += 1; self.cache.insert(q, Some(m.clone())); } Res::Unsat => { self.st.unsat += 1; self.cache.insert(q, None); } Res::Unknown => { self.st.unknown += 1; } }
        r
    }
}
