//! Hash-consed bit-vector terms (width 1..=64) with unsigned-range and known-bits analysis.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u64),
    Var(u32),
    Bin(Op, T, T),
    Ite(T, T, T),
    Ext(u8, T),    // extract starting at bit
    Cat(T, T),     // high, low
    Zx(T),
    Sx(T),
}

#[derive(Clone)]
pub struct Info { pub n: N, pub w: u8, pub lo: u64, pub hi: u64, pub k0: u64, pub k1: u64, pub vs: u32 }

#[derive(Clone)]
pub struct VarInfo { pub name: String, pub w: u8, pub lo: u64, pub hi: u64, pub kind: u8, pub term: T }

pub struct Arena {
    pub t: Vec<Info>,
    map: HashMap<(N, u8), T>,
    pub vars: Vec<VarInfo>,
    pub var_by_name: HashMap<String, u32>,
    pub sets: Vec<Vec<u32>>,
    set_map: HashMap<Vec<u32>, u32>,
    union_memo: HashMap<(u32, u32), u32>,
}

static mut AR: *mut Arena = std::ptr::null_mut();
pub fn ar() -> &'static mut Arena { unsafe { &mut *AR } }
pub fn init() {
    let a = Box::new(Arena { t: vec![], map: HashMap::new(), vars: vec![], var_by_name: HashMap::new(), sets: vec![vec![]], set_map: HashMap::new(), union_memo: HashMap::new() });
    unsafe { AR = Box::into_raw(a); }
    ar().set_map.insert(vec![], 0);
    // slot 0 is reserved (0 in symbolic byte maps means "concrete")
    ar().t.push(Info { n: N::Const(0), w: 1, lo: 0, hi: 0, k0: 1, k1: 0, vs: 0 });
}

#[inline] pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sext(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Arena {
    fn set_of(&mut self, s: Vec<u32>) -> u32 {
        if let Some(&i) = self.set_map.get(&s) { return i; }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone()); self.set_map.insert(s, i); i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_memo.get(&key) { return r; }
        let mut s = self.sets[a as usize].clone();
        for &x in &self.sets[b as usize] { if let Err(p) = s.binary_search(&x) { s.insert(p, x); } }
        let r = self.set_of(s);
        self.union_memo.insert(key, r); r
    }
    fn mk(&mut self, n: N, w: u8) -> T {
        if let Some(&t) = self.map.get(&(n.clone(), w)) { return t; }
        let m = mask(w);
        let g = |a: &Arena, t: T| a.t[t as usize].clone();
        let (mut lo, mut hi, mut k0, mut k1) = (0u64, m, 0u64, 0u64);
        let vs;
        match &n {
            N::Const(c) => { lo = *c; hi = *c; k1 = *c; k0 = !*c & m; vs = 0; }
            N::Var(v) => { let vi = &self.vars[*v as usize]; lo = vi.lo; hi = vi.hi; vs = self.set_of(vec![*v]); }
            N::Bin(op, a, b) => {
                let (a, b) = (g(self, *a), g(self, *b));
                vs = self.union(a.vs, b.vs);
                match op {
                    Op::And => { k1 = a.k1 & b.k1; k0 = a.k0 | b.k0; hi = a.hi.min(b.hi); }
                    Op::Or => { k1 = a.k1 | b.k1; k0 = a.k0 & b.k0; lo = a.lo.max(b.lo); }
                    Op::Xor => { k1 = (a.k1 & b.k0) | (a.k0 & b.k1); k0 = (a.k0 & b.k0) | (a.k1 & b.k1); }
                    Op::Add => { let h = a.hi as u128 + b.hi as u128; if h <= m as u128 { lo = a.lo + b.lo; hi = h as u64; }
                        else if a.lo as u128 + b.lo as u128 > m as u128 && h <= 2 * m as u128 + 1 { lo = a.lo.wrapping_add(b.lo) & m; hi = a.hi.wrapping_add(b.hi) & m; } }
                    Op::Sub => { if a.lo >= b.hi { lo = a.lo - b.hi; hi = a.hi - b.lo; }
                        else if a.hi < b.lo { lo = a.lo.wrapping_sub(b.hi) & m; hi = a.hi.wrapping_sub(b.lo) & m; } }
                    Op::Mul => { let h = a.hi as u128 * b.hi as u128; if h <= m as u128 { lo = a.lo * b.lo; hi = h as u64; } }
                    Op::UDiv => { if b.lo > 0 { lo = a.lo / b.hi; hi = a.hi / b.lo; } }
                    Op::URem => { if b.lo > 0 { hi = a.hi.min(b.hi - 1); } }
                    Op::Shl => { if b.lo == b.hi && b.lo < w as u64 { let s = b.lo; k1 = (a.k1 << s) & m; k0 = ((a.k0 << s) | ((1u64 << s) - 1)) & m; if a.hi <= (m >> s) { lo = a.lo << s; hi = a.hi << s; } } }
                    Op::LShr => { if b.lo == b.hi && b.lo < w as u64 { let s = b.lo; k1 = a.k1 >> s; k0 = (a.k0 >> s) | (m & !(m >> s)); lo = a.lo >> s; hi = a.hi >> s; } }
                    Op::Eq => { if a.hi < b.lo || b.hi < a.lo || (a.k1 & b.k0) != 0 || (a.k0 & b.k1) != 0 { hi = 0; } }
                    Op::Ult => { if a.hi < b.lo { lo = 1; } else if a.lo >= b.hi { hi = 0; } }
                    Op::Slt => {
                        let sb = 1u64 << (a.w - 1);
                        let an = a.hi < sb; let bn = b.hi < sb; let aneg = a.lo >= sb; let bneg = b.lo >= sb;
                        if (an && bn) || (aneg && bneg) { if a.hi < b.lo { lo = 1; } else if a.lo >= b.hi { hi = 0; } }
                        else if aneg && bn { lo = 1; } else if an && bneg { hi = 0; }
                    }
                    _ => {}
                }
            }
            N::Ite(c, a, b) => {
                let cv = g(self, *c).vs; let (a, b) = (g(self, *a), g(self, *b));
                let u = self.union(a.vs, b.vs); vs = self.union(cv, u);
                lo = a.lo.min(b.lo); hi = a.hi.max(b.hi); k0 = a.k0 & b.k0; k1 = a.k1 & b.k1;
            }
            N::Ext(s, a) => { let a = g(self, *a); vs = a.vs; k0 = (a.k0 >> s) & m; k1 = (a.k1 >> s) & m;
                if a.hi >> s <= m { lo = a.lo >> s; hi = a.hi >> s; } }
            N::Cat(h, l) => { let (h, l) = (g(self, *h), g(self, *l)); vs = self.union(h.vs, l.vs);
                let s = l.w; k0 = (h.k0 << s) | l.k0; k1 = (h.k1 << s) | l.k1; lo = (h.lo << s) | l.lo; hi = (h.hi << s) | l.hi; }
            N::Zx(a) => { let a = g(self, *a); vs = a.vs; lo = a.lo; hi = a.hi; k1 = a.k1; k0 = a.k0 | (m & !mask(a.w)); }
            N::Sx(a) => { let a = g(self, *a); vs = a.vs; let sb = 1u64 << (a.w - 1); let up = m & !mask(a.w);
                if a.hi < sb { lo = a.lo; hi = a.hi; k0 = a.k0 | up; k1 = a.k1; }
                else if a.lo >= sb { lo = a.lo | up; hi = a.hi | up; k1 = a.k1 | up; k0 = a.k0; }
                else { k0 = a.k0 & mask(a.w - 1); k1 = a.k1 & mask(a.w - 1); } }
        }
        // combine the two abstractions
        lo = lo.max(k1); hi = hi.min(m & !k0);
        if lo <= hi {
            let diff = lo ^ hi;
            let common = if diff == 0 { m } else { let b = 64 - diff.leading_zeros(); if b >= 64 { 0 } else { m & !((1u64 << b) - 1) } };
            k1 |= lo & common; k0 |= !lo & common & m;
        }
        let t = self.t.len() as T;
        self.t.push(Info { n: n.clone(), w, lo, hi, k0, k1, vs });
        self.map.insert((n, w), t);
        if lo == hi && !matches!(self.t[t as usize].n, N::Const(_)) {
            let c = self.mk(N::Const(lo), w);
            let n = self.t[t as usize].n.clone();
            self.map.insert((n, w), c);
            return c;
        }
        t
    }
}

pub fn w(t: T) -> u8 { ar().t[t as usize].w }
pub fn konst(v: u64, w: u8) -> T { ar().mk(N::Const(v & mask(w)), w) }
pub fn as_const(t: T) -> Option<u64> { if let N::Const(c) = ar().t[t as usize].n { Some(c) } else { None } }
pub fn node(t: T) -> &'static N { &ar().t[t as usize].n }
pub fn info(t: T) -> &'static Info { &ar().t[t as usize] }
pub fn vars_of(t: T) -> &'static Vec<u32> { let a = ar(); &a.sets[a.t[t as usize].vs as usize] }
pub fn tru() -> T { konst(1, 1) }
pub fn fls() -> T { konst(0, 1) }

pub fn var(name: &str, w: u8, lo: u64, hi: u64, kind: u8) -> T {
    let a = ar();
    if let Some(&v) = a.var_by_name.get(name) {
        let vi = &a.vars[v as usize];
        if vi.w == w && vi.lo == lo && vi.hi == hi { return vi.term; }
        // same label, other domain on another path: distinct variable
        let n2 = format!("{}~{}_{}", name, lo, hi);
        if let Some(&v) = a.var_by_name.get(&n2) { return a.vars[v as usize].term; }
        return mkvar(n2, w, lo, hi, kind);
    }
    mkvar(name.to_string(), w, lo, hi, kind)
}
fn mkvar(name: String, w: u8, lo: u64, hi: u64, kind: u8) -> T {
    let a = ar();
    let id = a.vars.len() as u32;
    a.vars.push(VarInfo { name: name.clone(), w, lo, hi, kind, term: 0 });
    a.var_by_name.insert(name, id);
    let t = a.mk(N::Var(id), w);
    a.vars[id as usize].term = t;
    t
}

pub fn fold(op: Op, a: u64, b: u64, w: u8) -> u64 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u64 } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { a << b },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(w as u64 - 1); (sext(a, w) >> s) as u64 }
        Op::Eq => return (a == b) as u64, Op::Ult => return (a < b) as u64, Op::Slt => return (sext(a, w) < sext(b, w)) as u64,
    }) & m
}

pub fn not(a: T) -> T { bin(Op::Xor, a, konst(1, 1)) }
pub fn and(a: T, b: T) -> T { bin(Op::And, a, b) }
pub fn or(a: T, b: T) -> T { bin(Op::Or, a, b) }
pub fn eq(a: T, b: T) -> T { bin(Op::Eq, a, b) }
pub fn ult(a: T, b: T) -> T { bin(Op::Ult, a, b) }

pub fn bin(op: Op, mut a: T, mut b: T) -> T {
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{:?}", op);
    let rw = match op { Op::Eq | Op::Ult | Op::Slt => 1, _ => wd };
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return konst(fold(op, x, y, wd), rw); }
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    }
    let m = mask(wd);
    let ca = as_const(a); let cb = as_const(b);
    match op {
        Op::Add => {
            if cb == Some(0) { return a; }
            if let (Some(c), N::Bin(Op::Add, x, y)) = (cb, node(a)) { if let Some(d) = as_const(*y) { return bin(Op::Add, *x, konst(c.wrapping_add(d), wd)); } }
            if let (Some(c), N::Ite(k, x, y)) = (cb, node(a)) { if as_const(*x).is_some() && as_const(*y).is_some() { return ite(*k, bin(Op::Add, *x, konst(c, wd)), bin(Op::Add, *y, konst(c, wd))); } }
        }
        Op::Sub => { if cb == Some(0) { return a; } if a == b { return konst(0, wd); } if let Some(c) = cb { return bin(Op::Add, a, konst(c.wrapping_neg(), wd)); }
            // (x + c) - x
            if let N::Bin(Op::Add, x, y) = node(a) { if *x == b { return *y; } if *y == b { return *x; } }
        }
        Op::Mul => { if cb == Some(0) { return konst(0, wd); } if cb == Some(1) { return a; }
            if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::Shl, a, konst(c.trailing_zeros() as u64, wd)); } } }
        Op::UDiv => { if cb == Some(1) { return a; } if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::LShr, a, konst(c.trailing_zeros() as u64, wd)); } } }
        Op::URem => { if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::And, a, konst(c - 1, wd)); } } }
        Op::And => {
            if cb == Some(0) { return b; } if cb == Some(m) || a == b { return a; }
            if let Some(c) = cb {
                let i = info(a);
                if (i.k0 | c) & m == m { return a; }
                if c == (c + 1).next_power_of_two() - 1 && c != m { // low mask -> zext(extract)
                    let lw = (64 - c.leading_zeros()) as u8; return zx(ext(a, 0, lw), wd);
                }
                if let N::Bin(Op::And, x, y) = node(a) { if let Some(d) = as_const(*y) { return bin(Op::And, *x, konst(c & d, wd)); } }
            }
            if wd == 1 { if not(a) == b { return konst(0, 1); } if let N::Bin(Op::And, x, y) = node(a) { if *x == b || *y == b { return a; } } if let N::Bin(Op::And, x, y) = node(b) { if *x == a || *y == a { return b; } } }
        }
        Op::Or => { if cb == Some(0) || a == b { return a; } if cb == Some(m) { return b; }
            if let Some(c) = cb { let i = info(a); if (i.k1 & c) == c { return a; } }
            if wd == 1 && not(a) == b { return konst(1, 1); }
            // disjoint halves -> concat
            if wd > 1 { if let Some(r) = or_to_cat(a, b, wd) { return r; } }
        }
        Op::Xor => { if cb == Some(0) { return a; } if a == b { return konst(0, wd); }
            if let (Some(c), N::Bin(Op::Xor, x, y)) = (cb, node(a)) { if let Some(d) = as_const(*y) { return bin(Op::Xor, *x, konst(c ^ d, wd)); } }
            if wd == 1 && cb == Some(1) { if let N::Ite(c, x, y) = node(a) { if as_const(*x).is_some() || as_const(*y).is_some() { return ite(*c, not(*x), not(*y)); } } }
        }
        Op::Shl => { if cb == Some(0) { return a; } if let Some(c) = cb { if c >= wd as u64 { return konst(0, wd); }
            return cat(ext(a, 0, wd - c as u8), konst(0, c as u8)); } }
        Op::LShr => { if cb == Some(0) { return a; } if let Some(c) = cb { if c >= wd as u64 { return konst(0, wd); }
            return zx(ext(a, c as u8, wd - c as u8), wd); } }
        Op::AShr => { if cb == Some(0) { return a; } if let Some(c) = cb { let c = c.min(wd as u64 - 1); if info(a).hi < 1u64 << (wd - 1) { return bin(Op::LShr, a, konst(c, wd)); }
            return sx(ext(a, c as u8, wd - c as u8), wd); } }
        Op::Eq => {
            if a == b { return konst(1, 1); }
            if wd == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return not(a); } }
            if let Some(c) = cb {
                match node(a) {
                    N::Zx(x) => { let xw = w(*x); if c > mask(xw) { return konst(0, 1); } return eq(*x, konst(c, xw)); }
                    N::Sx(x) => { let xw = w(*x); if (sext(c & mask(xw), xw) as u64) & m != c { return konst(0, 1); } return eq(*x, konst(c, xw)); }
                    N::Cat(h, l) => { let lw = w(*l); return and(eq(*h, konst(c >> lw, w(*h))), eq(*l, konst(c, lw))); }
                    N::Bin(Op::Add, x, y) => { if let Some(d) = as_const(*y) { return eq(*x, konst(c.wrapping_sub(d), wd)); } }
                    N::Bin(Op::Xor, x, y) => { if let Some(d) = as_const(*y) { return eq(*x, konst(c ^ d, wd)); } }
                    N::Bin(Op::Sub, x, y) if c == 0 => { return eq(*x, *y); }
                    N::Bin(Op::Or, x, y) if c == 0 => { return and(eq(*x, konst(0, wd)), eq(*y, konst(0, wd))); }
                    N::Ite(k, x, y) => {
                        if as_const(*x).is_some() || as_const(*y).is_some() {
                            let bb = konst(c, wd); let (k, x, y) = (*k, *x, *y);
                            return ite(k, eq(x, bb), eq(y, bb));
                        }
                    }
                    _ => {}
                }
            } else {
                match (node(a), node(b)) {
                    (N::Zx(x), N::Zx(y)) if w(*x) == w(*y) => return eq(*x, *y),
                    (N::Sx(x), N::Sx(y)) if w(*x) == w(*y) => return eq(*x, *y),
                    (N::Cat(h1, l1), N::Cat(h2, l2)) if w(*l1) == w(*l2) => { return and(eq(*h1, *h2), eq(*l1, *l2)); }
                    _ => {}
                }
            }
        }
        Op::Ult => {
            if a == b { return konst(0, 1); }
            if let (Some(c), N::Zx(x)) = (cb, node(a)) { let xw = w(*x); if c > mask(xw) { return konst(1, 1); } return ult(*x, konst(c, xw)); }
            if let (Some(c), N::Zx(x)) = (ca, node(b)) { let xw = w(*x); if c > mask(xw) { return konst(0, 1); } return ult(konst(c, xw), *x); }
            if let (N::Zx(x), N::Zx(y)) = (node(a), node(b)) { if w(*x) == w(*y) { return ult(*x, *y); } }
            if cb == Some(1) { return eq(a, konst(0, wd)); }
            if ca == Some(0) { return not(eq(b, konst(0, wd))); }
            if let (Some(c), N::Ite(k, x, y)) = (cb, node(a)) { if as_const(*x).is_some() || as_const(*y).is_some() { return ite(*k, ult(*x, konst(c, wd)), ult(*y, konst(c, wd))); } }
        }
        Op::Slt => {
            if a == b { return konst(0, 1); }
            let sb = 1u64 << (wd - 1);
            if info(a).hi < sb && info(b).hi < sb { return ult(a, b); }
            if cb == Some(0) { return ext(a, wd - 1, 1); }
            if ca == Some(m) { return not(ext(b, wd - 1, 1)); }
            if let (Some(c), N::Ite(k, x, y)) = (cb, node(a)) { if as_const(*x).is_some() || as_const(*y).is_some() { return ite(*k, bin(Op::Slt, *x, konst(c, wd)), bin(Op::Slt, *y, konst(c, wd))); } }
            if let (Some(c), N::Sx(x)) = (cb, node(a)) { let xw = w(*x); let sc = sext(c, wd); if sext(sc as u64 & mask(xw), xw) == sc { return bin(Op::Slt, *x, konst(c, xw)); } }
        }
        _ => {}
    }
    ar().mk(N::Bin(op, a, b), rw)
}

/// or(a,b) where the possibly-one bits of a and b are separated by a bit position.
fn or_to_cat(a: T, b: T, wd: u8) -> Option<T> {
    let m = mask(wd);
    let (ia, ib) = (info(a), info(b));
    let (pa, pb) = (m & !ia.k0, m & !ib.k0);
    if pa == 0 { return Some(b); }
    if pb == 0 { return Some(a); }
    if pa & pb != 0 { return None; }
    let (hi, lo, phi, plo) = if pa > pb { (a, b, pa, pb) } else { (b, a, pb, pa) };
    let s = phi.trailing_zeros() as u8;
    let top = 64 - plo.leading_zeros() as u8;
    if top <= s { return Some(cat(ext(hi, s, wd - s), ext(lo, 0, s))); }
    None
}

pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(v) = as_const(c) { return if v == 1 { a } else { b }; }
    if a == b { return a; }
    let wd = w(a);
    if wd == 1 {
        if as_const(a) == Some(1) { return or(c, b); }
        if as_const(a) == Some(0) { return and(not(c), b); }
        if as_const(b) == Some(0) { return and(c, a); }
        if as_const(b) == Some(1) { return or(not(c), a); }
    }
    if let N::Bin(Op::Xor, x, y) = node(c) { if as_const(*y) == Some(1) { return ite(*x, b, a); } }
    if let N::Ite(c2, x, y) = node(a) { if *c2 == c { return ite(c, *x, b); } let _ = y; }
    if let N::Ite(c2, x, y) = node(b) { if *c2 == c { return ite(c, a, *y); } if *x == a { return ite(or(c, *c2), a, *y); } }
    ar().mk(N::Ite(c, a, b), wd)
}

pub fn ext(a: T, s: u8, wd: u8) -> T {
    let aw = w(a);
    if s == 0 && wd == aw { return a; }
    if let Some(c) = as_const(a) { return konst(c >> s, wd); }
    match *node(a) {
        N::Ext(s2, x) => return ext(x, s + s2, wd),
        N::Cat(h, l) => { let lw = w(l); if s >= lw { return ext(h, s - lw, wd); } if s + wd <= lw { return ext(l, s, wd); }
            return cat(ext(h, 0, s + wd - lw), ext(l, s, lw - s)); }
        N::Zx(x) => { let xw = w(x); if s >= xw { return konst(0, wd); } if s + wd <= xw { return ext(x, s, wd); } return zx(ext(x, s, xw - s), wd); }
        N::Sx(x) => { let xw = w(x); if s + wd <= xw { return ext(x, s, wd); } if s == 0 { return sx(x, wd); } }
        N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => { return bin(op, ext(x, s, wd), ext(y, s, wd)); }
        N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if s == 0 => { return bin(op, ext(x, 0, wd), ext(y, 0, wd)); }
        N::Ite(c, x, y) if as_const(x).is_some() || as_const(y).is_some() || w(a) <= 64 && matches!(node(x), N::Zx(_)) => { return ite(c, ext(x, s, wd), ext(y, s, wd)); }
        _ => {}
    }
    ar().mk(N::Ext(s, a), wd)
}
pub fn cat(h: T, l: T) -> T {
    let wd = w(h) + w(l);
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) { return konst((x << w(l)) | y, wd); }
    if as_const(h) == Some(0) { return zx(l, wd); }
    if let (N::Ext(s1, x), N::Ext(s2, y)) = (node(h), node(l)) { if x == y && *s1 == *s2 + w(l) { return ext(*x, *s2, wd); } }
    if let N::Zx(x) = node(h) { return zx(cat(*x, l), wd); }
    // cat(h, cat(m, l)) with h, m adjacent extracts; keep left-nested canonical form
    if let N::Cat(m, l2) = *node(l) { return cat(cat(h, m), l2); }
    if let N::Cat(h2, m) = *node(h) { if let (N::Ext(s1, x), N::Ext(s2, y)) = (node(m), node(l)) { if x == y && *s1 == *s2 + w(l) { let j = ext(*x, *s2, w(m) + w(l)); return cat(h2, j); } }
        if let (Some(_), Some(_)) = (as_const(m), as_const(l)) { let j = cat(m, l); return ar().mk(N::Cat(h2, j), wd); } }
    // low part is ext(x,0,k), high part is sign/zero fill handled elsewhere
    ar().mk(N::Cat(h, l), wd)
}
pub fn zx(a: T, wd: u8) -> T {
    let aw = w(a);
    if aw == wd { return a; }
    if let Some(c) = as_const(a) { return konst(c, wd); }
    if let N::Zx(x) = node(a) { return zx(*x, wd); }
    if let N::Ite(c, x, y) = *node(a) { if as_const(x).is_some() && as_const(y).is_some() { return ite(c, zx(x, wd), zx(y, wd)); } }
    ar().mk(N::Zx(a), wd)
}
pub fn sx(a: T, wd: u8) -> T {
    let aw = w(a);
    if aw == wd { return a; }
    if let Some(c) = as_const(a) { return konst(sext(c, aw) as u64, wd); }
    if info(a).hi < 1u64 << (aw - 1) { return zx(a, wd); }
    if let N::Ite(c, x, y) = *node(a) { if as_const(x).is_some() && as_const(y).is_some() { return ite(c, sx(x, wd), sx(y, wd)); } }
    ar().mk(N::Sx(a), wd)
}

/// Evaluates a term under an assignment (missing variables take their lower bound).
pub struct Eval<'a> { pub m: &'a HashMap<u32, u64>, pub memo: HashMap<T, u64> }
impl<'a> Eval<'a> {
    pub fn new(m: &'a HashMap<u32, u64>) -> Self { Eval { m, memo: HashMap::new() } }
    pub fn ev(&mut self, t: T) -> u64 {
        let i = info(t);
        match &i.n {
            N::Const(c) => return *c,
            N::Var(v) => return self.m.get(v).copied().unwrap_or(i.lo),
            _ => {}
        }
        if let Some(&v) = self.memo.get(&t) { return v; }
        let r = match i.n.clone() {
            N::Bin(op, a, b) => { let x = self.ev(a);
                if i.w == 1 && op == Op::And && x == 0 { 0 } else if i.w == 1 && op == Op::Or && x == 1 { 1 } else { let y = self.ev(b); fold(op, x, y, w(a)) } }
            N::Ite(c, a, b) => if self.ev(c) == 1 { self.ev(a) } else { self.ev(b) },
            N::Ext(s, a) => (self.ev(a) >> s) & mask(i.w),
            N::Cat(h, l) => (self.ev(h) << w(l)) | self.ev(l),
            N::Zx(a) => self.ev(a),
            N::Sx(a) => sext(self.ev(a), w(a)) as u64 & mask(i.w),
            _ => unreachable!(),
        };
        self.memo.insert(t, r); r
    }
}
pub fn show(t: T, d: u32) -> String {
    let i = info(t);
    if d == 0 { return "..".into(); }
    match &i.n {
        N::Const(c) => format!("{}", c),
        N::Var(v) => ar().vars[*v as usize].name.clone(),
        N::Bin(op, a, b) => format!("({:?} {} {})", op, show(*a, d - 1), show(*b, d - 1)),
        N::Ite(c, a, b) => format!("(ite {} {} {})", show(*c, d - 1), show(*a, d - 1), show(*b, d - 1)),
        N::Ext(s, a) => format!("{}[{}+{}]", show(*a, d - 1), s, i.w),
        N::Cat(a, b) => format!("({} . {})", show(*a, d - 1), show(*b, d - 1)),
        N::Zx(a) => format!("zx{}({})", i.w, show(*a, d - 1)),
        N::Sx(a) => format!("sx{}({})", i.w, show(*a, d - 1)),
    }
}
