//! Parser for textual LLVM IR; produces a compact register-machine form.
use std::collections::HashMap;
use std::rc::Rc;
use crate::exec::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vect(u32, Rc<Ty>), Other }
impl Ty {
    pub fn align(&self) -> u64 { match self {
        Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(_, t) => t.align(),
        Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
        Ty::Vect(..) => self.size(), _ => 1 } }
    /// Bytes a load or store of this type touches.
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, t => t.size() } }
    pub fn size(&self) -> u64 { match self {
        Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(n, t) => n * t.size(),
        Ty::Struct(v, _) => { let mut o = 0; let mut ma = 1; for i in 0..v.len() { let a = self.falign(i); o = (o + a - 1) / a * a; o += v[i].size(); ma = ma.max(a); } (o + ma - 1) / ma * ma }
        Ty::Vect(n, t) => { let bits = *n as u64 * t.bits() as u64; ((bits + 7) / 8).next_power_of_two() }
        _ => 0 } }
    fn falign(&self, i: usize) -> u64 { if let Ty::Struct(v, p) = self { if *p { 1 } else { v[i].align() } } else { 1 } }
    pub fn offset(&self, i: usize) -> u64 { match self {
        Ty::Struct(v, _) => { let mut o = 0; for k in 0..=i { let a = self.falign(k); o = (o + a - 1) / a * a; if k < i { o += v[k].size(); } } o }
        Ty::Arr(_, t) | Ty::Vect(_, t) => t.size() * i as u64, _ => 0 } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    pub fn elem(&self, i: usize) -> Ty { match self { Ty::Struct(v, _) => v[i].clone(), Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(), _ => panic!("elem of {:?}", self) } }
    pub fn count(&self) -> usize { match self { Ty::Struct(v, _) => v.len(), Ty::Arr(n, _) => *n as usize, Ty::Vect(n, _) => *n as usize, _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(u64), K(V) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, Bit, PtrInt, FToU, FToS, UToF, SToF, FExt, FTrunc }
#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ext(u32), Dyn(Opd) }
#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BOp, w: u32, n: u32, a: Opd, b: Opd, d: u32 },
    Cmp { p: Pred, w: u32, n: u32, a: Opd, b: Opd, d: u32 },
    FCmp { p: u8, f32_: bool, a: Opd, b: Opd, d: u32 },
    FNeg { a: Opd, d: u32 },
    Load { ty: Rc<Ty>, n: u8, p: Opd, d: u32, w: u8, atomic: bool },
    Store { ty: Rc<Ty>, n: u8, v: Opd, p: Opd, w: u8, atomic: bool },
    Gep { base: Opd, off: u64, idx: Vec<(Opd, u64, u32)>, d: u32 },
    Cast { c: Cast, from: Rc<Ty>, to: Rc<Ty>, a: Opd, d: u32 },
    Sel { c: Opd, a: Opd, b: Opd, w: u32, d: u32 },
    Alloca { off: u64, d: u32 },
    Ext { a: Opd, idx: Vec<u32>, d: u32 },
    Ins { a: Opd, v: Opd, idx: Vec<u32>, d: u32 },
    VExt { a: Opd, i: Opd, d: u32 },
    VIns { a: Opd, v: Opd, i: Opd, d: u32 },
    Shuf { a: Opd, b: Opd, m: Vec<i32>, d: u32 },
    Rmw { op: u8, w: u8, p: Opd, v: Opd, d: u32 },
    Cas { w: u8, p: Opd, c: Opd, v: Opd, d: u32 },
    Call { f: Callee, args: Vec<Opd>, d: u32, rw: u32, inv: Option<u32> },
    Copy { a: Opd, d: u32 },
    Br(u32), CBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Rc<Vec<(u64, u32)>>, map: Rc<HashMap<u64, u32>> },
    Ret(Option<Opd>), Unreachable, Nop,
}
#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub code: Vec<I> }
#[derive(Clone, Debug, Default)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub frame: u64, pub ninst: usize }
pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub konst: bool, pub tls: bool }
#[derive(Default)]
pub struct Module { pub funcs: Vec<Func>, pub fidx: HashMap<String, u32>, pub exts: Vec<String>, pub eidx: HashMap<String, u32>, pub globals: Vec<Global>, pub gidx: HashMap<String, u32>, pub weak: HashMap<String, bool> }

pub const FUNC_BASE: u64 = 0xF000_0000_0000_0000;
pub const EXT_BASE: u64 = 0xF800_0000_0000_0000;
pub fn gaddr(i: u32) -> u64 { ((i as u64 + 1) << 32) }
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
enum Tk { W(String), L(String), G(String), N(String), S(Vec<u8>), P(u8), NL, Meta, Eof }

struct Lx<'a> { s: &'a [u8], i: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lx<'a> {
    fn quoted(&mut self) -> Vec<u8> { // at opening quote
        self.i += 1; let mut o = vec![];
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' { if self.s[self.i + 1] == b'\\' { o.push(b'\\'); self.i += 2; } else { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); o.push(u8::from_str_radix(h, 16).unwrap()); self.i += 3; } }
            else { o.push(c); self.i += 1; }
        }
        self.i += 1; o
    }
    fn next(&mut self) -> Tk {
        loop {
            if self.i >= self.s.len() { return Tk::Eof; }
            match self.s[self.i] {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 },
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'\n' => { self.i += 1; Tk::NL }
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' { String::from_utf8_lossy(&self.quoted()).into_owned() } else { let st = self.i; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[st..self.i]).into_owned() };
                if c == b'%' { Tk::L(name) } else { Tk::G(name) }
            }
            b'c' if self.s[self.i + 1] == b'"' => { self.i += 1; Tk::S(self.quoted()) }
            b'"' => { let q = self.quoted(); // label or string attribute
                Tk::W(format!("\"{}", String::from_utf8_lossy(&q))) }
            b'!' => { self.i += 1; while self.i < self.s.len() && (idc(self.s[self.i])) { self.i += 1; } Tk::Meta }
            b'#' => { self.i += 1; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; } Tk::Meta }
            b'$' => { self.i += 1; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; } Tk::Meta }
            b'-' | b'0'..=b'9' => { let st = self.i; self.i += 1; while self.i < self.s.len() && (idc(self.s[self.i]) || (self.s[self.i] == b'+')) { self.i += 1; } Tk::N(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()) }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => { let st = self.i; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; } Tk::W(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()) }
            _ => { self.i += 1; Tk::P(c) }
        }
    }
}

struct Ps { t: Vec<Tk>, i: usize, named: HashMap<String, Ty>, m: Module, loc: HashMap<String, u32>, nreg: u32, blk: HashMap<String, u32>, fname: String }
impl Ps {
    fn pk(&self) -> &Tk { &self.t[self.i] }
    fn nx(&mut self) -> Tk { let t = self.t[self.i].clone(); self.i += 1; t }
    fn isw(&self, s: &str) -> bool { matches!(self.pk(), Tk::W(x) if x == s) }
    fn isp(&self, c: u8) -> bool { *self.pk() == Tk::P(c) }
    fn eatw(&mut self, s: &str) -> bool { if self.isw(s) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn ex(&mut self, c: u8) { if !self.eatp(c) { self.die(&format!("expected {}", c as char)) } }
    fn die(&self, m: &str) -> ! { let a = self.i.saturating_sub(25); panic!("ll parse: {} in {} near {:?} >>> {:?}", m, self.fname, &self.t[a..self.i], &self.t[self.i..(self.i + 12).min(self.t.len())]) }
    fn skip_line(&mut self) { while !matches!(self.pk(), Tk::NL | Tk::Eof) { self.i += 1; } }
    fn skip_nl(&mut self) { while matches!(self.pk(), Tk::NL) { self.i += 1; } }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0; loop { if self.isp(b'(') { d += 1 } else if self.isp(b')') { d -= 1 } self.i += 1; if d == 0 { return; } }
    }
    fn is_ty(&self) -> bool { match self.pk() { Tk::W(s) => s == "void" || s == "ptr" || s == "float" || s == "double" || s == "label" || s == "metadata" || s == "token" || s == "x86_fp80" || s == "half" || s == "bfloat" || s == "fp128" || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit())), Tk::L(n) => self.named.contains_key(n), Tk::P(b'{') | Tk::P(b'[') | Tk::P(b'<') => true, _ => false } }
    fn ty(&mut self) -> Ty {
        let t = match self.nx() {
            Tk::W(s) => match &s[..] { "void" => Ty::Void, "ptr" => { if self.eatw("addrspace") { self.skip_parens(); } Ty::Ptr } "float" => Ty::F32, "double" => Ty::F64,
                _ if s.starts_with('i') && s.len() > 1 && s.as_bytes()[1].is_ascii_digit() => Ty::Int(s[1..].parse().unwrap()), _ => Ty::Other },
            Tk::L(n) => self.named.get(&n).cloned().unwrap_or_else(|| self.die("named type")),
            Tk::P(b'{') => { let v = self.tylist(b'}'); Ty::Struct(Rc::new(v), false) }
            Tk::P(b'[') => { let n = self.num() as u64; self.eatw("x"); let t = self.ty(); self.ex(b']'); Ty::Arr(n, Rc::new(t)) }
            Tk::P(b'<') => { if self.eatp(b'{') { let v = self.tylist(b'}'); self.ex(b'>'); Ty::Struct(Rc::new(v), true) }
                else { let n = self.num() as u32; self.eatw("x"); let t = self.ty(); self.ex(b'>'); Ty::Vect(n, Rc::new(t)) } }
            _ => { self.i -= 1; self.die("type") }
        };
        // function type suffix: "void (ptr, ...)" in calls to variadics
        t
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> { let mut v = vec![]; while !self.eatp(end) { v.push(self.ty()); self.eatp(b','); } v }
    fn num(&mut self) -> i128 { match self.nx() { Tk::N(s) => s.parse().unwrap_or_else(|_| panic!("num {}", s)), t => panic!("num {:?}", t) } }
    fn attrs(&mut self) { loop { match self.pk().clone() {
        Tk::W(s) => { if self.is_ty() { return; } match &s[..] {
            "align" | "addrspace" => { self.i += 1; if self.isp(b'(') { self.skip_parens() } else { self.i += 1; } }
            "asm" | "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "blockaddress" | "sub" | "add" | "trunc" => return,
            _ => { self.i += 1; if self.isp(b'(') { self.skip_parens(); } if self.isp(b'=') { self.i += 2; } } } }
        Tk::Meta => { self.i += 1; }
        _ => return } } }
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.loc.get(n) { return r; } let r = self.nreg; self.nreg += 1; self.loc.insert(n.to_string(), r); r }
    fn bb(&mut self, n: &str) -> u32 { if let Some(&r) = self.blk.get(n) { return r; } let r = self.blk.len() as u32; self.blk.insert(n.to_string(), r); r }
    fn label(&mut self) -> u32 { if !self.eatw("label") { self.die("label") } match self.nx() { Tk::L(n) => self.bb(&n), _ => self.die("lbl") } }
    fn sym(&mut self, n: &str) -> u64 {
        if let Some(&g) = self.m.gidx.get(n) { return gaddr(g); }
        if let Some(&f) = self.m.fidx.get(n) { return FUNC_BASE | ((f as u64) << 4); }
        if self.m.weak.get(n) == Some(&true) { return 0; }
        let e = self.ext(n); EXT_BASE | ((e as u64) << 4)
    }
    fn ext(&mut self, n: &str) -> u32 { if let Some(&e) = self.m.eidx.get(n) { return e; } let e = self.m.exts.len() as u32; self.m.exts.push(n.to_string()); self.m.eidx.insert(n.to_string(), e); e }
    /// constant (or register) of a given type
    fn val(&mut self, ty: &Ty) -> Opd {
        match self.pk().clone() {
            Tk::L(n) => { self.i += 1; Opd::R(self.reg(&n)) }
            _ => match self.cst(ty) { V::C(c) => Opd::C(c), v => Opd::K(v) }
        }
    }
    fn zero(ty: &Ty) -> V { match ty { Ty::Arr(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])), Ty::Vect(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])), Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(Self::zero).collect())), Ty::Int(w) if *w > 64 => V::W(Box::new(0)), _ => V::C(0) } }
    fn cst(&mut self, ty: &Ty) -> V {
        let f = |x: f64| V::C(if *ty == Ty::F32 { (x as f32).to_bits() as u64 } else { x.to_bits() });
        match self.nx() {
            Tk::P(b'+') => match self.nx() { Tk::W(s) if s == "inf" => f(f64::INFINITY), Tk::W(s) if s == "qnan" => f(f64::NAN), _ => { self.i -= 1; self.die("float const") } },
            Tk::N(s) if s == "-inf" => f(f64::NEG_INFINITY),
            Tk::N(s) if s == "-qnan" => f(-f64::NAN),
            Tk::W(s) if s.starts_with("f0x") => { let v = u64::from_str_radix(&s[3..], 16).unwrap(); V::C(v) }
            Tk::N(s) => match ty {
                Ty::Int(w) if *w > 64 => V::W(Box::new(s.parse::<i128>().map(|x| x as u128).unwrap_or_else(|_| s.parse::<u128>().unwrap()))),
                Ty::Int(w) => { let v: i128 = s.parse().unwrap_or_else(|_| panic!("int {}", s)); V::C(v as u64 & if *w >= 64 { !0 } else { (1u64 << w) - 1 }) }
                Ty::F64 => V::C(if s.starts_with("0x") { u64::from_str_radix(&s[2..], 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                Ty::F32 => V::C(if s.starts_with("0x") { (f64::from_bits(u64::from_str_radix(&s[2..], 16).unwrap()) as f32).to_bits() as u64 } else { s.parse::<f32>().unwrap().to_bits() as u64 }),
                _ => panic!("num const for {:?}", ty) },
            Tk::G(n) => V::C(self.sym(&n)),
            Tk::S(b) => V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect())),
            Tk::P(b'{') => self.aggc(b'}'),
            Tk::P(b'[') => self.aggc(b']'),
            Tk::P(b'<') => { if self.eatp(b'{') { let v = self.aggc(b'}'); self.ex(b'>'); v } else { self.aggc(b'>') } }
            Tk::W(s) => match &s[..] {
                "null" | "none" | "false" => V::C(0), "true" => V::C(1),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                "splat" => { self.ex(b'('); let t = self.ty(); let v = self.cst(&t); self.ex(b')'); V::A(Rc::new(vec![v; ty.count()])) }
                "getelementptr" => { while !self.isp(b'(') { if self.eatw("inrange") { self.skip_parens(); } else { self.i += 1; } } self.ex(b'('); let st = self.ty(); self.ex(b','); self.ty(); let mut b = match self.cst(&Ty::Ptr) { V::C(c) => c, _ => panic!() };
                    let mut cur = st; let mut first = true;
                    while self.eatp(b',') { let it = self.ty(); let ix = match self.cst(&it) { V::C(c) => crate::term::sext(c, it.bits() as u8), _ => panic!() };
                        if first { b = b.wrapping_add((ix as u64).wrapping_mul(cur.size())); first = false; } else { b = b.wrapping_add(cur.offset(ix as usize)); cur = cur.elem(ix as usize); } }
                    self.ex(b')'); V::C(b) }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => { self.ex(b'('); let t = self.ty(); let v = self.cst(&t); self.eatw("to"); let t2 = self.ty(); self.ex(b')'); match v { V::C(c) if t2.bits() < 64 => V::C(c & ((1u64 << t2.bits()) - 1)), v => v } }
                "sub" | "add" => { while !self.isp(b'(') { self.i += 1; } self.ex(b'('); let t = self.ty(); let a = self.cst(&t); self.ex(b','); let t2 = self.ty(); let b = self.cst(&t2); self.ex(b')'); match (a, b) { (V::C(a), V::C(b)) => V::C(if s == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }), _ => panic!() } }
                _ => { self.i -= 1; self.die("const") } },
            _ => { self.i -= 1; self.die("const") }
        }
    }
    fn aggc(&mut self, end: u8) -> V { let mut v = vec![]; while !self.eatp(end) { let t = self.ty(); v.push(self.cst(&t)); self.eatp(b','); } V::A(Rc::new(v)) }
    fn tval(&mut self) -> (Ty, Opd) { let t = self.ty(); self.attrs(); let v = self.val(&t); (t, v) }
}

pub fn write_const(ty: &Ty, v: &V, out: &mut [u8]) {
    match ty {
        Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let n = ty.size() as usize; let x: u128 = match v { V::C(c) => *c as u128, V::W(x) => **x, _ => panic!("const") }; for k in 0..n { out[k] = (x >> (8 * k)) as u8; } }
        Ty::Arr(n, t) => { let s = t.size() as usize; if let V::A(a) = v { for k in 0..*n as usize { write_const(t, &a[k], &mut out[k * s..]); } } }
        Ty::Vect(n, t) => { let s = t.size() as usize; if let V::A(a) = v { for k in 0..*n as usize { write_const(t, &a[k], &mut out[k * s..]); } } }
        Ty::Struct(ts, _) => { if let V::A(a) = v { for k in 0..ts.len() { let o = ty.offset(k) as usize; write_const(&ts[k], &a[k], &mut out[o..]); } } }
        _ => {}
    }
}

pub fn parse(src: &[u8]) -> Module {
    let mut lx = Lx { s: src, i: 0 };
    let mut t = vec![];
    loop { let k = lx.next(); let e = k == Tk::Eof; t.push(k); if e { break; } }
    let mut p = Ps { t, i: 0, named: HashMap::new(), m: Module::default(), loc: HashMap::new(), nreg: 0, blk: HashMap::new(), fname: String::new() };
    // pass 1: names
    let mut body_pos = vec![]; let mut glob_pos = vec![];
    let mut pending_named = vec![];
    while *p.pk() != Tk::Eof {
        match p.pk().clone() {
            Tk::L(n) if p.t[p.i + 1] == Tk::P(b'=') => { pending_named.push((n, p.i + 2)); p.skip_line(); }
            Tk::G(n) => { let g = p.m.globals.len() as u32; 
                let mut j = p.i; let mut extn = false; let mut tls = false; let mut weak = false; let mut alias = false;
                while !matches!(p.t[j], Tk::NL) { match &p.t[j] { Tk::W(s) if s == "external" => extn = true, Tk::W(s) if s == "extern_weak" => { extn = true; weak = true }, Tk::W(s) if s == "thread_local" => tls = true, Tk::W(s) if s == "alias" => alias = true, Tk::W(s) if s == "global" || s == "constant" => break, _ => {} } j += 1; }
                if weak { p.m.weak.insert(n.clone(), true); }
                if !extn && !alias && !n.starts_with("llvm.") { p.m.globals.push(Global { name: n.clone(), size: 0, data: vec![], konst: false, tls }); p.m.gidx.insert(n, g); glob_pos.push((g, p.i)); }
                else if alias { eprintln!("alias {}", n); }
                p.skip_line(); }
            Tk::W(s) if s == "define" => { let st = p.i; while !matches!(p.pk(), Tk::G(_)) { p.i += 1; } if let Tk::G(n) = p.nx() { let f = p.m.funcs.len() as u32; p.m.funcs.push(Func { name: n.clone(), ..Default::default() }); p.m.fidx.insert(n, f); body_pos.push((f, st)); }
                loop { p.skip_line(); if *p.pk() == Tk::Eof { break; } p.i += 1; if p.isp(b'}') { p.i += 1; break; } } }
            Tk::W(s) if s == "declare" => { let mut weak = false; while !matches!(p.pk(), Tk::G(_)) { if p.isw("extern_weak") { weak = true; } p.i += 1; } if let Tk::G(n) = p.nx() { if weak { p.m.weak.insert(n, true); } } p.skip_line(); }
            Tk::W(s) if s == "attributes" => { p.skip_line(); }
            _ => { p.i += 1; p.skip_line(); }
        }
        if *p.pk() == Tk::NL { p.i += 1; }
    }
    for (n, pos) in pending_named { p.i = pos; p.eatw("type"); let t = if p.isw("opaque") { Ty::Other } else { p.ty() }; p.named.insert(n, t); }
    for (g, pos) in glob_pos {
        p.i = pos + 2; let mut konst = false;
        loop { match p.nx() { Tk::W(s) if s == "global" => break, Tk::W(s) if s == "constant" => { konst = true; break; } Tk::P(b'(') => { p.i -= 1; p.skip_parens(); } Tk::NL => p.die("global"), _ => {} } }
        let ty = p.ty(); let v = p.cst(&ty);
        let sz = ty.size();
        let mut d = vec![0u8; sz as usize]; write_const(&ty, &v, &mut d);
        let gl = &mut p.m.globals[g as usize]; gl.size = sz; gl.data = d; gl.konst = konst;
    }
    for (f, pos) in body_pos { let fun = func(&mut p, pos); let name = std::mem::take(&mut p.m.funcs[f as usize].name); p.m.funcs[f as usize] = Func { name, ..fun }; }
    p.m
}

fn func(p: &mut Ps, pos: usize) -> Func {
    p.i = pos; p.loc.clear(); p.nreg = 0; p.blk.clear();
    while !matches!(p.pk(), Tk::G(_)) { p.i += 1; }
    if let Tk::G(n) = p.nx() { p.fname = n; }
    p.ex(b'(');
    let mut params = vec![]; let mut unnamed = 0;
    while !p.eatp(b')') {
        if p.eatp(b'.') || matches!(p.pk(), Tk::W(s) if s == "...") { p.i += 1; continue; }
        p.ty(); p.attrs();
        let n = if let Tk::L(n) = p.pk().clone() { p.i += 1; n } else { let s = unnamed.to_string(); s };
        unnamed += 1;
        let r = p.reg(&n); params.push(r); p.eatp(b',');
    }
    p.skip_line(); p.skip_nl();
    let mut f = Func { params, ..Default::default() };
    let mut cur: Option<u32> = None;
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    loop {
        p.skip_nl();
        if p.eatp(b'}') { break; }
        // label?
        let lab = match (p.pk().clone(), p.t[p.i + 1].clone()) {
            (Tk::W(s), Tk::P(b':')) => Some(s.strip_prefix('"').map(|x| x.to_string()).unwrap_or(s)),
            (Tk::N(s), Tk::P(b':')) => Some(s), _ => None };
        if let Some(l) = lab { p.i += 2; let b = p.bb(&l); cur = Some(b); blocks.entry(b).or_default(); p.skip_line(); continue; }
        let b = match cur { Some(b) => b, None => { let n = unnamed.to_string(); let b = p.bb(&n); cur = Some(b); b } };
        let blk = blocks.entry(b).or_default();
        f.ninst += 1;
        inst(p, blk, &mut f.frame);
        p.skip_line();
    }
    let n = p.blk.len();
    let mut v: Vec<Block> = vec![Block::default(); n];
    for (k, b) in blocks { v[k as usize] = b; }
    f.blocks = v; f.nregs = p.nreg;
    f.frame = (f.frame + 15) / 16 * 16;
    f
}

fn inst(p: &mut Ps, blk: &mut Block, frame: &mut u64) {
    let mut d = NOREG;
    if let Tk::L(n) = p.pk().clone() { p.i += 1; p.ex(b'='); d = p.reg(&n); }
    let op = match p.nx() { Tk::W(s) => s, _ => { p.i -= 1; p.die("opcode") } };
    let flags = |p: &mut Ps| { loop { match p.pk() { Tk::W(s) if matches!(&s[..], "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile") => p.i += 1, _ => return } } };
    let lanes = |t: &Ty| match t { Ty::Vect(n, e) => (*n, e.bits()), t => (0, t.bits()) };
    let bop = match &op[..] { "add" => Some(BOp::Add), "sub" => Some(BOp::Sub), "mul" => Some(BOp::Mul), "udiv" => Some(BOp::UDiv), "urem" => Some(BOp::URem), "sdiv" => Some(BOp::SDiv), "srem" => Some(BOp::SRem), "and" => Some(BOp::And), "or" => Some(BOp::Or), "xor" => Some(BOp::Xor), "shl" => Some(BOp::Shl), "lshr" => Some(BOp::LShr), "ashr" => Some(BOp::AShr), "fadd" => Some(BOp::FAdd), "fsub" => Some(BOp::FSub), "fmul" => Some(BOp::FMul), "fdiv" => Some(BOp::FDiv), "frem" => Some(BOp::FRem), _ => None };
    let cast = match &op[..] { "zext" => Some(Cast::Zext), "sext" => Some(Cast::Sext), "trunc" => Some(Cast::Trunc), "bitcast" => Some(Cast::Bit), "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::PtrInt), "fptoui" => Some(Cast::FToU), "fptosi" => Some(Cast::FToS), "uitofp" => Some(Cast::UToF), "sitofp" => Some(Cast::SToF), "fpext" => Some(Cast::FExt), "fptrunc" => Some(Cast::FTrunc), _ => None };
    if let Some(o) = bop { flags(p); let t = p.ty(); let a = p.val(&t); p.ex(b','); let b = p.val(&t); let (n, w) = lanes(&t); blk.code.push(I::Bin { op: o, w, n, a, b, d }); return; }
    if let Some(c) = cast { flags(p); let (t, a) = p.tval(); if !p.eatw("to") { p.die("to") } let t2 = p.ty(); blk.code.push(I::Cast { c, from: Rc::new(t), to: Rc::new(t2), a, d }); return; }
    match &op[..] {
        "icmp" => { flags(p); let pr = match p.nx() { Tk::W(s) => match &s[..] { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle }, _ => p.die("pred") };
            let t = p.ty(); let a = p.val(&t); p.ex(b','); let b = p.val(&t); let (n, w) = lanes(&t); blk.code.push(I::Cmp { p: pr, w, n, a, b, d }); }
        "fcmp" => { flags(p); let s = match p.nx() { Tk::W(s) => s, _ => p.die("fpred") }; let c = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"].iter().position(|x| *x == s).unwrap() as u8;
            let t = p.ty(); let a = p.val(&t); p.ex(b','); let b = p.val(&t); blk.code.push(I::FCmp { p: c, f32_: t == Ty::F32, a, b, d }); }
        "fneg" => { flags(p); let (_, a) = p.tval(); blk.code.push(I::FNeg { a, d }); }
        "load" => { let atomic = p.eatw("atomic"); flags(p); let t = p.ty(); p.ex(b','); let (_, a) = p.tval(); let n = t.store_size() as u8; let w = t.bits() as u8; blk.code.push(I::Load { ty: Rc::new(t), n, p: a, d, w, atomic }); }
        "store" => { let atomic = p.eatw("atomic"); flags(p); let (t, v) = p.tval(); p.ex(b','); let (_, a) = p.tval(); let n = t.store_size() as u8; let w = t.bits() as u8; blk.code.push(I::Store { ty: Rc::new(t), n, v, p: a, w, atomic }); }
        "getelementptr" => { flags(p); let st = p.ty(); p.ex(b','); let (_, base) = p.tval(); let mut off = 0u64; let mut idx = vec![]; let mut cur = st; let mut first = true;
            while p.eatp(b',') { if *p.pk() == Tk::Meta { break; } let (it, iv) = p.tval(); 
                let scale = if first { cur.size() } else { match &cur { Ty::Struct(..) => 0, Ty::Arr(_, e) | Ty::Vect(_, e) => e.size(), _ => panic!("gep") } };
                match &iv { Opd::C(c) => { let sx = crate::term::sext(*c, it.bits() as u8); if first { off = off.wrapping_add((sx as u64).wrapping_mul(scale)); } else if let Ty::Struct(..) = cur { off = off.wrapping_add(cur.offset(sx as usize)); } else { off = off.wrapping_add((sx as u64).wrapping_mul(scale)); } }
                    _ => idx.push((iv.clone(), scale, it.bits())) }
                if !first { let k = if let Opd::C(c) = &iv { *c as usize } else { 0 }; cur = match &cur { Ty::Struct(v, _) => v[k].clone(), c => c.elem(0) }; }
                first = false; }
            blk.code.push(I::Gep { base, off, idx, d }); }
        "select" => { flags(p); let (_, c) = p.tval(); p.ex(b','); let (t, a) = p.tval(); p.ex(b','); let (_, b) = p.tval(); blk.code.push(I::Sel { c, a, b, w: t.bits(), d }); }
        "alloca" => { p.eatw("inalloca"); let t = p.ty(); let mut n = 1; let mut al = t.align(); while p.eatp(b',') { if p.eatw("align") { al = p.num() as u64; } else if p.is_ty() { let it = p.ty(); match p.val(&it) { Opd::C(c) => n = c, _ => panic!("dynamic alloca") } } else { break; } }
            let off = (*frame + al - 1) / al * al; *frame = off + t.size() * n; blk.code.push(I::Alloca { off, d }); }
        "extractvalue" => { let (_, a) = p.tval(); let mut idx = vec![]; while p.eatp(b',') { if *p.pk() == Tk::Meta { break; } idx.push(p.num() as u32); } blk.code.push(I::Ext { a, idx, d }); }
        "insertvalue" => { let (_, a) = p.tval(); p.ex(b','); let (_, v) = p.tval(); let mut idx = vec![]; while p.eatp(b',') { if *p.pk() == Tk::Meta { break; } idx.push(p.num() as u32); } blk.code.push(I::Ins { a, v, idx, d }); }
        "extractelement" => { let (_, a) = p.tval(); p.ex(b','); let (_, i) = p.tval(); blk.code.push(I::VExt { a, i, d }); }
        "insertelement" => { let (_, a) = p.tval(); p.ex(b','); let (_, v) = p.tval(); p.ex(b','); let (_, i) = p.tval(); blk.code.push(I::VIns { a, v, i, d }); }
        "shufflevector" => { let (_, a) = p.tval(); p.ex(b','); let (_, b) = p.tval(); p.ex(b','); let t = p.ty(); let m = match p.cst(&t) { V::A(v) => v.iter().map(|x| if let V::C(c) = x { *c as i32 } else { 0 }).collect(), _ => panic!() }; blk.code.push(I::Shuf { a, b, m, d }); }
        "freeze" => { let (_, a) = p.tval(); blk.code.push(I::Copy { a, d }); }
        "atomicrmw" => { flags(p); let o = match p.nx() { Tk::W(s) => s, _ => p.die("rmw") }; let c = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"].iter().position(|x| *x == o).unwrap() as u8; let (_, a) = p.tval(); p.ex(b','); let (t, v) = p.tval(); blk.code.push(I::Rmw { op: c, w: t.bits() as u8, p: a, v, d }); }
        "cmpxchg" => { p.eatw("weak"); flags(p); let (_, a) = p.tval(); p.ex(b','); let (t, c) = p.tval(); p.ex(b','); let (_, v) = p.tval(); blk.code.push(I::Cas { w: t.bits() as u8, p: a, c, v, d }); }
        "fence" => blk.code.push(I::Nop),
        "phi" => { flags(p); let t = p.ty(); let mut v = vec![]; loop { p.ex(b'['); let o = p.val(&t); p.ex(b','); let l = match p.nx() { Tk::L(n) => { // the entry block may be referenced by its implicit number
                    p.phi_bb(&n) } _ => p.die("phi") }; p.ex(b']'); v.push((l, o)); if !p.eatp(b',') || *p.pk() == Tk::Meta { break; } } blk.phis.push((d, v)); }
        "br" => { if p.isw("label") { let l = p.label(); blk.code.push(I::Br(l)); } else { let (_, c) = p.tval(); p.ex(b','); let t = p.label(); p.ex(b','); let f = p.label(); blk.code.push(I::CBr { c, t, f }); } }
        "switch" => { let (t, v) = p.tval(); p.ex(b','); let def = p.label(); p.ex(b'['); let mut cs = vec![]; loop { p.skip_nl(); if p.eatp(b']') { break; } let ct = p.ty(); let c = match p.cst(&ct) { V::C(c) => c, V::W(x) => *x as u64, _ => panic!() }; p.ex(b','); let l = p.label(); cs.push((c, l)); }
            let map: HashMap<u64, u32> = cs.iter().cloned().collect(); blk.code.push(I::Switch { w: t.bits(), v, def, cases: Rc::new(cs), map: Rc::new(map) }); }
        "ret" => { let t = p.ty(); if t == Ty::Void { blk.code.push(I::Ret(None)); } else { let v = p.val(&t); blk.code.push(I::Ret(Some(v))); } }
        "unreachable" | "resume" => blk.code.push(I::Unreachable),
        "landingpad" => { blk.code.push(I::Unreachable); loop { p.skip_line(); let save = p.i; p.skip_nl(); if p.isw("cleanup") || p.isw("catch") || p.isw("filter") { continue; } p.i = save; break; } }
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            if op != "call" && op != "invoke" { p.eatw("call"); }
            flags(p); p.attrs();
            let rt = p.ty();
            if p.isp(b'(') { p.skip_parens(); } // variadic function type
            p.attrs();
            if p.isw("asm") { // inline assembly: only barriers / hints are expected
                p.i += 1; while matches!(p.pk(), Tk::W(s) if !s.starts_with('"')) { p.i += 1; }
                let tmpl = p.nx(); p.ex(b','); let cons = p.nx(); p.ex(b'('); let mut args = vec![]; while !p.eatp(b')') { let t = p.ty(); p.attrs(); args.push(p.val(&t)); p.eatp(b','); }
                let (ts, cs) = (format!("{:?}", tmpl), format!("{:?}", cons));
                if d != NOREG { if args.len() >= 1 && ts == "W(\"\\\"\")" { blk.code.push(I::Copy { a: args[0].clone(), d }); } else { let e = p.ext(&format!("asm:{}:{}", ts, cs)); blk.code.push(I::Call { f: Callee::Ext(e), args, d, rw: rt.bits(), inv: None }); } }
                else if ts != "W(\"\\\"\")" { let e = p.ext(&format!("asm:{}:{}", ts, cs)); blk.code.push(I::Call { f: Callee::Ext(e), args, d, rw: rt.bits(), inv: None }); }
                return;
            }
            let callee = match p.nx() { Tk::G(n) => { if let Some(&f) = p.m.fidx.get(&n) { Callee::F(f) } else { Callee::Ext(p.ext(&n)) } } Tk::L(n) => Callee::Dyn(Opd::R(p.reg(&n))), _ => { p.i -= 1; let c = p.cst(&Ty::Ptr); match c { V::C(c) => Callee::Dyn(Opd::C(c)), _ => p.die("callee") } } };
            p.ex(b'('); let mut args = vec![];
            while !p.eatp(b')') {
                if p.isw("metadata") { let mut dd = 0; loop { if p.isp(b'(') || p.isp(b'{') { dd += 1 } if p.isp(b')') || p.isp(b'}') { if dd == 0 { break; } dd -= 1 } if p.isp(b',') && dd == 0 { break; } p.i += 1; } args.push(Opd::C(0)); p.eatp(b','); continue; }
                let t = p.ty(); 
                let mut byval = 0; if let Tk::W(s) = p.pk() { if s == "byval" { byval = 1; } }
                if byval == 1 { p.die("byval") }
                p.attrs(); args.push(p.val(&t)); p.eatp(b','); }
            let mut inv = None;
            if op == "invoke" { loop { if p.eatw("to") { break; } p.i += 1; } inv = Some(p.label()); p.skip_nl(); p.eatw("unwind"); p.label(); }
            if let Callee::Ext(e) = &callee { let n = p.m.exts[*e as usize].clone();
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") { blk.code.push(I::Nop); return; }
                if n.starts_with("llvm.expect") || n.starts_with("llvm.launder") || n.starts_with("llvm.ptr.annotation") { blk.code.push(I::Copy { a: args[0].clone(), d }); return; } }
            blk.code.push(I::Call { f: callee, args, d, rw: rt.bits(), inv });
            if let Some(l) = inv { blk.code.push(I::Br(l)); }
        }
        _ => p.die(&format!("unknown opcode {}", op)),
    }
}
impl Ps {
    fn phi_bb(&mut self, n: &str) -> u32 {
        if let Some(&b) = self.blk.get(n) { return b; }
        self.bb(n)
    }
}
