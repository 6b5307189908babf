//! Reference semantics: schema and document models, and the data type GraphQL execution implies.
use crate::ts::{C, split};
#[derive(Clone, Copy, PartialEq, Debug)] pub enum W { L, N }
#[derive(Clone, Debug)] pub struct TRef { pub w: Vec<W>, pub name: String }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum K { Obj, Ifc, Uni, Enum, Inp, Sca }
#[derive(Clone, Debug)] pub struct F { pub name: String, pub ty: TRef, pub desc: Option<String>, pub dep: Option<bool> }
#[derive(Clone, Debug)] pub struct T { pub name: String, pub k: K, pub fields: Vec<F>, pub poss: Vec<String>, pub vals: Vec<String>, pub desc: Option<String> }
#[derive(Clone, Debug)] pub struct Schema { pub types: Vec<T> }
#[derive(Clone, Debug)] pub enum Sel { Field { key: String, name: String, subs: Vec<Sel> }, Inline { on: String, subs: Vec<Sel> }, Spread { name: String } }
#[derive(Clone, Copy, PartialEq, Debug)] pub enum OpK { Query, Mutation, Subscription, Fragment }
#[derive(Clone, Debug)] pub struct Doc { pub k: OpK, pub name: String, pub on: String, pub vars: Vec<(String, TRef)>, pub sels: Vec<Sel> }
#[derive(Clone, Default)] pub struct Cfg { pub scalars: Option<String> }

// ---- a tiny lexer shared by the schema and document notations ----
pub struct Lx<'a> { b: &'a [u8], i: usize }
fn idc(c: u8) -> bool { c == b'_' || c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c >= b'0' && c <= b'9' }
impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Self { Lx { b: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b',' || self.b[self.i] == b'\t' || self.b[self.i] == b'\r') { self.i += 1; } if self.i < self.b.len() && self.b[self.i] == b'#' { while self.i < self.b.len() && self.b[self.i] != b'\n' { self.i += 1; } self.ws(); } }
    fn end(&mut self) -> bool { self.ws(); self.i >= self.b.len() }
    fn is(&mut self, c: u8) -> bool { self.ws(); self.i < self.b.len() && self.b[self.i] == c }
    fn eat(&mut self, c: u8) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn eats(&mut self, s: &[u8]) -> bool { self.ws(); if self.i + s.len() <= self.b.len() && &self.b[self.i..self.i + s.len()] == s { self.i += s.len(); true } else { false } }
    fn id(&mut self) -> String { self.ws(); let s = self.i; while self.i < self.b.len() && idc(self.b[self.i]) { self.i += 1; } if s == self.i { panic!("model: name expected at {}", s) } unsafe { String::from_utf8_unchecked(self.b[s..self.i].to_vec()) } }
    fn tref(&mut self) -> TRef {
        let mut w = vec![]; 
        let mut r = if self.eat(b'[') { let t = self.tref(); if !self.eat(b']') { panic!("model: ]") } w.push(W::L); w.extend(t.w); TRef { w, name: t.name } } else { TRef { w, name: self.id() } };
        if self.eat(b'!') { r.w.insert(0, W::N); }
        r
    }
}
pub fn t(s: &str) -> TRef { Lx::new(s).tref() }
impl TRef { pub fn text(&self) -> String { fn go(w: &[W], n: &str, o: &mut String) { match w.first() { None => o.push_str(n), Some(W::N) => { go(&w[1..], n, o); o.push('!') } Some(W::L) => { o.push('['); go(&w[1..], n, o); o.push(']') } } } let mut o = String::new(); go(&self.w, &self.name, &mut o); o } }

pub fn esc(s: &str, o: &mut String) { let o = unsafe { o.as_mut_vec() }; o.push(b'"'); for &c in s.as_bytes() { if c == b'"' || c == b'\\' { o.push(b'\\'); o.push(c); } else if c == b'\n' { o.extend_from_slice(b"\\n"); } else if c == b'\t' { o.extend_from_slice(b"\\t"); } else if c == b'\r' { o.extend_from_slice(b"\\r"); } else { o.push(c); } } o.push(b'"'); }
fn qs(s: &str, o: &mut String) { o.push('"'); o.push_str(s); o.push('"'); }
const BUILTIN: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];

impl Schema {
    pub fn sdl(s: &str) -> Schema {
        let mut l = Lx::new(s); let mut types = vec![];
        while !l.end() {
            let k = match &l.id()[..] { "type" => K::Obj, "interface" => K::Ifc, "union" => K::Uni, "enum" => K::Enum, "input" => K::Inp, "scalar" => K::Sca, x => panic!("model: {}", x) };
            let mut t = T { name: l.id(), k, fields: vec![], poss: vec![], vals: vec![], desc: None };
            if l.eat(b'=') { loop { t.poss.push(l.id()); if !l.eat(b'|') { break; } } }
            if l.eat(b'{') { while !l.eat(b'}') { if k == K::Enum { t.vals.push(l.id()); continue; } let name = l.id(); if !l.eat(b':') { panic!("model: :") } let ty = l.tref(); let dep = if k == K::Inp { None } else { Some(l.eats(b"@d")) }; t.fields.push(F { name, ty, desc: None, dep }); } }
            types.push(t);
        }
        Schema { types }
    }
    pub fn get(&self, n: &str) -> Option<&T> { self.types.iter().find(|t| t.name == n) }
    pub fn get_mut(&mut self, n: &str) -> &mut T { self.types.iter_mut().find(|t| t.name == n).expect("model: type") }
    pub fn kind(&self, n: &str) -> K { match self.get(n) { Some(t) => t.k, None => K::Sca } }
    fn jref(&self, w: &[W], n: &str, o: &mut String) {
        match w.first() {
            Some(x) => { o.push_str(if *x == W::N { "{\"kind\":\"NON_NULL\",\"name\":null,\"ofType\":" } else { "{\"kind\":\"LIST\",\"name\":null,\"ofType\":" }); self.jref(&w[1..], n, o); o.push('}'); }
            None => { o.push_str("{\"kind\":\""); o.push_str(kname(self.kind(n))); o.push_str("\",\"name\":"); qs(n, o); o.push_str(",\"ofType\":null}"); }
        }
    }
    fn jfields(&self, f: &[F], o: &mut String) {
        o.push('[');
        for (i, f) in f.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str("{\"name\":"); qs(&f.name, o); o.push_str(",\"description\":"); match &f.desc { Some(d) => esc(d, o), None => o.push_str("null") }
            o.push_str(",\"type\":"); self.jref(&f.ty.w, &f.ty.name, o);
            if let Some(d) = f.dep { o.push_str(if d { ",\"isDeprecated\":true" } else { ",\"isDeprecated\":false" }); }
            o.push('}');
        }
        o.push(']');
    }
    pub fn json(&self) -> Vec<u8> {
        let mut o = String::from("{\"data\":{\"__schema\":{\"types\":[");
        let mut first = true;
        for t in &self.types { if !first { o.push(','); } first = false; self.jtype(t, &mut o); }
        for b in BUILTIN { if self.get(b).is_none() { if !first { o.push(','); } first = false; o.push_str("{\"kind\":\"SCALAR\",\"name\":\""); o.push_str(b); o.push_str("\",\"description\":null}"); } }
        o.push_str("]}}}");
        o.into_bytes()
    }
    pub fn jtype(&self, t: &T, o: &mut String) {
        o.push_str("{\"kind\":\""); o.push_str(kname(t.k)); o.push_str("\",\"name\":"); qs(&t.name, o); o.push_str(",\"description\":"); match &t.desc { Some(d) => esc(d, o), None => o.push_str("null") }
        o.push_str(",\"fields\":"); if let K::Obj | K::Ifc = t.k { self.jfields(&t.fields, o) } else { o.push_str("null") }
        o.push_str(",\"inputFields\":"); if t.k == K::Inp { self.jfields(&t.fields, o) } else { o.push_str("null") }
        o.push_str(",\"enumValues\":"); if t.k == K::Enum { o.push('['); for (i, v) in t.vals.iter().enumerate() { if i > 0 { o.push(','); } o.push_str("{\"name\":"); qs(v, o); o.push('}'); } o.push(']') } else { o.push_str("null") }
        o.push_str(",\"possibleTypes\":"); if let K::Ifc | K::Uni = t.k { o.push('['); for (i, v) in t.poss.iter().enumerate() { if i > 0 { o.push(','); } o.push_str("{\"name\":"); qs(v, o); o.push('}'); } o.push(']') } else { o.push_str("null") }
        o.push('}');
    }
    /// The runtime object types of a composite type.
    pub fn runtime(&self, n: &str) -> Vec<String> { match self.get(n) { Some(t) if t.k == K::Obj => vec![t.name.clone()], Some(t) => t.poss.clone(), None => vec![] } }
    pub fn covers(&self, n: &str, obj: &str) -> bool { match self.get(n) { Some(t) if t.k == K::Obj => t.name == obj, Some(t) => t.poss.iter().any(|p| p == obj), None => false } }
    pub fn field(&self, ty: &str, f: &str) -> Option<&F> { self.get(ty).and_then(|t| t.fields.iter().find(|x| x.name == f)) }
    /// GraphQL's CollectFields for one runtime type: response key -> (field name, merged sub-selections).
    pub fn collect<'a>(&self, sels: &[&'a Sel], obj: &str, frags: &'a [Doc], out: &mut Vec<(String, String, Vec<&'a Sel>)>) {
        for s in sels {
            match s {
                Sel::Field { key, name, subs } => match out.iter_mut().find(|o| o.0 == *key) { Some(o) => o.2.extend(subs.iter()), None => out.push((key.clone(), name.clone(), subs.iter().collect())) },
                Sel::Inline { on, subs } => if self.covers(on, obj) { let v: Vec<&Sel> = subs.iter().collect(); self.collect(&v, obj, frags, out) },
                Sel::Spread { name } => { let d = frags.iter().find(|d| d.name == *name).expect("model: fragment"); if self.covers(&d.on, obj) { let v: Vec<&Sel> = d.sels.iter().collect(); self.collect(&v, obj, frags, out) } }
            }
        }
    }
    pub fn shape(&self, named: &str, subs: &[&Sel], frags: &[Doc], cfg: &Cfg) -> Vec<C> {
        match self.get(named) {
            None => vec![match named { "Int" | "Float" => C::Num, "Boolean" => C::Bool, _ => C::Str }],
            Some(t) => match t.k {
                K::Sca => vec![match &t.name[..] { "Int" | "Float" => C::Num, "Boolean" => C::Bool, "String" | "ID" => C::Str, _ => match &cfg.scalars { None => C::Any, Some(p) => { let mut s = p.clone(); s.push_str(named); C::Name(s) } } }],
                K::Enum | K::Inp => vec![C::Name(named.to_string())],
                _ => self.runtime(named).iter().map(|o| {
                    let mut f = vec![]; self.collect(subs, o, frags, &mut f);
                    C::Obj(f.into_iter().map(|(key, name, subs)| {
                        if name == "__typename" { return (key, vec![C::Lit(o.clone())]); }
                        let fd = self.field(o, &name).or_else(|| self.field(named, &name)).expect("model: field");
                        let b = self.shape(&fd.ty.name, &subs, frags, cfg);
                        (key, wrap(&fd.ty.w, b))
                    }).collect())
                }).collect(),
            },
        }
    }
    pub fn data(&self, d: &Doc, frags: &[Doc], cfg: &Cfg) -> Vec<C> { let v: Vec<&Sel> = d.sels.iter().collect(); self.shape(&d.on, &v, frags, cfg) }
    /// Enums and inputs mentioned by the data type of d (through its own and imported selections) and its variables.
    pub fn mentioned(&self, d: &Doc, frags: &[Doc]) -> Vec<String> {
        let mut v = vec![];
        fn go(s: &Schema, c: &[C], v: &mut Vec<String>) { for x in c { match x { C::Name(n) => if let K::Enum = s.kind(n) { if s.get(n).is_some() && !v.iter().any(|y| y == n) { v.push(n.clone()) } }, C::Arr(a) => go(s, a, v), C::Obj(o) => for (_, t) in o { go(s, t, v) }, _ => {} } } }
        go(self, &self.data(d, frags, &Cfg::default()), &mut v);
        for (_, t) in &d.vars { if let K::Enum | K::Inp = self.kind(&t.name) { if !v.iter().any(|y| *y == t.name) { v.push(t.name.clone()); } } }
        v
    }
    /// Closure over input fields.
    pub fn closure(&self, roots: &[String]) -> Vec<String> {
        let mut v: Vec<String> = vec![]; let mut todo: Vec<String> = roots.to_vec();
        while let Some(n) = todo.pop() { if v.iter().any(|x| *x == n) { continue; } if let Some(t) = self.get(&n) { if t.k == K::Inp { for f in &t.fields { if self.get(&f.ty.name).is_some() { if let K::Inp | K::Enum = self.kind(&f.ty.name) { todo.push(f.ty.name.clone()); } } } } } v.push(n); }
        v
    }
}
pub fn kname(k: K) -> &'static str { match k { K::Obj => "OBJECT", K::Ifc => "INTERFACE", K::Uni => "UNION", K::Enum => "ENUM", K::Inp => "INPUT_OBJECT", K::Sca => "SCALAR" } }
pub fn wrap(w: &[W], base: Vec<C>) -> Vec<C> {
    let (nn, r) = match w.first() { Some(W::N) => (true, &w[1..]), _ => (false, w) };
    let mut v = match r.first() { Some(W::L) => vec![C::Arr(wrap(&r[1..], base))], _ => base };
    if !nn { v.push(C::Null); }
    v
}
/// Wrappers chosen level by level: up to `max` list levels, each level and the element nullable or not.
pub fn choose_wraps(l: &str, max: u64) -> Vec<W> {
    let n = crate::ch(l, max + 1); let mut w = vec![];
    for k in 0..=n { if crate::yes(l) { w.push(W::N); } if k < n { w.push(W::L); } }
    w
}

// ---- documents ----
fn sels(l: &mut Lx) -> Vec<Sel> {
    let mut v = vec![];
    if !l.eat(b'{') { return v; }
    while !l.eat(b'}') {
        if l.eats(b"...") {
            let n = l.id();
            if n == "on" { let on = l.id(); v.push(Sel::Inline { on, subs: sels(l) }); } else { v.push(Sel::Spread { name: n }); }
        } else {
            let a = l.id(); let (key, name) = if l.eat(b':') { let n = l.id(); (a, n) } else { (a.clone(), a) };
            if l.is(b'(') { while !l.eat(b')') { l.i += 1; } }
            v.push(Sel::Field { key, name, subs: sels(l) });
        }
    }
    v
}
pub fn doc(s: &str) -> Doc {
    let mut l = Lx::new(s);
    let k = match &l.id()[..] { "query" => OpK::Query, "mutation" => OpK::Mutation, "subscription" => OpK::Subscription, "fragment" => OpK::Fragment, x => panic!("model: {}", x) };
    let name = if l.is(b'{') || l.is(b'(') { match k { OpK::Query => "Query", OpK::Mutation => "Mutation", OpK::Subscription => "Subscription", OpK::Fragment => "" }.to_string() } else { l.id() };
    let on = match k { OpK::Query | OpK::Subscription => "Query".to_string(), OpK::Mutation => "Mutation".to_string(), OpK::Fragment => { l.id(); l.id() } };
    let mut vars = vec![];
    if l.eat(b'(') { while !l.eat(b')') { if !l.eat(b'$') { panic!("model: $") } let n = l.id(); if !l.eat(b':') { panic!("model: :") } let ty = l.tref(); if l.eat(b'=') { while !l.is(b'$') && !l.is(b')') { l.i += 1; } } vars.push((n, ty)); } }
    let sels = sels(&mut l);
    Doc { k, name, on, vars, sels }
}

// ---- views of a data type, so that each property looks at its own aspect only ----
/// Keys and __typename literals only: leaf types and wrappers erased.
pub fn keys_only(c: &[C]) -> Vec<C> { let v = strip(c); v.into_iter().map(|x| match x { C::Obj(o) => C::Obj(o.into_iter().map(|(k, t)| (k, keys_only(&t))).collect()), C::Lit(l) => C::Lit(l), _ => C::Any }).collect() }
fn strip(c: &[C]) -> Vec<C> { let mut v = vec![]; for x in c { match x { C::Null => {} C::Arr(a) => v.extend(strip(a)), x => v.push(x.clone()) } } v }
/// Wrappers only: what is wrapped is erased to `any` when it is a leaf.
pub fn wraps_only(c: &[C]) -> Vec<C> { c.iter().map(|x| match x { C::Arr(a) => C::Arr(wraps_only(a)), C::Obj(o) => C::Obj(o.iter().map(|(k, t)| (k.clone(), wraps_only(t))).collect()), C::Null => C::Null, _ => C::Any }).collect() }
/// Leaf types only: null and list levels erased.
pub fn leaves_only(c: &[C]) -> Vec<C> { strip(c).into_iter().map(|x| match x { C::Obj(o) => C::Obj(o.into_iter().map(|(k, t)| (k, leaves_only(&t))).collect()), x => x }).collect() }
