//! Structural reader of the generated TypeScript, and the canonical form in which data types are compared.
#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Null, Str, Num, Bool, Any, Never, Name(String), Lit(String), Arr(Box<Ty>), Un(Vec<Ty>), Obj(Vec<Prop>) }
#[derive(Clone, PartialEq, Debug)]
pub struct Prop { pub key: String, pub opt: bool, pub ro: bool, pub ty: Ty, pub doc: Option<String> }
#[derive(Default, Debug)]
pub struct Module { pub imports: Vec<(Vec<String>, String)>, pub types: Vec<(String, Ty)>, pub enums: Vec<(String, Vec<(String, String)>, Option<String>)>, pub decls: Vec<(String, String, Vec<String>)>, pub default: Option<String>, pub dangling: u32 }

struct P<'a> { b: &'a [u8], i: usize, doc: Option<String>, dangling: u32 }
type R<T> = Result<T, &'static str>;
fn idc(c: u8) -> bool { c == b'_' || c == b'$' || c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c >= b'0' && c <= b'9' || c >= 128 }
fn st(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
impl<'a> P<'a> {
    fn c(&self) -> u8 { if self.i < self.b.len() { self.b[self.i] } else { 0 } }
    /// Blanks and comments; the last block comment is kept as the documentation of what follows.
    fn ws(&mut self) -> R<()> {
        loop {
            if self.i >= self.b.len() { return Ok(()); }
            let c = self.b[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; continue; }
            if c == b'/' && self.i + 1 < self.b.len() && self.b[self.i + 1] == b'/' { while self.i < self.b.len() && self.b[self.i] != b'\n' { self.i += 1; } continue; }
            if c == b'/' && self.i + 1 < self.b.len() && self.b[self.i + 1] == b'*' {
                let s = self.i; let mut j = s + 2;
                loop { if j + 1 >= self.b.len() { return Err("unterminated comment"); } if self.b[j] == b'*' && self.b[j + 1] == b'/' { break; } j += 1; }
                if self.doc.is_some() { self.dangling += 1; }
                self.doc = if self.b[s + 2] == b'*' { Some(st(&self.b[s + 3..j])) } else { None };
                self.i = j + 2; continue;
            }
            return Ok(());
        }
    }
    fn id(&mut self) -> R<String> { self.ws()?; let s = self.i; while self.i < self.b.len() && idc(self.b[self.i]) { self.i += 1; } if s == self.i { return Err("name expected"); } Ok(st(&self.b[s..self.i])) }
    fn eat(&mut self, k: &str) -> R<bool> { self.ws()?; let k = k.as_bytes(); if self.i + k.len() > self.b.len() { return Ok(false); } for (n, c) in k.iter().enumerate() { if self.b[self.i + n] != *c { return Ok(false); } } self.i += k.len(); Ok(true) }
    fn word(&mut self, k: &str) -> R<bool> { let s = self.i; if self.eat(k)? && !idc(self.c()) { Ok(true) } else { self.i = s; Ok(false) } }
    fn want(&mut self, k: &'static str) -> R<()> { if self.eat(k)? { Ok(()) } else { Err(k) } }
    fn string(&mut self) -> R<String> { self.ws()?; let q = self.c(); if q != b'"' && q != b'\'' { return Err("string expected"); } self.i += 1; let s = self.i; while self.c() != q { if self.i >= self.b.len() || self.b[self.i] == b'\n' { return Err("unterminated string"); } if self.b[self.i] == b'\\' { self.i += 1; } self.i += 1; } let r = st(&self.b[s..self.i]); self.i += 1; Ok(r) }
    fn ty(&mut self) -> R<Ty> {
        let _ = self.eat("|")?;
        let mut v = vec![self.post()?];
        while self.eat("|")? { v.push(self.post()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ty::Un(v) })
    }
    fn post(&mut self) -> R<Ty> {
        self.ws()?;
        let mut t = match self.c() {
            b'(' => { self.i += 1; let t = self.ty()?; self.want(")")?; t }
            b'"' => Ty::Lit(self.string()?),
            b'{' => self.obj()?,
            _ => { let n = self.id()?; if n.as_bytes()[0] >= b'0' && n.as_bytes()[0] <= b'9' { return Err("name expected"); } match &n[..] { "null" => Ty::Null, "string" => Ty::Str, "number" => Ty::Num, "boolean" => Ty::Bool, "any" => Ty::Any, "never" => Ty::Never, _ => Ty::Name(n) } }
        };
        while self.eat("[")? { self.want("]")?; t = Ty::Arr(Box::new(t)); }
        Ok(t)
    }
    fn obj(&mut self) -> R<Ty> {
        self.want("{")?;
        let mut v = vec![];
        loop {
            self.ws()?; if self.c() == b'}' { if self.doc.take().is_some() { self.dangling += 1; } self.i += 1; return Ok(Ty::Obj(v)); }
            let doc = self.doc.take();
            let mut key = if self.c() == b'"' { self.string()? } else { self.id()? };
            let mut ro = false;
            self.ws()?;
            if key == "readonly" && self.c() != b':' && self.c() != b'?' { ro = true; key = if self.c() == b'"' { self.string()? } else { self.id()? }; }
            let opt = self.eat("?")?;
            self.want(":")?;
            let ty = self.ty()?;
            if !self.eat(";")? { let _ = self.eat(",")?; }
            v.push(Prop { key, opt, ro, ty, doc });
        }
    }
}
pub fn parse(src: &[u8]) -> R<Module> {
    let mut p = P { b: src, i: 0, doc: None, dangling: 0 };
    let mut m = Module::default();
    loop {
        p.ws()?;
        if p.i >= p.b.len() { break; }
        let doc = p.doc.take();
        if p.word("import")? {
            let _ = p.word("type")?; p.want("{")?;
            let mut v = vec![];
            loop { p.ws()?; if p.eat("}")? { break; } v.push(p.id()?); let _ = p.eat(",")?; }
            if !p.word("from")? { return Err("from"); }
            m.imports.push((v, p.string()?)); p.want(";")?;
        } else if p.word("export")? {
            if p.word("type")? { let n = p.id()?; p.want("=")?; let t = p.ty()?; p.want(";")?; if doc.is_some() { p.dangling += 1; } m.types.push((n, t)); }
            else if p.word("enum")? {
                let n = p.id()?; p.want("{")?; let mut v = vec![];
                loop { p.ws()?; if p.eat("}")? { break; } let k = p.id()?; p.want("=")?; v.push((k, p.string()?)); let _ = p.eat(",")?; }
                m.enums.push((n, v, doc));
            } else if p.word("default")? { let n = p.id()?; p.want(";")?; if m.default.is_some() { return Err("two default exports"); } m.default = Some(n); }
            else { return Err("unknown export"); }
        } else if p.word("declare")? {
            if !p.word("const")? { return Err("declare const"); }
            let n = p.id()?; p.want(":")?; let q = p.id()?; let mut a = vec![];
            if p.eat("<")? { loop { a.push(p.id()?); if p.eat(",")? { continue; } p.want(">")?; break; } }
            p.want(";")?; m.decls.push((n, q, a));
        } else { return Err("unknown statement"); }
    }
    m.dangling = p.dangling + p.doc.is_some() as u32;
    Ok(m)
}

// ---- canonical data types: sets of alternatives, object alternatives split per __typename literal ----
#[derive(Clone, Debug)]
pub enum C { Null, Str, Num, Bool, Any, Name(String), Lit(String), Arr(Vec<C>), Obj(Vec<(String, Vec<C>)>) }
pub fn same(a: &C, b: &C) -> bool {
    match (a, b) {
        (C::Null, C::Null) | (C::Str, C::Str) | (C::Num, C::Num) | (C::Bool, C::Bool) | (C::Any, C::Any) => true,
        (C::Name(x), C::Name(y)) | (C::Lit(x), C::Lit(y)) => x == y,
        (C::Arr(x), C::Arr(y)) => eqset(x, y),
        (C::Obj(x), C::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, t)| y.iter().any(|(l, u)| k == l && eqset(t, u))),
        _ => false,
    }
}
pub fn eqset(a: &[C], b: &[C]) -> bool { a.iter().all(|x| b.iter().any(|y| same(x, y))) && b.iter().all(|x| a.iter().any(|y| same(x, y))) }
/// Object alternatives whose only difference is which literal `__typename` has, listed one by one.
pub fn split(o: Vec<(String, Vec<C>)>) -> Vec<C> {
    let lits: Vec<usize> = (0..o.len()).filter(|&i| o[i].1.len() > 1 && o[i].1.iter().all(|c| matches!(c, C::Lit(_)))).collect();
    if lits.is_empty() { return vec![C::Obj(o)]; }
    let all = o[lits[0]].1.clone();
    if lits.iter().any(|&i| !eqset(&o[i].1, &all)) { return vec![C::Obj(o)]; }
    all.into_iter().map(|l| { let mut p = o.clone(); for &i in &lits { p[i].1 = vec![l.clone()]; } C::Obj(p) }).collect()
}
impl Module {
    pub fn ty(&self, n: &str) -> Option<&Ty> { self.types.iter().find(|t| t.0 == n).map(|t| &t.1) }
    pub fn canon(&self, t: &Ty, fuel: u32) -> Vec<C> {
        if fuel == 0 { return vec![C::Name("<recursive>".into())]; }
        match t {
            Ty::Null => vec![C::Null], Ty::Str => vec![C::Str], Ty::Num => vec![C::Num], Ty::Bool => vec![C::Bool], Ty::Any => vec![C::Any], Ty::Never => vec![], Ty::Lit(s) => vec![C::Lit(s.clone())],
            Ty::Name(n) => match self.ty(n) { Some(t) => self.canon(t, fuel - 1), None => vec![C::Name(n.clone())] },
            Ty::Arr(t) => vec![C::Arr(self.canon(t, fuel - 1))],
            Ty::Un(v) => v.iter().flat_map(|t| self.canon(t, fuel)).collect(),
            Ty::Obj(v) => split(v.iter().map(|p| (p.key.clone(), { let mut c = self.canon(&p.ty, fuel - 1); if p.opt { c.push(C::Name("undefined".into())); } c })).collect()),
        }
    }
    /// Every name used in a type of this module.
    pub fn names(&self) -> Vec<String> { let mut v = vec![]; for t in &self.types { names(&t.1, &mut v); } for d in &self.decls { for a in &d.2 { if a != "never" { v.push(a.clone()); } } } v }
    pub fn imported(&self, n: &str) -> usize { self.imports.iter().map(|i| i.0.iter().filter(|x| *x == n).count()).sum() }
    pub fn declared(&self, n: &str) -> usize { self.types.iter().filter(|t| t.0 == n).count() + self.enums.iter().filter(|t| t.0 == n).count() }
}
pub fn names(t: &Ty, v: &mut Vec<String>) { match t { Ty::Name(n) => v.push(n.clone()), Ty::Arr(t) => names(t, v), Ty::Un(a) => for t in a { names(t, v) }, Ty::Obj(a) => for p in a { names(&p.ty, v) }, _ => {} } }
pub fn show(c: &[C]) -> String {
    let mut s = String::new();
    for (i, x) in c.iter().enumerate() {
        if i > 0 { s += "|"; }
        match x { C::Null => s += "null", C::Str => s += "string", C::Num => s += "number", C::Bool => s += "boolean", C::Any => s += "any", C::Name(n) => s += n, C::Lit(n) => { s += "'"; s += n; s += "'" } C::Arr(a) => { s += "("; s += &show(a); s += ")[]" } C::Obj(o) => { s += "{"; for (k, t) in o { s += k; s += ":"; s += &show(t); s += ";" } s += "}" } }
    }
    s
}
