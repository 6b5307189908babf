//! Scenarios about what the generated modules say: one family of inputs per scenario, one oracle per property.
use super::*;
use crate::ts::{Module, Ty};

/// The documents of this run in the order in which their files were generated (files are generated when first opened).
pub static mut DOCS: Vec<(String, Doc)> = Vec::new();
pub fn docs() -> &'static mut Vec<(String, Doc)> { unsafe { &mut DOCS } }
pub fn put_sels(v: &[Sel], o: &mut String) {
    o.push_str("{ ");
    for x in v {
        match x {
            Sel::Field { key, name, subs } => { if key.as_ptr() != name.as_ptr() && !key.is_empty() { o.push_str(key); o.push_str(": "); } o.push_str(name); o.push(' '); if !subs.is_empty() { put_sels(subs, o); } }
            Sel::Inline { on, subs } => { o.push_str("... on "); o.push_str(on); o.push(' '); put_sels(subs, o); }
            Sel::Spread { name } => { o.push_str("..."); o.push_str(name); o.push(' '); }
        }
    }
    o.push_str("} ");
}
fn spreads(v: &[Sel], out: &mut Vec<String>) { for x in v { match x { Sel::Field { subs, .. } | Sel::Inline { subs, .. } => spreads(subs, out), Sel::Spread { name } => if !out.iter().any(|n| n == name) { out.push(name.clone()) } } } }
/// A document's text: imports of the fragments it spreads, then the definition. Field keys equal to the name are written without alias.
pub fn put_doc(d: &Doc) -> String {
    let mut o = String::new();
    let mut im = vec![]; spreads(&d.sels, &mut im);
    for n in im { o.push_str("#import \"./"); o.push_str(&n); o.push_str(".graphql\"\n"); }
    match d.k { OpK::Query => o.push_str("query "), OpK::Mutation => o.push_str("mutation "), OpK::Subscription => o.push_str("subscription "), OpK::Fragment => o.push_str("fragment ") }
    o.push_str(&d.name);
    if d.k == OpK::Fragment { o.push_str(" on "); o.push_str(&d.on); }
    if !d.vars.is_empty() { o.push('('); for (n, t) in &d.vars { o.push('$'); o.push_str(n); o.push_str(": "); o.push_str(&t.text()); o.push(' '); } o.push(')'); }
    o.push(' ');
    put_sels(&d.sels, &mut o);
    o
}
/// A field selection; `key` None: no alias.
pub fn fld(key: Option<String>, name: String, subs: Vec<Sel>) -> Sel { match key { Some(key) => Sel::Field { key, name, subs }, None => Sel::Field { key: name.clone(), name, subs } } }
pub fn leaf(n: &str) -> Sel { fld(None, n.to_string(), vec![]) }
fn put_key(v: &mut Vec<Sel>) { for x in v { match x { Sel::Field { key, name, subs } => { if key == name { *key = name.clone(); } put_key(subs) } Sel::Inline { subs, .. } => put_key(subs), _ => {} } } }
pub fn put_file(path: &str, d: Doc) -> Vec<u8> { let mut t = put_doc(&d); t.push('\n'); docs().push((path.to_string(), d)); t.into_bytes() }
pub fn fixed(path: &str, text: &str) -> Ent { let (p, t) = (path.to_string(), text.to_string()); file(path, Box::new(move || { if !docs().iter().any(|d| d.0 == p) { docs().push((p.clone(), doc(&t))); } t.as_bytes().to_vec() })) }

pub const S1: &str = "type Query { a: Int! b: [String] p: D q: [A!]! r: F! }
interface D = A|B|C { a: Int! b: [ID!] p: D q: [A!]! }
interface E = A|B { a: Int! p: D }
union F = A|C
type A { a: Int! b: [ID!] c: X p: D q: [A!]! }
type B { a: Int! b: [ID!] d: Z! p: D q: [A!]! }
type C { a: Int! b: [ID!] p: D q: [A!]! }
enum X { P Q }
scalar Z
input I { f: Int }";
/// Selections from symbolic slots: field names, fragment types and structure are unknowns.
pub static mut ALIAS: bool = false;
/// Do not judge the fixed fragment files again on every path.
pub static mut SKIP: bool = false;
fn key(c: &str) -> Option<String> { if unsafe { ALIAS } && yes("alias") { Some(c.to_string()) } else { None } }
pub fn slots(l: &str, n: u64, inner: &[u64], sp: &[&str]) -> Vec<Sel> {
    let mut v = vec![];
    for k in 0..n {
        let kinds = if inner.is_empty() { 2 } else { 4 + (!sp.is_empty()) as u64 };
        match ch(l, kinds) {
            0 => v.push(fld(key("k"), cat("", sy("leaf", b'a', b'd')), vec![])),
            1 => v.push(leaf("__typename")),
            2 => { let name = cat("", sy("field", b'p', b'q')); v.push(fld(key("h"), name, slots("sub", inner[0], &inner[1..], sp))) }
            3 => { let on = cat("", sy("on", b'A', b'F')); v.push(Sel::Inline { on, subs: slots("frag", inner[0], &inner[1..], sp) }) }
            _ => v.push(Sel::Spread { name: sp[ch("spread", sp.len() as u64) as usize].to_string() }),
        }
    }
    v
}
/// A selection of a given structure with symbolic names: leaf field L, composite field C, type T.
fn fill(v: &[Sel]) -> Vec<Sel> {
    v.iter().map(|x| match x {
        Sel::Field { key, name, subs } => {
            let n = match &name[..] { "L" => cat("", sy("leaf", b'a', b'd')), "C" => cat("", sy("field", b'p', b'q')), _ => name.clone() };
            let k = if key == name { None } else { Some(key.clone()) };
            fld(k, n, fill(subs))
        }
        Sel::Inline { on, subs } => { let on = if on == "T" { cat("", sy("on", b'A', b'F')) } else { on.clone() }; Sel::Inline { on, subs: fill(subs) } }
        Sel::Spread { name } => Sel::Spread { name: name.clone() },
    }).collect()
}
const SKEL: [&str; 12] = [
    "{ ... on T { C { L } } C { L } }", "{ C { ... on T { L } L } L }", "{ ... on T { ... on T { L } L } L }", "{ h: C { L } ... on T { h: C { L } } }",
    "{ C { C { ... on T { L } } } }", "{ __typename C { __typename ... on T { L } } }", "{ ...Fa ... on T { ...Fb L } }", "{ C { ... on T { C { L } } C { L } } }",
    "{ C { ... on T { L } ... on T { L } L } }", "{ ... on T { C { L } } ... on T { C { L } } ... on T { L } }", "{ C { ... on T { C { ... on T { L } } } C { L } } }", "{ C { L C { L C { L ... on T { L } } } } }",
];
fn skeletons(prop: u64, from: u64, n: u64) {
    unsafe { SKIP = true; }
    let s = Schema::sdl(S1);
    let mut e = frag_ents();
    e.push(file("q.graphql", Box::new(move || {
        let mut t = String::from("fragment Q on D "); t.push_str(SKEL[(from + ch("skeleton", n)) as usize]);
        let on = cat("", sy("root", b'A', b'F'));
        put_file("q.graphql", Doc { k: OpK::Fragment, name: "Q".into(), on, vars: vec![], sels: fill(&doc(&t).sels) })
    })));
    scen(prop, s, e, &[], Cfg::default(), true)
}
/// Is the selection valid on type `ty`? (fields exist, leaf / composite selections match, conditions name composite types)
pub fn valid(s: &Schema, ty: &str, v: &[Sel]) -> bool {
    v.iter().all(|x| match x {
        Sel::Field { name, subs, .. } => if name == "__typename" { subs.is_empty() } else { match s.field(ty, name) { None => false, Some(f) => match s.kind(&f.ty.name) { K::Obj | K::Ifc | K::Uni => !subs.is_empty() && valid(s, &f.ty.name, subs), _ => subs.is_empty() } } },
        Sel::Inline { on, subs } => composite(s, on) && valid(s, on, subs),
        Sel::Spread { .. } => true,
    })
}
/// Can the selection merge? (one response key never stands for two fields of one runtime type)
pub fn mergeable(s: &Schema, ty: &str, subs: &[&Sel], frags: &[Doc]) -> bool {
    fn keys<'a>(s: &Schema, o: &str, v: &[&'a Sel], frags: &'a [Doc], out: &mut Vec<(&'a str, &'a str)>) -> bool {
        v.iter().all(|x| match x {
            Sel::Field { key, name, .. } => match out.iter().find(|k| k.0 == key) { Some(k) => k.1 == name, None => { out.push((key, name)); true } },
            Sel::Inline { on, subs } => !s.covers(on, o) || { let v: Vec<&Sel> = subs.iter().collect(); keys(s, o, &v, frags, out) },
            Sel::Spread { name } => { let d = frags.iter().find(|d| d.name == *name).expect("model: fragment"); !s.covers(&d.on, o) || { let v: Vec<&Sel> = d.sels.iter().collect(); keys(s, o, &v, frags, out) } }
        })
    }
    s.runtime(ty).iter().all(|o| keys(s, o, subs, frags, &mut vec![]) && {
        let mut f = vec![]; s.collect(subs, o, frags, &mut f);
        f.iter().all(|(_, name, subs)| subs.is_empty() || match s.field(o, name) { Some(f) => mergeable(s, &f.ty.name, subs, frags), None => true })
    })
}
pub fn composite(s: &Schema, n: &str) -> bool { match s.get(n) { Some(t) => matches!(t.k, K::Obj | K::Ifc | K::Uni), None => false } }
pub const FRAGS: [(&str, &str); 3] = [("Fa.graphql", "fragment Fa on D { a ... on A { c } p { ... on B { d } } }"), ("Fb.graphql", "fragment Fb on A { c q { b } }"), ("Fc.graphql", "fragment Fc on F { __typename ...Fb }")];
pub fn frag_ents() -> Vec<Ent> { vec![fixed(FRAGS[0].0, FRAGS[0].1), fixed(FRAGS[1].0, FRAGS[1].1), fixed_imp(FRAGS[2].0, FRAGS[2].1, "#import \"./Fb.graphql\"\n")] }
fn fixed_imp(path: &str, text: &str, imp: &str) -> Ent { let (p, t, i) = (path.to_string(), text.to_string(), imp.to_string()); file(path, Box::new(move || { if !docs().iter().any(|d| d.0 == p) { docs().push((p.clone(), doc(&t))); } [i.as_bytes(), t.as_bytes()].concat() })) }

pub struct Run { pub s: Schema, pub cfg: Cfg, pub o: Obs, pub globals: String, pub ro: bool, pub module: String, pub docmod: String }
impl Run {
    pub fn frags(&self) -> Vec<Doc> { docs().iter().filter(|d| d.1.k == OpK::Fragment).map(|d| d.1.clone()).collect() }
}
pub fn dts(p: &str) -> String { let mut s = p.to_string(); s.push_str(".d.ts"); s }
fn bad(m: &str, d: &str) { note(d); check(false, m) }
pub fn ensure(c: bool, m: &str, d: &dyn Fn() -> String) { if c { check(true, m) } else { note(&d()); check(false, m) } }
fn what(path: &str, d: &Doc, t: &[u8]) -> String { format!("{}: {}\n{}", path, put_doc(d), unsafe { std::str::from_utf8_unchecked(t) }) }

/// The property's oracle on everything one run produced.
pub fn judge(prop: u64, r: &Run) {
    let frags = r.frags();
    let mut used: Vec<String> = vec![]; let mut compiled = 0;
    for (path, d) in docs().iter() {
        if unsafe { SKIP } && prop != 5 && FRAGS.iter().any(|f| f.0 == path) { continue; }
        let ok = valid(&r.s, &d.on, &d.sels) && composite(&r.s, &d.on) && { let v: Vec<&Sel> = d.sels.iter().collect(); mergeable(&r.s, &d.on, &v, &frags) };
        let out = r.o.file(&dts(path));
        if !ok { continue; }
        compiled += 1;
        for n in r.s.mentioned(d, &frags) { if !used.contains(&n) { used.push(n); } }
        let t = match out { Some(t) => t, None => { bad("valid document not compiled", &format!("{}: {}\n{}", path, put_doc(d), r.o.text())); return } };
        let m = match ts::parse(t) { Ok(m) => m, Err(e) => { bad("generated module is not well-formed", &format!("{} {}", e, what(path, d, t))); return } };
        match prop {
            1 | 2 | 3 => data(prop, r, path, d, t, &m, &frags),
            4 => variables(r, path, d, t, &m),
            5 => imports(r, path, d, t, &m, &frags),
            20 => closed(r, path, d, t, &m, &frags),
            21 => readonly(r, path, d, t, &m),
            _ => {}
        }
    }
    if compiled > 0 { cover("compiled a document"); }
    if compiled > 4 { cover("all documents valid"); }
    if let 5 | 6 | 20 | 21 = prop { globals(prop, r, &used); }
}
fn data(prop: u64, r: &Run, path: &str, d: &Doc, t: &[u8], m: &Module, frags: &[Doc]) {
    let ty = match m.ty(&d.name) { Some(t) => t, None => { bad("data type not declared", &what(path, d, t)); return } };
    let got = m.canon(ty, 24); let want = r.s.data(d, frags, &r.cfg);
    let (got, want) = match prop { 1 => (keys_only(&got), keys_only(&want)), 2 => (wraps_only(&got), wraps_only(&want)), _ => (leaves_only(&got), leaves_only(&want)) };
    ensure(ts::eqset(&got, &want), match prop { 1 => "response keys differ from execution", 2 => "nullability or list nesting differs from the schema", _ => "leaf types differ" }, &|| format!("{}\ngot  {}\nwant {}", what(path, d, t), ts::show(&got), ts::show(&want)));
    if prop == 1 { ensure(!dup(ty, m), "a type has two properties of one name", &|| what(path, d, t)); }
}
fn dup(t: &Ty, m: &Module) -> bool { m.types.iter().any(|t| dup_ty(&t.1)) }
pub fn dup_ty(t: &Ty) -> bool { match t { Ty::Obj(v) => (0..v.len()).any(|i| (0..i).any(|j| v[i].key == v[j].key)) || v.iter().any(|p| dup_ty(&p.ty)), Ty::Arr(t) => dup_ty(t), Ty::Un(v) => v.iter().any(dup_ty), _ => false } }
fn leafname(r: &Run, n: &str) -> Vec<C> { r.s.shape(n, &[], &[], &r.cfg) }
fn prop_ok(r: &Run, m: &Module, p: &ts::Prop, t: &TRef) -> bool { ts::eqset(&Module::default().canon(&p.ty, 8), &wrap(&t.w, leafname(r, &t.name))) && p.opt == !matches!(t.w.first(), Some(W::N)) && !p.ro }
fn variables(r: &Run, path: &str, d: &Doc, t: &[u8], m: &Module) {
    let mut vn = d.name.clone(); vn.push_str("Variables");
    let dump = || what(path, d, t);
    match (m.ty(&vn), d.vars.is_empty()) {
        (None, true) => {}
        (None, false) => { bad("Variables type missing", &dump()); return }
        (Some(_), true) => { bad("Variables type of an operation without variables", &dump()); return }
        (Some(Ty::Obj(ps)), false) => {
            ensure(ps.len() == d.vars.len(), "Variables type does not have one property per variable", &dump);
            for (n, vt) in &d.vars {
                let p: Vec<&ts::Prop> = ps.iter().filter(|p| p.key == *n).collect();
                ensure(p.len() == 1, "variable missing from the Variables type", &dump);
                ensure(prop_ok(r, m, p[0], vt), "variable typed wrongly", &|| format!("{}: {}\n{}", n, vt.text(), what(path, d, t)));
                let g = match r.s.kind(&vt.name) { K::Enum | K::Inp => 1, _ => 0 };
                if g == 1 { ensure(m.imported(&vt.name) == 1, "variable's global type not imported", &dump); }
            }
        }
        _ => { bad("Variables type is not an object type", &dump()); return }
    }
    let node = match d.k { OpK::Mutation => "MutationDocumentNode", OpK::Fragment => "FragmentDocumentNode", _ => "QueryDocumentNode" };
    let mut args = vec![d.name.clone()]; if d.k != OpK::Fragment { args.push(if d.vars.is_empty() { "never".into() } else { vn }); }
    ensure(m.decls.len() == 1 && m.decls[0].1 == node && m.decls[0].2 == args, "document annotation wrong", &dump);
    ensure(m.default.as_ref() == Some(&m.decls[0].0), "default export wrong", &dump);
    ensure(m.imports.iter().any(|i| i.1 == r.docmod && i.0.len() == 1 && i.0[0] == node), "document node type not imported from its module", &dump);
}
fn imports(r: &Run, path: &str, d: &Doc, t: &[u8], m: &Module, frags: &[Doc]) {
    let want = r.s.mentioned(d, frags);
    let mut got: Vec<String> = vec![]; let mut from = 0;
    for i in &m.imports { if i.1 == r.module { from += 1; got.extend(i.0.iter().cloned()); } }
    ensure(got.len() == want.len() && want.iter().all(|n| got.contains(n)), "imports from the global types module are not exactly the enums and inputs mentioned", &|| format!("want {:?} got {:?}\n{}", want, got, what(path, d, t)));
    ensure(from <= 1, "two import statements of the global types module", &|| what(path, d, t));
    if !want.is_empty() { cover("imports"); }
}
fn closed(r: &Run, path: &str, d: &Doc, t: &[u8], m: &Module, frags: &[Doc]) {
    for n in m.names() {
        let k = m.declared(&n) + m.imported(&n);
        let custom = match &r.cfg.scalars { Some(p) => r.s.types.iter().any(|t| t.k == K::Sca && { let mut q = p.clone(); q.push_str(&t.name); q == n }), None => false };
        if k == 2 && n == d.name && m.declared(&n) == 1 { bad(&format!("a definition has the name of an imported global type: {} {}", if d.k == OpK::Fragment { "fragment" } else { "operation" }, n), &what(path, d, t)); continue; }
        ensure(if custom { true } else { k == 1 }, "a type name is not declared or imported exactly once", &|| format!("{} x{}\n{}", n, k, what(path, d, t)));
    }
    for (i, (n, _)) in m.types.iter().enumerate() { ensure(!m.types[..i].iter().any(|x| x.0 == *n), "a type is declared twice", &|| format!("{}\n{}", n, what(path, d, t))); }
    for d2 in &m.decls { ensure(m.imported(&d2.1) == 1, "the document node type is not imported exactly once", &|| what(path, d, t)); }
    for t2 in &m.types { ensure(!dup_ty(&t2.1), "a type has two properties of one name", &|| what(path, d, t)); }
}
fn ro_of(t: &Ty, f: &mut dyn FnMut(bool)) { match t { Ty::Obj(v) => for p in v { f(p.ro); ro_of(&p.ty, f) }, Ty::Arr(t) => ro_of(t, f), Ty::Un(v) => for t in v { ro_of(t, f) }, _ => {} } }
fn readonly(r: &Run, path: &str, d: &Doc, t: &[u8], m: &Module) {
    let mut vn = d.name.clone(); vn.push_str("Variables");
    for (n, ty) in &m.types {
        let want = if *n == vn { false } else { r.ro };
        let mut bad = false; ro_of(ty, &mut |x| if x != want { bad = true });
        ensure(!bad, if want { "a property is not readonly" } else { "a property is readonly that must not be" }, &|| format!("{}\n{}", n, what(path, d, t)));
    }
}
pub fn globals(prop: u64, r: &Run, used: &[String]) {
    let want = r.s.closure(used);
    let t = r.o.file(&r.globals);
    let wrote = r.o.written.iter().any(|w| *w == r.globals);
    if want.is_empty() { if prop == 5 { ensure(t.is_none() || !wrote, "global types module written though nothing is used", &|| String::new()); } return; }
    cover("global types");
    let t = match t { Some(t) => t, None => { if prop == 5 { bad("global types module not written", &format!("{:?} {}", want, r.o.text())); } return } };
    let dump = || format!("want {:?}\n{}", want, unsafe { std::str::from_utf8_unchecked(t) });
    let m = match ts::parse(t) { Ok(m) => m, Err(e) => { bad("global types module is not well-formed", &format!("{} {}", e, dump())); return } };
    if prop == 5 {
        for n in &want { ensure(m.declared(n) == 1, "a used enum or input is not declared exactly once in the global types module", &|| format!("{} {}", n, dump())); }
        ensure(m.types.len() + m.enums.len() == want.len(), "the global types module declares something unused", &dump);
    }
    if prop == 6 || prop == 21 { for n in &want {
        let ty = r.s.get(n).unwrap();
        if ty.k == K::Enum {
            let e = match m.enums.iter().find(|e| e.0 == *n) { Some(e) => e, None => { if prop == 6 { bad("enum not declared as enum", &dump()); } continue } };
            if prop == 6 { ensure(e.1.len() == ty.vals.len() && ty.vals.iter().all(|v| e.1.iter().any(|(k, x)| k == v && x == v)), "enum values differ from the schema", &dump); }
        } else {
            let ps = match m.ty(n) { Some(Ty::Obj(p)) => p, _ => { if prop == 6 { bad("input not declared as an object type", &dump()); } continue } };
            if prop == 21 { ensure(ps.iter().all(|p| !p.ro), "an input member is readonly", &dump); continue; }
            ensure(ps.len() == ty.fields.len(), "input fields differ from the schema", &dump);
            for f in &ty.fields { let p: Vec<&ts::Prop> = ps.iter().filter(|p| p.key == f.name).collect(); ensure(p.len() == 1 && prop_ok(r, &m, p[0], &f.ty), "an input field is typed wrongly", &|| format!("{}: {}\n{}", f.name, f.ty.text(), dump())); }
        }
    } }
    if prop == 20 {
        for (n, ty) in &m.types { ensure(!dup_ty(ty), "a type has two properties of one name", &dump); }
        for n in m.names() { let custom = match &r.cfg.scalars { Some(p) => r.s.types.iter().any(|t| t.k == K::Sca && { let mut q = p.clone(); q.push_str(&t.name); q == n }), None => false }; ensure(custom || m.declared(&n) == 1, "a type name is not declared exactly once in the global types module", &|| format!("{}\n{}", n, dump())); }
    }
}
fn finish(prop: u64, s: Schema, fs: &mut Fs, a: &[&str], cfg: Cfg, ro: bool) {
    let o = fs.run(&args(a), &Opts::default());
    let r = Run { s, cfg, o, globals: "graphql-globals.ts".into(), ro, module: "graphql-globals".into(), docmod: "@notarize/qlc-cli/typed-documentnode".into() };
    check(r.o.ended(), "the run did not end normally");
    judge(prop, &r);
}
/// A run over lazily generated documents beside the given schema.
fn scen(prop: u64, s: Schema, mut e: Vec<Ent>, a: &[&str], cfg: Cfg, ro: bool) {
    e.push(bytes("schema.json", s.json()));
    let mut fs = Fs::new(e);
    finish(prop, s, &mut fs, a, cfg, ro);
}
fn whole(path: &'static str, t: &str) -> Ent { fixed(path, t) }
/// Scalar configuration: off, own names, prefixed by a symbolic letter.
fn scalars() -> (Cfg, Vec<String>) {
    match ch("scalars", 3) {
        0 => (Cfg { scalars: None }, vec![]),
        1 => (Cfg { scalars: Some(String::new()) }, vec!["--use-custom-scalars".into()]),
        _ => { let p = cat("P", sy("prefix", b'A', b'Z')); (Cfg { scalars: Some(p.clone()) }, vec!["--use-custom-scalars".into(), "--custom-scalar-prefix".into(), p]) }
    }
}
const WRAPS: &str = "type Query { x: Int y: A z: D u: F e: X w: Z }
interface D = A|B { v: Int }
union F = A|B
type A { v: Int }
type B { v: Int }
enum X { P }
scalar Z";
const KINDS: &str = "type Query { f: Int n: D a: [A!] u: F } interface D = A|B { f: Int n: D } union F = A|B type A { f: Int n: D } type B { f: Int n: D } type Mutation { f: Int } enum X { P Q } scalar Z scalar Y input I { f: Int }";
pub fn go(id: u64) {
    let (prop, k) = (id / 100, id % 100);
    match k {
        // documentation text of symbolic characters
        50..=59 if prop == 14 => documented(k),
        // selections of given structures with symbolic names
        17 => skeletons(prop, 0, 4),
        18 => skeletons(prop, 4, 4),
        19 => skeletons(prop, 8, 4),
        // any selection of symbolic fields on a symbolic root type
        0..=16 => {
            let s = Schema::sdl(S1);
            let (n, inner, sp, al): (u64, &'static [u64], bool, bool) = match k {
                0 => (2, &[1], true, false), 1 => (1, &[2, 1], true, false), 2 => (2, &[2], true, false), 3 => (1, &[1, 1, 1], true, false), 4 => (1, &[3], true, false), 5 => (3, &[1], true, false), 6 => (2, &[1, 1], true, false), 7 => (1, &[2, 2], true, false), 8 => (4, &[], false, false), 9 => (3, &[2], true, false),
                10 => (2, &[1], false, true), 11 => (2, &[1, 1], false, false), 12 => (1, &[2, 1], false, true), 13 => (3, &[1], false, true), 14 => (2, &[2], false, false), 15 => (1, &[2], true, false), 16 => (1, &[1, 1], true, true), _ => (1, &[1], true, false) };
            unsafe { ALIAS = al; SKIP = k != 16; }
            let mut e = frag_ents();
            e.push(file("q.graphql", Box::new(move || put_file("q.graphql", Doc { k: OpK::Fragment, name: "Q".into(), on: cat("", sy("root", b'A', b'F')), vars: vec![], sels: slots("slot", n, inner, if sp { &["Fa", "Fb", "Fc"] } else { &[] }) }))));
            if prop == 21 { let off = yes("disable"); scen(prop, s, e, if off { &["--disable-readonly-types"] } else { &[] }, Cfg::default(), !off) }
            else if prop == 3 { let (cfg, a) = scalars(); let a: Vec<&str> = a.iter().map(|x| &x[..]).collect(); scen(prop, s, e, &a, cfg, true) }
            else { scen(prop, s, e, &[], Cfg::default(), true) }
        }
        // every wrapping of one field of every kind
        20 | 21 | 22 => {
            let mut s = Schema::sdl(WRAPS);
            let f = ch("field", 6) as usize; let w = choose_wraps("wrap", if k == 20 { 3 } else { 5 });
            s.get_mut("Query").fields[f].ty.w = w;
            if k == 22 { let w = choose_wraps("inner", 2); for t in ["D", "A", "B"] { s.get_mut(t).fields[0].ty.w = w.clone(); } }
            let q = match f { 0 => "query Q { x }", 1 => "query Q { y { v } }", 2 => "query Q { z { v ... on A { k: v } } }", 3 => "query Q { u { ... on A { v } } }", 4 => "query Q { k: e }", _ => "query Q { w }" };
            scen(prop, s, vec![whole("q.graphql", q)], &[], Cfg::default(), true);
        }
        // a leaf field whose type is any built-in, an enum, or a scalar with symbolic name
        25 | 26 => {
            let mut s = Schema::sdl(KINDS);
            let n = match ch("leaf", 8) { 0 => "Int".to_string(), 1 => "Float".into(), 2 => "String".into(), 3 => "Boolean".into(), 4 => "ID".into(), 5 => "X".into(), 6 => { let n = cat(&cat("", sy("name", b'A', b'Z')), sy("name", b'A', b'Z')); s.types.push(T { name: n.clone(), k: K::Sca, fields: vec![], poss: vec![], vals: vec![], desc: None }); n } _ => { let n = cat(&cat(&cat("", sy("name", b'A', b'Z')), sy("name", b'a', b'z')), sy("name", b'a', b'z')); s.types.push(T { name: n.clone(), k: K::Sca, fields: vec![], poss: vec![], vals: vec![], desc: None }); n } };
            let w = choose_wraps("wrap", if k == 25 { 0 } else { 1 });
            for t in ["Query", "D", "A", "B"] { let f = &mut s.get_mut(t).fields[0]; f.ty.name = n.clone(); f.ty.w = w.clone(); }
            let (cfg, a) = scalars(); let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
            scen(prop, s, vec![whole("q.graphql", "query Q { f n { k: f ... on A { f } } a { f __typename } u { t: __typename ... on B { f } } }")], &a, cfg, true);
        }
        // one or more variables of any type
        30 | 31 | 32 => {
            let s = Schema::sdl(KINDS);
            let nv = match k { 30 => 1, 31 => 2, _ => 3 };
            let (cfg, a) = if k == 30 { scalars() } else { (Cfg::default(), vec![]) }; let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
            let f = file("q.graphql", Box::new(move || {
                let anon = k != 32 && yes("anonymous");
                let op = ch("op", if anon { 3 } else { 4 });
                let kind = [OpK::Query, OpK::Mutation, OpK::Subscription, OpK::Fragment][op as usize];
                let mut d = Doc { k: kind, name: if anon { ["Query", "Mutation", "Subscription"][op as usize].into() } else { cat("N", sy("opname", b'a', b'z')) }, on: ["Query", "Mutation", "Query", "A"][op as usize].into(), vars: vec![], sels: vec![leaf("f")] };
                if op < 3 {
                    let n = if nv == 1 { ch("vars", 2) } else { nv };
                    for j in 0..n {
                        let name = cat("v", sy("var", b'a', b'c'));
                        rt::assume(d.vars.iter().all(|v| v.0 != name));
                        let ty = ["Int", "ID", "Float", "String", "Boolean", "X", "I", "Z"][if k == 30 { ch("type", 8) } else if k == 31 { [0, 5, 6, 7][ch("type", 4) as usize] } else { [0, 5, 6][ch("type", 3) as usize] } as usize];
                        let w = if k == 32 { choose_wraps("wrap", 0) } else { choose_wraps("wrap", 1) };
                        d.vars.push((name, TRef { w, name: ty.into() }));
                    }
                }
                let mut t = put_doc(&d).into_bytes();
                if anon { // written without a name
                    let mut u = match kind { OpK::Query => b"query".to_vec(), OpK::Mutation => b"mutation".to_vec(), _ => b"subscription".to_vec() };
                    let skip = u.len() + 1 + d.name.len();
                    u.extend_from_slice(&t[skip..]); t = u;
                }
                docs().push(("q.graphql".into(), d)); t.push(b'\n'); t
            }));
            scen(prop, s, vec![f], &a, cfg, true);
        }
        // input objects referring to each other in every way
        40 | 41 | 42 => {
            let mut s = Schema::sdl("type Query { f: Int x: X n: D } interface D = A|B { y: Y } type A { y: Y } type B { y: Y } enum X { P } enum Y { Q } type C { y: Y } enum U { R } scalar Z input I { a: Int b: Int } input J { a: Int b: Int } input K { a: Int }");
            let names = ["Int", "I", "J", "K", "X", "Y", "Z"];
            let nt = if k == 40 { 5 } else { 7 };
            let fs = [("I", 0), ("I", 1), ("J", 0), ("J", 1), ("K", 0)];
            for (j, (t, f)) in fs.iter().enumerate() { if k == 40 && j == 1 || k == 42 && j == 3 { continue; } let n = names[ch("ref", nt) as usize]; let ty = &mut s.get_mut(t).fields[*f].ty; ty.name = n.into(); if j == 2 { ty.w = vec![W::N, W::L, W::N]; } }
            let v = ch("use", 6); let q = ["query Q { f }", "query Q($v: I) { f n { ... on C { y } } }", "query Q($v: [J!]!, $w: X) { f }", "query Q { x }", "query Q($v: K, $w: J) { n { ... on A { y } } }", "fragment Q on Query { k: x n { ... on C { y } } }"][v as usize];
            let mut e = vec![whole("q.graphql", q)];
            if k != 40 { e.push(whole("sub/r.graphql", "fragment R on A { y }")); }
            scen(prop, s, e, &[], Cfg::default(), true);
        }
        // several documents, some of which warn or fail
        43 | 44 => {
            let s = Schema::sdl("type Query { f: Int x: X n: D o: Y @d } interface D = A|B { y: Y f: Int } type A { y: Y f: Int } type B { y: Y w: W f: Int } type C { y: Y } type Mutation { f: Int } enum X { P } enum Y { Q } enum W { R } enum V { P } input I { v: V j: J } input J { i: I }");
            let n = if k == 43 { 2 } else { 3 }; let mut e = vec![];
            for j in 0..n {
                let t = ["", "query Q { x f }", "query Q { o }", "query Q($v: I) { n { f ... on C { y } } }", "mutation Q($v: [J!]) { f }", "fragment Q on D { ... on B { w } ... on C { y } }", "query Q($v: V!) { x n { f ... on A { y } ... on B { k: w } } }", "query Q { x ... on D { f } o }", "query Q { x f { y } }"][ch("doc", 9) as usize];
                if t.is_empty() { continue; }
                e.push(whole(["q.graphql", "sub/r.graphql", "sub/deep/s.graphql"][j], t));
            }
            scen(prop, s, e, &["--show-deprecation-warnings"], Cfg::default(), true);
        }
        // response keys of one or two letters, types of one letter, two levels
        33 => {
            let s = Schema::sdl("type Query { f: N! g: N! d: D! } interface D = A|B { f: N! d: D! x: Int } type A { f: N! d: D! x: Int } type B { f: N! d: D! x: Int } type N { f: N! g: N! d: D! x: Int y: Int }");
            let f = file("q.graphql", Box::new(move || {
                let key = || { let mut k = cat("", sy("key", b'a', b'c')); if yes("long") { k = cat(&k, sy("key", b'a', b'c')); } Some(k) };
                let sub = |l: &str| { let (k1, k2) = (key(), key()); let c = ch(l, 3);
                    let inner = vec![fld(k2, ["f", "d", "f"][c as usize].into(), vec![leaf(if l == "first" { "x" } else { "__typename" })])];
                    fld(k1, ["f", "d", "d"][c as usize].into(), if c == 1 { vec![Sel::Inline { on: cat("", sy("on", b'A', b'B')), subs: inner }] } else { inner }) };
                let (a, b) = (sub("first"), sub("second"));
                put_file("q.graphql", Doc { k: OpK::Query, name: "Q".into(), on: "Query".into(), vars: vec![], sels: vec![a, b] })
            }));
            scen(prop, s, vec![f], &[], Cfg::default(), true);
        }
        // an operation or fragment whose name is one symbolic letter, beside enums, inputs and object types of one letter
        34 => {
            let s = Schema::sdl("type Query { f: Int x: X n: D } interface D = A|B { y: Y } type A { y: Y } type B { y: Y } enum X { P } enum Y { Q } input I { y: Y }");
            let f = file("q.graphql", Box::new(move || {
                let c = ch("doc", 4) as usize;
                let d = doc(["query Q { x }", "query Q($v: I) { f n { ... on A { y } } }", "fragment Q on D { y ... on A { k: y } }", "fragment Q on A { y }"][c]);
                put_file("q.graphql", Doc { name: cat("", sy("name", b'A', b'Z')), ..d })
            }));
            scen(prop, s, vec![f], &[], Cfg::default(), true);
        }
        // fields whose types are narrower in the implementing types than in the interface
        27 | 28 => {
            let s = Schema::sdl("type Query { a: Int! b: [String] p: D q: [A!]! r: F! } interface D = A|B|C { a: Int b: [ID] p: D q: [D] } interface E = A|B { a: Int p: D } union F = A|C type A { a: Int! b: [ID!] c: X p: A! q: [A!]! } type B { a: Int b: [ID!]! d: Z! p: D! q: [B] } type C { a: Int! b: [ID] p: C q: [D!]! } enum X { P Q } scalar Z");
            let inner: &'static [u64] = &[2];
            scen(prop, s, vec![file("q.graphql", Box::new(move || put_file("q.graphql", Doc { k: OpK::Fragment, name: "Q".into(), on: cat("", sy("root", b'A', b'F')), vars: vec![], sels: slots("slot", if k == 27 { 1 } else { 2 }, inner, &[]) })))], &[], Cfg::default(), true);
        }
        // what the object types are called, among them what is appended to the names of generated types
        36 => {
            let t: &'static str = ["other", "Others", "_", "A_f", "Variables", "A_", "__other"][ch("type", 7) as usize];
            let s = Schema::sdl(&"type Query { n: D! u: U! } interface D = A|B|T { f: D! x: Int } union U = A|B|T type A { f: D! x: Int } type B { f: D! x: Int } type T { f: D! x: Int }".replace('T', t));
            let f = file("q.graphql", Box::new(move || {
                let inner = || { let mut v = vec![leaf("x")]; if yes("nested") { v.push(fld(None, "f".into(), vec![leaf("x")])); } v };
                let mut sels = vec![]; if yes("common") { sels.push(leaf("__typename")); }
                for _ in 0..1 + ch("fragments", 2) { sels.push(Sel::Inline { on: ["A", t][ch("on", 2) as usize].into(), subs: inner() }); }
                let c = ch("doc", 3);
                put_file("q.graphql", if c == 2 { Doc { k: OpK::Fragment, name: "Q".into(), on: "D".into(), vars: vec![], sels } } else { Doc { k: OpK::Query, name: "Q".into(), on: "Query".into(), vars: vec![], sels: vec![fld(None, ["n", "u"][c as usize].into(), sels)] } })
            }));
            scen(prop, s, vec![f], &[], Cfg::default(), true);
        }
        // readonly types switched in the config file, on the command line, both or neither
        35 => {
            let s = Schema::sdl(KINDS);
            let conf = ch("config", 4); let cli = yes("flag");
            let mut e = vec![];
            if conf > 0 { e.push(text(".qlcrc.json", ["", "{}", "{\"disableReadonlyTypes\": false}", "{\"disableReadonlyTypes\": true}"][conf as usize])); }
            e.push(whole("q.graphql", ["query Q { f }", "query Q($v: I, $w: [X!]) { f n { k: f ... on A { n { f } } } u { ... on B { f } } }", "mutation Q($v: I) { f }", "fragment Q on D { __typename f n { ... on A { f } } }", "fragment Q on F { ... on A { f } }"][ch("doc", 5) as usize]));
            if yes("other") { e.push(whole("sub/r.graphql", "fragment R on A { f n { ... on B { f } } }")); }
            scen(prop, s, e, if cli { &["--disable-readonly-types"] } else { &[] }, Cfg::default(), !(cli || conf == 3));
        }
        // directives, conditional or not
        50 => {
            let s = Schema::sdl("type Query { a: Int! n: D b: Int } interface D = A|B { c: Int d: Int } type A { c: Int d: Int } type B { c: Int d: Int }");
            let at = ch("where", 3) as usize; let d = ch("directive", 4) as usize;
            let dir = ["@foo", "@foo(x: {y: [1, $b]}) @bar", "@include(if: $b)", "@skip(if: $b)"][d];
            let put = |dir: &str| { let x = |k: usize| if k == at { dir } else { "" }; format!("#import \"f.graphql\"\nquery Q($b: Boolean!) {} {{ b a {} n {{ d ... on A {} {{ c }} ...F {} }} }}", if d < 2 { dir } else { "" }, x(0), x(1), x(2)) };
            let mut fs = Fs::new(vec![bytes("schema.json", s.json()), text("f.graphql", "fragment F on B { c }"), text("q.graphql", &put(dir)), text("p.graphql", &put("").replace("query Q($b: Boolean!) @foo", "query Q($b: Boolean!) "))]);
            let o = fs.run(&args(&[]), &Opts::default());
            check(o.ended(), "the run did not end normally");
            let dump = || format!("{}\n{}", put(dir), o.text());
            let (x, y) = (o.file("q.graphql.d.ts"), o.file("p.graphql.d.ts"));
            ensure(o.code == 0 && x.is_some() && y.is_some(), "a valid document was rejected", &dump);
            if d < 2 { ensure(x == y, "a directive without effect changes the result", &dump); cover("same result"); return; }
            let m = ts::parse(x.unwrap()).expect("not TypeScript");
            let ps = |n: &str| match m.ty(n) { Some(ts::Ty::Obj(p)) => p.iter().map(|p| (p.key.clone(), p.opt)).collect::<Vec<_>>(), _ => vec![] };
            let opt = if at == 0 { ps("Q").iter().any(|p| p.0 == "a" && p.1) } else { m.types.iter().any(|t| t.0 != "Q" && ps(&t.0).iter().any(|p| p.0 == "c" && p.1)) };
            let msg = format!("a field that may be absent is not optional: {} on {}", ["", "", "@include", "@skip"][d], ["a field", "an inline fragment", "a spread"][at]);
            ensure(opt, &msg, &dump);
        }
        // root types that are named otherwise, and a subscription type
        51 => {
            let k = ch("root", 4) as usize;
            let mut s = Schema::sdl(["type Query { a: Int }", "type Query { b: Int } type Mutation { a: Int }", "type Query { b: Int } type Subscription { a: Int }", "type Root { a: Int }"][k]);
            let mut j = s.json();
            if k == 3 { let t = s.json(); let mut at = 0; while &t[at..at + 7] != b"\"types\"" { at += 1; } j = t[..at].to_vec(); j.extend_from_slice(b"\"queryType\":{\"name\":\"Root\"},"); j.extend_from_slice(&t[at..]); }
            let q = ["query Q { a }", "mutation Q { a }", "subscription Q { a }", "query Q { a }"][k];
            let mut fs = Fs::new(vec![bytes("schema.json", j), text("q.graphql", q)]);
            let o = fs.run(&args(&[]), &Opts::default());
            check(o.ended(), "the run did not end normally");
            let msg = format!("a valid document was rejected: {}", ["query", "mutation", "subscription on its own root type", "query on a root type of another name"][k]);
            ensure(o.code == 0 && o.file("q.graphql.d.ts").is_some(), &msg, &|| o.text().to_string());
            cover("same result");
        }
        // two generated names that coincide
        52 => {
            let s = Schema::sdl("type Query { n: A } type A { n: A a: Int b: Int }");
            let mut key = String::from("n"); key = cat(&key, sy("character", b'_', b'z')); key.push('n');
            rt::assume(key.as_bytes()[1] != b'`');
            let f = file("q.graphql", Box::new(move || put_file("q.graphql", Doc { k: OpK::Query, name: "Q".into(), on: "Query".into(), vars: vec![], sels: vec![fld(None, "n".into(), vec![fld(None, "n".into(), vec![leaf("a")])]), fld(Some(key.clone()), "n".into(), vec![leaf("b")])] })));
            scen(prop, s, vec![f], &[], Cfg::default(), true);
        }
        // every wrapping of an input field, all leaf kinds
        45 | 46 => {
            let mut s = Schema::sdl("type Query { f: Int } enum X { P } scalar Z input J { a: Int } input I { b: Int a: Int }");
            let w = choose_wraps("wrap", if k == 45 { 3 } else { 5 });
            let f = &mut s.get_mut("I").fields[0]; f.ty = TRef { w, name: ["Int", "X", "Z", "J", "ID", "Boolean", "Float", "String", "I"][ch("type", 9) as usize].into() };
            if k == 46 { let w = choose_wraps("wrap2", 1); s.get_mut("I").fields[1].ty.w = w; }
            let (cfg, a) = if k == 45 { scalars() } else { (Cfg::default(), vec![]) }; let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
            scen(prop, s, vec![whole("q.graphql", "query Q($v: I) { f }")], &a, cfg, true);
        }
        // symbolic enum values and input field names
        47 | 48 => {
            let mut s = Schema::sdl("type Query { f: X } enum X { P } input I { f: X }");
            let mut vals: Vec<String> = vec![];
            for _ in 0..(if k == 47 { 2 } else { 3 }) { let v = cat(&cat("", sy("value", b'A', b'z')), sy("value", b'0', b'9')); let c = v.as_bytes()[0]; rt::assume(c <= b'Z' || c == b'_' || c >= b'a'); rt::assume(vals.iter().all(|x| *x != v)); vals.push(v); }
            s.get_mut("X").vals = vals;
            let fl = cat("f", sy("field", b'a', b'z')); let fl2 = cat("f", sy("field", b'a', b'z')); rt::assume(fl != fl2);
            let f = s.get("I").unwrap().fields[0].clone();
            s.get_mut("I").fields = vec![F { name: fl, ..f.clone() }, F { name: fl2, ..f }];
            scen(prop, s, vec![whole("q.graphql", "query Q($v: I) { f }")], &[], Cfg::default(), true);
        }
        _ => panic!("no scenario"),
    }
}
/// P14: what is generated parses to exactly the declarations without documentation, and the documentation sits before what it documents.
fn documented(k: u64) {
    let mut s = Schema::sdl("type Query { a: Int! b: D } interface D = A|B { c: X } type A { c: X } type B { c: X } enum X { P Q } input I { g: Int }");
    let n = match k { 50 => 3, 51 => 5, 52 => 4, _ => 7 };
    let place = ch("place", if k == 52 { 2 } else { 4 });
    let dep = if place < 2 { ch("deprecated", 2) == 1 } else { false };
    let mut d: Vec<u8> = vec![b'd'];
    for _ in 0..n { d.push(match if k == 52 { ch("sep", 3) } else { 0 } { 1 => b'\n', 2 => b' ', _ => sy("doc", b'*', b'/') }); }
    d.push(b'e');
    let text = unsafe { String::from_utf8_unchecked(d) };
    match place {
        0 => { let f = &mut s.get_mut("Query").fields[0]; f.desc = Some(text.clone()); f.dep = Some(dep); }
        1 => for t in ["D", "A", "B"] { let f = &mut s.get_mut(t).fields[0]; f.desc = Some(text.clone()); f.dep = Some(dep); }
        2 => s.get_mut("X").desc = Some(text.clone()),
        _ => s.get_mut("I").fields[0].desc = Some(text.clone()),
    }
    let mut fs = Fs::new(vec![bytes("schema.json", s.json()), whole("q.graphql", "query Q($v: I) { a b { ... on A { c } } }")]);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    ensure(o.code == 0, "a documented schema was not compiled", &|| o.text().to_string());
    let (q, g) = match (o.file("q.graphql.d.ts"), o.file("graphql-globals.ts")) { (Some(q), Some(g)) => (q, g), _ => { bad("output missing", o.text()); return } };
    let dump = |t: &[u8]| format!("{}", unsafe { std::str::from_utf8_unchecked(t) });
    let (mq, mg) = match (ts::parse(q), ts::parse(g)) { (Ok(a), Ok(b)) => (a, b), (a, _) => { bad("documentation breaks the declarations", &dump(if a.is_err() { q } else { g })); return } };
    let ty = match mq.ty("Q") { Some(t) => t, None => { bad("data type not declared", &dump(q)); return } };
    let want = s.data(&doc("query Q { a b { ... on A { c } } }"), &[], &Cfg::default());
    ensure(ts::eqset(&mq.canon(ty, 12), &want) && mq.types.len() == 5, "documentation alters a data type", &|| dump(q));
    ensure(mg.types.len() == 1 && mg.enums.len() == 1 && mg.enums[0].1.len() == 2, "documentation alters the global declarations", &|| dump(g));
    let input = match mg.ty("I") { Some(Ty::Obj(p)) if p.len() == 1 && p[0].key == "g" => p[0].clone(), _ => { bad("documentation alters an input", &dump(g)); return } };
    ensure(mq.dangling == 0 && mg.dangling == 0, "a doc comment is not right before what it documents", &|| format!("{}\n{}", dump(q), dump(g)));
    let mut props: Vec<ts::Prop> = vec![]; for t in &mq.types { if let Ty::Obj(p) = &t.1 { props.extend(p.iter().cloned()); } }
    for p in &props {
        let here = place == 0 && p.key == "a" || place == 1 && p.key == "c";
        let dc = p.doc.clone().unwrap_or_default();
        ensure(has(&dc, "@deprecated") == (here && dep), "deprecated tag wrong", &|| dump(q));
        ensure(p.doc.is_some() == here, "documentation missing or misplaced", &|| dump(q));
        if here { ensure(carries(&dc, &text), "documentation text not carried", &|| dump(q)); }
    }
    ensure(mg.enums[0].2.is_some() == (place == 2) && input.doc.is_some() == (place == 3), "documentation missing or misplaced", &|| dump(g));
    if let Some(dc) = &mg.enums[0].2 { ensure(carries(dc, &text), "documentation text not carried", &|| dump(g)); }
    if let Some(dc) = &input.doc { ensure(carries(dc, &text), "documentation text not carried", &|| dump(g)); }
    cover("documented");
}
pub fn has(t: &str, n: &str) -> bool { let (t, n) = (t.as_bytes(), n.as_bytes()); t.len() >= n.len() && (0..=t.len() - n.len()).any(|i| &t[i..i + n.len()] == n) }
/// The comment holds the text's words: everything but blanks, stars and slashes (which may be dropped or added) in order.
fn carries(dc: &str, text: &str) -> bool {
    let f = |t: &str| -> Vec<u8> { t.bytes().filter(|c| !matches!(c, b' ' | b'\n' | b'*' | b'/')).collect() };
    let (a, b) = (f(dc), f(text));
    a.len() >= b.len() && a[..b.len()] == b[..]
}
