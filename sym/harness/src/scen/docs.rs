//! Scenarios about what is reported: invalid documents, positions, counts, imports, warnings, isolation.
use super::*;
use super::types::{docs, dts, ensure, fixed, fld, leaf, put_doc, put_sels, composite, FRAGS, S1};
use crate::out::{self, Msg, Out};

pub fn go(id: u64) {
    match id {
        900..=909 => invalid(id - 900),
        910..=919 => templates(id - 910),
        1000..=1009 => positions(id - 1000),
        1100..=1109 => summary(id - 1100),
        1300..=1349 => imports(id - 1300),
        1700..=1749 => warnings(id - 1700),
        2200..=2249 => isolation(id - 2200),
        _ => panic!("no scenario"),
    }
}
pub fn bare(p: &str) -> &str { let mut p = p; while p.len() > 2 && &p.as_bytes()[..2] == b"./" { p = &p[2..]; } p }
pub fn about<'a>(o: &'a Out, p: &str) -> Vec<&'a Msg> { o.msgs.iter().filter(|m| m.path.as_deref().map_or(false, |x| bare(x) == p)).collect() }
pub fn join(a: &[u8]) -> String { unsafe { String::from_utf8_unchecked(a.to_vec()) } }

// ---- P09 ----
fn any_slots(l: &str, n: u64, inner: &[u64], full: bool) -> Vec<Sel> {
    let mut v = vec![];
    for _ in 0..n {
        let kinds = if inner.is_empty() { if full { 3 } else { 2 } } else { 6 };
        match ch(l, kinds) {
            0 => v.push(fld(None, cat("", sy("leaf", b'a', b'z')), vec![])),
            1 => v.push(if full || inner.is_empty() { Sel::Spread { name: ["Fb", "Nope"][ch("spread", 2) as usize].to_string() } } else { leaf("__typename") }),
            2 if inner.is_empty() => v.push(leaf("__typename")),
            2 => { let name = cat("", sy("field", b'a', b'z')); v.push(fld(None, name, any_slots("sub", inner[0], &inner[1..], full))) }
            3 => { let on = cat("", sy("on", b'A', b'Z')); v.push(Sel::Inline { on, subs: any_slots("frag", inner[0], &inner[1..], full) }) }
            4 => v.push(Sel::Inline { on: String::new(), subs: any_slots("bare", inner[0], &inner[1..], full) }),
            _ => v.push(Sel::Spread { name: ["Fa", "Nope"][ch("spread", 2) as usize].to_string() }),
        }
    }
    v
}
fn ok_sels(s: &Schema, ty: &str, v: &[Sel]) -> bool {
    v.iter().all(|x| match x {
        Sel::Field { name, subs, .. } => if name == "__typename" { subs.is_empty() } else { match s.field(ty, name) { None => false, Some(f) => if composite(s, &f.ty.name) { !subs.is_empty() && ok_sels(s, &f.ty.name, subs) } else { subs.is_empty() } } },
        Sel::Inline { on, subs } => !on.is_empty() && composite(s, on) && ok_sels(s, on, subs),
        Sel::Spread { name } => name != "Nope",
    })
}
fn known(v: &[Sel], out: &mut Vec<Sel>) { for x in v { match x { Sel::Field { subs, .. } | Sel::Inline { subs, .. } => known(subs, out), Sel::Spread { name } => if name != "Nope" { out.push(x.clone()) } } } }
/// The text of a document with imports of the known fragments it spreads only.
fn text_of(d: &Doc) -> String {
    let mut k = vec![]; known(&d.sels, &mut k);
    let mut o = String::new();
    for n in ["Fa", "Fb"] { if k.iter().any(|x| matches!(x, Sel::Spread { name } if name == n)) { o.push_str("#import \"./"); o.push_str(n); o.push_str(".graphql\"\n"); } }
    let d2 = Doc { sels: vec![], ..d.clone() };
    let t = put_doc(&d2); o.push_str(&t[..t.len() - 4]); // without the empty selection
    put_bare(&d.sels, &mut o); o
}
fn put_bare(v: &[Sel], o: &mut String) {
    o.push_str("{ ");
    for x in v { match x {
        Sel::Field { name, subs, .. } => { o.push_str(name); o.push(' '); if !subs.is_empty() { put_bare(subs, o); } }
        Sel::Inline { on, subs } => { o.push_str("... "); if !on.is_empty() { o.push_str("on "); o.push_str(on); o.push(' '); } put_bare(subs, o); }
        Sel::Spread { name } => { o.push_str("..."); o.push_str(name); o.push(' '); }
    } }
    o.push_str("} ");
}
fn invalid(k: u64) {
    let s = Schema::sdl(S1);
    let (n, inner, full): (u64, &'static [u64], bool) = match k { 0 => (1, &[1], true), 1 => (2, &[1], false), 2 => (1, &[1, 1], false), 3 => (1, &[2], false), 5 => (2, &[1], true), 6 => (1, &[1, 1], true), _ => (3, &[], true) };
    // 4: an operation with variables
    let mut e = vec![fixed(FRAGS[0].0, FRAGS[0].1), fixed(FRAGS[1].0, FRAGS[1].1), text("q.graphql.d.ts", "old"), bytes("schema.json", s.json())];
    e.push(file("q.graphql", Box::new(move || {
        let d = if k == 4 {
            let op = ch("op", 3) as usize;
            let mut d = Doc { k: [OpK::Query, OpK::Mutation, OpK::Subscription][op], name: "Q".into(), on: ["Query", "Mutation", "Query"][op].into(), vars: vec![], sels: any_slots("slot", 1, &[], false) };
            let nv = ch("vars", 2); for j in 0..1 + nv { let ty = if yes("known") { ["Int", "X", "I", "Z"][ch("type", 4) as usize].to_string() } else { cat("", sy("type", b'A', b'Z')) }; d.vars.push((cat("v", b'a' + j as u8), TRef { w: choose_wraps("wrap", if nv == 0 { 2 } else { 0 }), name: ty })); }
            d
        } else { Doc { k: OpK::Fragment, name: "Q".into(), on: cat("", sy("root", b'A', b'Z')), vars: vec![], sels: any_slots("slot", n, inner, full) } };
        let mut t = text_of(&d).into_bytes(); t.push(b'\n');
        docs().push(("q.graphql".into(), d)); t
    })));
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let d = match docs().iter().find(|d| d.0 == "q.graphql") { Some(d) => d.1.clone(), None => { ensure(false, "the document was not read", &|| o.text().to_string()); return } };
    let frags: Vec<Doc> = docs().iter().filter(|d| d.0 != "q.graphql").map(|d| d.1.clone()).collect();
    let vars_ok = d.vars.iter().all(|(_, t)| t.w.iter().filter(|w| matches!(w, W::L)).count() < 2 && match s.get(&t.name) { Some(t) => matches!(t.k, K::Enum | K::Inp | K::Sca), None => matches!(&t.name[..], "Int" | "Float" | "ID" | "Boolean" | "String") });
    let ok = (d.k == OpK::Fragment && composite(&s, &d.on) || d.k != OpK::Fragment && s.get(&d.on).is_some()) && ok_sels(&s, &d.on, &d.sels) && vars_ok;
    judge_invalid(&o, &put_doc(&d), ok, ok && { let v: Vec<&Sel> = d.sels.iter().collect(); types::mergeable(&s, &d.on, &v, &frags) });
}
fn judge_invalid(o: &Obs, doc: &str, ok: bool, merge: bool) {
    let wrote = o.written.iter().any(|w| w == "q.graphql.d.ts");
    let dump = || format!("{}\n{}", doc, o.text());
    let p = out::parse(&o.out);
    if !ok {
        cover("invalid document");
        ensure(o.code == 1, "an invalid document did not make the run fail", &dump);
        ensure(p.nerr() > 0, "no error was printed for an invalid document", &dump);
        ensure(!wrote, "output was written for an invalid document", &dump);
    } else if merge {
        cover("valid document");
        ensure(o.code == 0 && wrote && p.nerr() == 0, "a valid document was rejected", &dump);
    }
}
/// Whole-document shapes: bare selection sets, no or several definitions, nesting, what follows the definition.
fn templates(k: u64) {
    let s = Schema::sdl(S1);
    let mut t: Vec<u8> = vec![]; let mut n = 0; let mut ok = true;
    let m = if k == 0 { 2 } else { 3 };
    let pre = ch("pre", 4); t.extend_from_slice([&b""[..], b"# c\n", b"\n\n", b"#import \"./Fb.graphql\"\n"][pre as usize]);
    for j in 0..m {
        let c = ch("def", 8);
        let x: &[u8] = match c { 0 => b"", 1 => b"query Q { a }", 2 => b"{ a }", 3 => b"fragment G on A { c }", 4 => b"mutation { a }", 5 => b"query { a }", 6 => b"query Q { }", _ => b"subscription S { p { a } }" };
        if c > 0 { n += 1; }
        if c == 2 || c == 6 || c == 4 { ok = false; } // no Mutation type in this schema
        t.extend_from_slice(x); t.push(b"\n ,"[ch("sep", 3) as usize]);
    }
    let doc = join(&t);
    let mut fs = Fs::new(vec![fixed(FRAGS[1].0, FRAGS[1].1), bytes("schema.json", s.json()), text("q.graphql.d.ts", "old"), bytes("q.graphql", t)]);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let ok = ok && n == 1;
    judge_invalid(&o, &doc, ok, ok);
}

// ---- P10 ----
struct B { t: Vec<u8> }
impl B {
    fn put(&mut self, s: &str) { self.t.extend_from_slice(s.as_bytes()); }
    fn gap(&mut self, l: &str, n: u64) { match ch(l, n) { 0 => self.put("\n"), 1 => self.put(" \t "), 2 => self.put(" # é }\n, "), 3 => self.put(",#\r\n\r\n\n\n "), 4 => self.put(" a (x: \"é\", y: [1])  "), _ => { self.put("#\t"); let c = sy("white", b'\t', b' '); rt::assume(matches!(c, b'\t' | b'\r' | b'\n' | b' ')); self.t.push(c); self.put("\n"); } } }
    /// 1-based line and character column of what is written next.
    fn pos(&self) -> (u64, u64) { let (mut l, mut c) = (1, 1); let t = &self.t; for i in 0..t.len() { if t[i] == b'\n' && i > 0 && t[i - 1] == b'\r' { continue; } if t[i] == b'\n' || t[i] == b'\r' { l += 1; c = 1; } else if t[i] & 0xc0 != 0x80 { c += 1; } } (l, c) }
}
/// The nth line; lines end at LF, CR LF or CR.
fn line(t: &[u8], n: u64) -> &[u8] {
    let end = |i: usize| { let mut j = i; while j < t.len() && t[j] != b'\n' && t[j] != b'\r' { j += 1; } j };
    let mut i = 0; for _ in 1..n { i = end(i); if i + 1 < t.len() && t[i] == b'\r' && t[i + 1] == b'\n' { i += 1; } i += 1; }
    &t[i..end(i)]
}
#[derive(Clone)]
struct Bad { at: (u64, u64), warning: bool, text: String }
fn item(b: &mut B, kind: u64, out: &mut Vec<Bad>) {
    let mut push = |at, w: bool, t: &str| out.push(Bad { at, warning: w, text: t.into() });
    let alias = |b: &mut B| { let at = b.pos(); if yes("alias") { b.put("k"); b.gap("colon", 2); b.put(": "); } at };
    match kind {
        0 => { let at = alias(b); b.t.push(b'z'); b.t.push(sy("name", b'a', b'z')); push(at, false, "unknown field"); }
        1 => { let at = alias(b); b.put("p"); push(at, false, "expected selection"); }
        2 => { let at = alias(b); b.put("a { a }"); push(at, false, "unexpected selection"); }
        3 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("Nope"); push(at, false, "unknown spread"); }
        4 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("{ a }"); push(at, false, "missing type condition"); }
        5 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("on N"); b.t.push(sy("type", b'a', b'z')); b.put(" { a }"); push(at, false, "failed lookup"); }
        6 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("on X { a }"); push(at, false, "unexpected selection"); }
        7 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("on C { a }"); push(at, true, "over narrowing"); }
        8 => { b.put("..."); b.gap("dots", 3); let at = b.pos(); b.put("Fc"); push(at, true, "over narrowing"); }
        _ => { let at = alias(b); b.put("o"); push(at, true, "use of deprecated"); }
    }
}
/// Messages about imports, in the document or in a file it imports.
fn import_positions() {
    let s = Schema::sdl("type Query { a: Int }");
    let mut want = vec![];
    let mut e = vec![bytes("schema.json", s.json()), text("ok.graphql", "fragment Ok on Query { a }"), text("sub/op.graphql", "query Op { a }"), text("op.graphql", "query Op { a }")];
    let deep = ch("deep", 3);
    let names = ["q.graphql", "f.graphql", "sub/g.graphql"];
    let mut texts = vec![];
    for j in 0..=deep as usize {
        let mut b = B { t: vec![] };
        b.put(["", "\n", "# \u{e9}\r\n \t\n", "#\n#\n#\n#\n\n\n\n\n\n#\n"][ch("lead", if j == 0 { 4 } else { 3 }) as usize]);
        if (j as u64) < deep { b.put("#import \""); b.put(names[j + 1]); b.put("\" # \u{e9}\n"); }
        let c = if j as u64 == deep { 1 + ch("fault", 2) } else { ch("fault", 3) };
        if c > 0 {
            if yes("gap") { b.put("# c\n\n"); }
            let (l, _) = b.pos();
            want.push((j, l, c));
            b.put("#import \""); if c == 1 { b.put("no"); b.t.push(sy("name", b'a', b'z')); b.t.push(b'0' + j as u8); b.put(".graphql"); } else { b.put(["op.graphql", "sub/op.graphql", "./op.graphql"][j]); }
            b.put("\"\n");
        }
        b.put(if j == 0 { "query Q { a }\n" } else { "fragment F on Query { a }\n" });
        let t = b.t.clone(); e.push(bytes(names[j], b.t)); texts.push(t);
    }
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let p = out::parse(&o.out);
    let dump = || { let mut d = String::new(); for t in &texts { d.push_str(&join(t)); d.push_str("---\n"); } d.push_str(o.text()); d };
    for (j, l, c) in &want {
        let m: Vec<&Msg> = p.msgs.iter().filter(|m| m.level != out::WARNING && types::has(&m.text, if *c == 1 { "could not read" } else { "non-fragment" }) && m.path.as_deref().map(bare) == Some(names[*j])).collect();
        ensure(!m.is_empty(), "no message names the file with the faulty import", &dump);
        for m in m {
            ensure(m.line == Some(*l) && m.quoted_no == Some(*l), "the message about an import does not give its line", &dump);
            ensure(m.quoted.as_deref().map_or(false, |q| q.as_bytes() == line(&texts[*j], *l)), "the quoted line is not the import line", &dump);
            ensure(m.col == Some(9) && m.caret == Some(9), "the caret is not under the import path's quote", &dump);
        }
    }
    for m in &p.msgs { if let Some(q) = m.path.as_deref() { ensure(m.line.is_none() || want.iter().any(|w| names[w.0] == bare(q)), "a message names a file without a faulty import", &dump); } }
    cover("reported");
}
fn positions(k: u64) {
    if k == 3 { return import_positions(); }
    let s = Schema::sdl("type Query { a: Int p: D o: Int @d } interface D = A|B { a: Int p: D o: Int @d } type A { a: Int p: D o: Int @d } type B { a: Int p: D o: Int @d } type C { a: Int } enum X { P }");
    let mut b = B { t: vec![] }; let mut want: Vec<Bad> = vec![];
    let lead = if k == 1 { 1 } else { ch("lead", 3) }; b.put("#import \"./Fc.graphql\"\n"); b.put(["", "# é\r\n\t\r\n", "\n\n\n\n\n\n\n\n"][lead as usize]);
    b.put("query Q");
    if k == 2 {
        // variables
        b.gap("paren", 2); b.put("(");
        for j in 0..1 + ch("vars", 2) {
            b.gap("before", 4);
            let c = ch("var", 4);
            let at = b.pos(); b.put("$v"); b.t.push(b'a' + j as u8); b.put(": ");
            // only the first faulty variable is reported
            match c { 0 => { b.put("N"); b.t.push(sy("type", b'a', b'z')); if want.is_empty() { want.push(Bad { at, warning: false, text: "unknown type for variable".into() }) } } 1 => { b.put("[[Int]!]"); if want.is_empty() { want.push(Bad { at, warning: false, text: "variable `v".into() }) } } 2 => { b.put(["A", "[D!]"][ch("output type", 2) as usize]); if want.is_empty() { want.push(Bad { at, warning: false, text: "output type for variable".into() }) } } _ => b.put("Int = 3") }
        }
        b.put(")"); b.gap("after", 2); b.put("{ a }");
    } else {
        if k == 1 { b.put("\n"); } else { b.gap("open", 2); }
        b.put("{ ");
        let deep = if k == 1 { false } else { yes("deep") };
        if deep { b.put("p"); b.gap("inner", 2); b.put("{ "); }
        b.gap("before", if k == 1 { 2 } else { 6 });
        let kind = ch("item", 10);
        item(&mut b, kind, &mut want);
        if k == 1 { b.gap("between", 3); let kind = [0, 3, 5, 7][ch("item2", 4) as usize]; item(&mut b, kind, &mut want); }
        b.put(if yes("same line") { " a" } else { "\n a" });
        if deep { b.put(" }"); }
        b.put(" }");
    }
    b.put("\n");
    let any_err = want.iter().any(|w| !w.warning);
    let t = b.t.clone();
    let mut fs = Fs::new(vec![bytes("schema.json", s.json()), text("Fc.graphql", "fragment Fc on C { a }"), bytes("q.graphql", b.t)]);
    let o = fs.run(&args(&["--show-deprecation-warnings"]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let p = out::parse(&o.out);
    let dump = || format!("{}\n{}", join(&t), o.text());
    ensure(p.msgs.len() == want.len() && !p.stray, "not exactly one message per offending item", &dump);
    ensure(o.code == any_err as u64, "exit status wrong", &dump);
    for w in &want {
        let m: Vec<&Msg> = p.msgs.iter().filter(|m| (m.level == out::WARNING) == w.warning && types::has(&m.text, &w.text) && m.line == Some(w.at.0) && m.col == Some(w.at.1)).collect();
        ensure(m.len() >= 1, "no message with the line and column of the offending item", &|| format!("want {} at {}:{}\n{}", w.text, w.at.0, w.at.1, dump()));
        let m = m[0];
        ensure(m.path.as_deref().map(bare) == Some("q.graphql"), "the message does not name the document", &dump);
        ensure(m.quoted_no == Some(w.at.0) && m.quoted.as_deref().map(|q| q.as_bytes() == line(&t, w.at.0)).unwrap_or(false), "the quoted line is not the offending line", &dump);
        ensure(m.caret == Some(w.at.1), "the caret is not under the offending column", &dump);
    }
    if !want.is_empty() { cover("reported"); }
}

// ---- P11 ----
const T11: [(&str, u64, u64); 13] = [
    ("query Q { a }", 0, 0), ("query Q { z }", 1, 0), ("query Q { z y }", 2, 0), ("query Q { a ... on A { a } }", 0, 1), ("query Q { a ... on A { a } ... on B { a } }", 0, 2), ("query Q { z ... on A { a } }", 1, 1),
    ("query Q { a", 1, 0), ("#import \"nope\"\nquery Q { a }", 1, 0), ("query Q { o }", 0, 1), ("", 1, 0), ("query Q { k: a k: o }", 0, 1), ("query Q { k: a k: x }", 1, 0), ("query Q { r { k: a ... on A { k: b } } }", 1, 0),
];
fn judge_summary(o: &Obs, nerr: Option<u64>, nwarn: Option<u64>) {
    let p = out::parse(&o.out);
    let dump = || o.text().to_string();
    let (e, w) = (p.nerr(), p.nwarn());
    ensure(!p.stray, "something else is printed", &dump);
    ensure(o.code == (e > 0) as u64, "exit status does not follow from the errors reported", &dump);
    ensure(p.errors == if e > 0 { Some((e, e > 1)) } else { None }, "the error summary is wrong", &dump);
    ensure(p.warnings == if w > 0 { Some((w, w > 1)) } else { None }, "the warning summary is wrong", &dump);
    if let Some(n) = nerr { ensure(e == n, "number of errors printed", &|| format!("want {}\n{}", n, dump())); }
    if let Some(n) = nwarn { ensure(w == n, "number of warnings printed", &|| format!("want {}\n{}", n, dump())); }
    if e > 0 { cover("errors"); } if w > 0 { cover("warnings"); } if e == 0 && w == 0 { cover("clean"); }
}
fn summary(k: u64) {
    let s = Schema::sdl("type Query { a: Int o: Int @d x: X r: A } type A { a: Int b: X } type B { a: Int } enum X { P }");
    if k == 5 { return whole_run(s); }
    let mut e = vec![bytes("schema.json", s.json())];
    let (mut ne, mut nw) = (0, 0);
    if k == 0 || k == 1 {
        for j in 0..(if k == 0 { 2 } else { 3 }) { let x = T11[ch("doc", 13) as usize]; ne += x.1; nw += x.2; e.push(text(["a.graphql", "sub/b.graphql", "c.graphql"][j], x.0)); }
    } else if k == 2 {
        // one document with many errors and warnings
        let (a, b) = (ch("errors", 13), ch("warnings", 13)); ne = a; nw = b;
        let mut t = String::from("query Q { a "); for _ in 0..a { t.push_str("zz "); } for _ in 0..b { t.push_str("... on A { a } "); } t.push('}');
        e.push(text("q.graphql", &t));
    } else {
        // symbolic field names: which of them are unknown or deprecated is for the solver
        let n = if k == 3 { 3 } else { 4 }; let mut t = b"query Q { ".to_vec(); let mut names = vec![];
        for _ in 0..n { let c = sy("field", b'a', b'z'); names.push(c); t.push(c); t.push(b' '); } t.push(b'}');
        e.push(bytes("q.graphql", t));
        let mut fs = Fs::new(e);
        let o = fs.run(&args(&["--show-deprecation-warnings"]), &Opts::default());
        check(o.ended(), "the run did not end normally");
        for c in names { if c == b'o' { nw += 1; } else if c != b'a' && c != b'x' { ne += 1; } }
        judge_summary(&o, Some(ne), Some(nw)); return;
    }
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&["--show-deprecation-warnings"]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    judge_summary(&o, Some(ne), Some(nw));
}

/// Failures that concern the run as a whole, beside failing and warning documents.
fn whole_run(s: Schema) {
    let mut e = vec![]; let mut a: Vec<&str> = vec!["--show-deprecation-warnings"]; let mut n = None;
    match ch("schema", 5) { 0 => e.push(bytes("schema.json", s.json())), 1 => {} 2 => e.push(text("schema.json", "{")), 3 => e.push(text("schema.json", "{\"data\":{\"__schema\":{\"types\":[{\"kind\":\"UNION\",\"name\":\"U\",\"description\":null}]}}}")), _ => { e.push(bytes("s.json", s.json())); a.push("-s"); a.push("s.json"); n = Some(()); } }
    match ch("config", 4) { 0 => {} 1 => e.push(text(".qlcrc.json", "{")), 2 => { a.push("-c"); a.push("nope.json"); } _ => e.push(text(".qlcrc.json", "{\"showDeprecationWarnings\":false}")) }
    match ch("root", 4) { 0 => {} 1 => a.push("nope"), 2 => { a.push("q.graphql"); } _ => a.push(".") }
    match ch("module", 3) { 0 => {} 1 => { a.push("--global-types-module-name"); a.push("nope/types"); } _ => { e.push(dir("graphql-globals.ts")); } }
    let x = T11[ch("doc", 13) as usize]; e.push(text("q.graphql", x.0)); e.push(text("x.graphql", "query X { x }"));
    let _ = n;
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&a), &Opts::default());
    check(o.ended(), "the run did not end normally");
    judge_summary(&o, None, None);
}

// ---- P13 ----
/// What each place defines: the fragment F there selects one field only this place selects.
const PLACES: [(&str, &str); 6] = [("f.graphql", "a"), ("sub/f.graphql", "b"), ("lib/f.graphql", "c"), ("sub/lib/f.graphql", "d"), ("sub/deep/f.graphql", "e"), ("x/f.graphql", "g")];
fn resolve(prefix: Option<&str>, from: &str, imp: &str) -> String {
    // independent of the program: segments relative to the root
    let mut segs: Vec<String> = vec![];
    let mut rest = imp.to_string();
    let mut rooted = true;
    match prefix { Some(p) if imp.len() >= p.len() && imp.as_bytes()[..p.len()] == *p.as_bytes() => { rest = imp[p.len()..].to_string(); } _ => if imp.as_bytes()[0] == b'.' { rooted = false; } }
    if !rooted { let f: Vec<&str> = split(from); for x in &f[..f.len() - 1] { segs.push(x.to_string()); } }
    for x in split(&rest) { match x { "" | "." => {} ".." => { segs.pop(); } x => segs.push(x.to_string()) } }
    segs.join("/")
}
fn split(s: &str) -> Vec<&str> { let b = s.as_bytes(); let mut v = vec![]; let mut i = 0; for j in 0..=b.len() { if j == b.len() || b[j] == b'/' { v.push(&s[i..j]); i = j + 1; } } v }
fn keys_of(o: &Obs, path: &str) -> Option<Vec<String>> { let m = ts::parse(o.file(&dts(path))?).ok()?; match m.ty("Q") { Some(ts::Ty::Obj(p)) => Some(p.iter().map(|p| p.key.clone()).collect()), _ => None } }
const S13: &str = "type Query { a: Int b: Int c: Int d: Int e: Int g: Int z: Int }";
fn imports(k: u64) {
    match k { 0..=4 => resolves(k), 5 | 6 => transitive(k), _ => import_lines(k) }
}
fn resolves(k: u64) {
    let s = Schema::sdl(S13);
    let mut e = vec![bytes("schema.json", s.json())];
    for (p, f) in PLACES { let t = format!("fragment F on Query {{ {} }}", f); e.push(text(p, &t)); }
    let from = ["q.graphql", "sub/q.graphql", "sub/deep/q.graphql"][ch("from", 3) as usize];
    let pc = ch("prefix", if k == 0 { 5 } else { 3 });
    let sp = if k == 0 { String::new() } else if k >= 2 { cat(&cat("", sy("pchar", b'.', b'~')), sy("pchar", b'.', b'~')) } else { cat("", sy("pchar", b'.', b'~')) };
    let prefix: Option<String> = if k == 0 { match pc { 0 => None, 1 => Some("@/".into()), 2 => Some("./".into()), 3 => Some("@".into()), _ => Some("sub/".into()) } } else { match pc { 0 => None, 1 => Some(sp.clone()), _ => { let mut x = sp.clone(); x.push('/'); Some(x) } } };
    let head = if k == 0 { ["", "./", "../", "@/", ".././", "sub/"][ch("head", 6) as usize].to_string() } else { match ch("head", if k >= 2 { 4 } else { 3 }) { 3 => cat(&cat(&cat("", sy("ichar", b'.', b'~')), sy("ichar", b'.', b'~')), b'/'), 0 => cat("", sy("ichar", b'.', b'~')), 1 => cat(&cat("", sy("ichar", b'.', b'~')), b'/'), _ => String::new() } };
    let mid = ["", "lib/", "deep/", "x/", "../"][ch("mid", if k == 0 || k == 3 { 5 } else { 2 }) as usize];
    let mut imp = head; imp.push_str(mid); imp.push_str("f.graphql");
    // an import of "/..." leaves the root
    rt::assume(imp.as_bytes()[0] != b'/' && imp.as_bytes()[0] != b'"');
    if let Some(p) = &prefix { rt::assume(p.as_bytes()[0] != b'-'); }
    let mut doc = String::from("#import \""); doc.push_str(&imp); doc.push_str("\"\nquery Q { z ...F }");
    e.push(text(from, &doc));
    // a path that climbs out of the root or through a file that is not a directory is outside the scenario
    let mut a = vec!["--no-color".to_string(), "--num-threads".into(), "1".into()];
    if let Some(p) = &prefix { a.push("--root-dir-import-prefix".into()); a.push(p.clone()); }
    let climbs = { let p = prefix.as_deref(); let stripped = match p { Some(p) if imp.len() >= p.len() && imp.as_bytes()[..p.len()] == *p.as_bytes() => &imp[p.len()..], _ => &imp[..] }; let rel = stripped.len() == imp.len() && imp.as_bytes()[0] == b'.'; let mut d: i32 = if rel { split(from).len() as i32 - 1 } else { 0 }; let mut bad = false; for x in split(stripped) { match x { ".." => { d -= 1; if d < 0 { bad = true; } } "" | "." => {} _ => d += 1 } } bad };
    rt::assume(!climbs);
    let target = resolve(prefix.as_deref(), from, &imp);
    let mut fs = Fs::new(e);
    let o = fs.run(&a, &Opts::default());
    check(o.ended(), "the run did not end normally");
    let p = out::parse(&o.out);
    let dump = || format!("{} importing {:?} (prefix {:?}) should read {}\n{}", from, imp, prefix, target, o.text());
    match PLACES.iter().find(|x| x.0 == target) {
        Some((_, f)) => {
            cover("resolved");
            ensure(o.code == 0, "an import that exists failed", &dump);
            let k = keys_of(&o, from);
            ensure(k.is_some() && { let k = k.unwrap(); k.len() == 2 && k.iter().any(|x| x == f) && k.iter().any(|x| x == "z") }, "an import brought another file's fragment", &|| format!("{}\n{}", dump(), o.file(&dts(from)).map_or("", |t| unsafe { std::str::from_utf8_unchecked(t) })));
        }
        None => {
            cover("unreadable import");
            ensure(o.code == 1 && p.msgs.iter().any(|m| m.level != out::WARNING && types::has(&m.text, "could not read") && m.path.as_deref().map(bare) == Some(from)), "an import that cannot be read is not reported for the document", &dump);
        }
    }
}
/// Which fragments are in scope: files that import each other in every way.
fn transitive(k: u64) {
    let s = Schema::sdl(S13);
    let n = if k == 5 { 3 } else { 4 };
    let at = ["Fa", "Fb", "Fc", "Fd"]; let path = ["fa.graphql", "sub/fb.graphql", "sub/fc.graphql", "fd.graphql"]; let fl = ["a", "b", "c", "d"];
    let rel = |from: usize, to: usize| -> String { let (f, t) = (split(path[from]).len() - 1, path[to]); if f == 0 { format!("./{}", t) } else { format!("./../{}", t) } };
    let mut e = vec![bytes("schema.json", s.json())];
    let mut imp = vec![vec![false; n]; n + 1];
    for i in 0..n { let mut t = String::new(); for j in 0..n { if i != j && yes("imports") { imp[i][j] = true; t.push_str("#import \""); t.push_str(&rel(i, j)); t.push_str("\"\n"); } } t.push_str(&format!("fragment {} on Query {{ {} }}", at[i], fl[i])); e.push(text(path[i], &t)); }
    let first = if k == 5 { ch("first", n as u64) as usize } else { 0 };
    imp[n][first] = true;
    let spread = ch("spread", n as u64) as usize;
    let doc = format!("# c\n\n#import \"{}\"\nquery Q {{ z ...{} }}", path[first], at[spread]);
    e.push(text("q.graphql", &doc));
    let mut reach = vec![false; n]; let mut todo = vec![first];
    while let Some(i) = todo.pop() { if reach[i] { continue; } reach[i] = true; for j in 0..n { if imp[i][j] { todo.push(j); } } }
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let p = out::parse(&o.out);
    let dump = || format!("{:?}\n{}\n{}", imp, doc, o.text());
    if reach[spread] {
        cover("in scope");
        ensure(o.code == 0, "spreading a transitively imported fragment failed", &dump);
        let k = keys_of(&o, "q.graphql");
        ensure(k.is_some() && { let k = k.unwrap(); k.len() == 2 && k.iter().any(|x| x == fl[spread]) }, "the spread fragment did not contribute", &dump);
    } else {
        cover("out of scope");
        ensure(o.code == 1 && about(&p, "q.graphql").iter().any(|m| types::has(&m.text, "unknown spread")), "spreading a fragment that is not imported is not an error", &dump);
    }
}
/// The leading comment block: what lies before, between and after import lines.
fn import_lines(k: u64) {
    let s = Schema::sdl(S13);
    let form = ch("form", 3);
    let mut t = String::new(); let mut scope: Vec<&str> = vec![]; let mut open = true; let mut missing = false; let mut nonfrag = false;
    if form == 1 { t.push('\u{feff}'); }
    for _ in 0..(if k == 7 { 3 } else { 4 }) {
        match ch("line", 9) {
            0 => t.push('\n'),
            1 => t.push_str("# c\n"),
            2 => t.push_str("  \n"),
            3 => { t.push_str("#import \"fa.graphql\"\n"); if open { scope.push("Fa"); } }
            4 => { t.push_str("#import \"./fb.graphql\"\n"); if open { scope.push("Fb"); } }
            5 => { t.push_str("#import \"nope.graphql\"\n"); if open { missing = true; } }
            6 => { t.push_str("#import \"r.graphql\"\n"); if open { nonfrag = true; } }
            7 => t.push_str("# import \"fa.graphql\"\n"),
            _ => { t.push_str(" , # x\n"); open = false; }
        }
    }
    let sp = ["Fa", "Fb"][ch("spread", 2) as usize];
    t.push_str("query Q {\n#import \"fa.graphql\"\n z ..."); t.push_str(sp); t.push_str(" }");
    if form == 2 { let mut u = String::new(); for c in t.bytes() { if c == b'\n' { u.push('\r'); } u.push(c as char); } t = u; }
    let mut fs = Fs::new(vec![bytes("schema.json", s.json()), text("fa.graphql", "fragment Fa on Query { a }"), text("fb.graphql", "fragment Fb on Query { b }"), text("r.graphql", "query R { c }"), text("q.graphql", &t)]);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let p = out::parse(&o.out);
    let dump = || format!("{}\n{}", t, o.text());
    let q = about(&p, "q.graphql");
    let ins = scope.contains(&sp);
    ensure(q.iter().any(|m| types::has(&m.text, "unknown spread")) == !ins, if ins { "spreading an imported fragment is an error" } else { "spreading a fragment that is not imported is not an error" }, &dump);
    ensure(q.iter().any(|m| types::has(&m.text, "could not read")) == missing, "an import that cannot be read must be an error, and nothing else", &dump);
    ensure(q.iter().any(|m| types::has(&m.text, "cannot import non-fragment")) == nonfrag, "an import of something that is not a fragment must be an error, and nothing else", &dump);
    ensure(o.code == (!ins || missing || nonfrag) as u64, "exit status wrong", &dump);
    if ins && !missing && !nonfrag { cover("in scope"); }
}

// ---- P17 ----
fn inter(a: &[String], b: &[String]) -> Vec<String> { a.iter().filter(|x| b.contains(x)).cloned().collect() }
fn count(s: &Schema, ty: &str, place: &[String], v: &[Sel], frags: &[Doc], dep: &mut u64, nar: &mut u64) {
    for x in v { match x {
        Sel::Field { name, subs, .. } => { if name == "__typename" { continue; } let f = s.field(ty, name).expect("model: field"); if f.dep == Some(true) { *dep += 1; } if !subs.is_empty() { count(s, &f.ty.name, &s.runtime(&f.ty.name), subs, frags, dep, nar); } }
        Sel::Inline { on, subs } => { let p = inter(place, &s.runtime(on)); if p.is_empty() { *nar += 1; } count(s, on, &p, subs, frags, dep, nar); }
        Sel::Spread { name } => { let d = frags.iter().find(|d| d.name == *name).expect("model: fragment"); if inter(place, &s.runtime(&d.on)).is_empty() { *nar += 1; } }
    } }
}
fn warnings(k: u64) {
    let mut s = Schema::sdl(S1);
    for t in ["Query", "D", "B"] { let n = if t == "B" { "d" } else { "a" }; for f in s.get_mut(t).fields.iter_mut() { if f.name == n || f.name == "q" { f.dep = Some(true); } } }
    let (n, inner, al): (u64, &'static [u64], bool) = match k { 0 => (2, &[1], false), 1 => (1, &[2], false), 2 => (1, &[1, 1], false), 3 => (1, &[2, 1], false), 4 => (1, &[1, 2], false), 5 => (2, &[1, 1], false), 6 => (1, &[1, 1, 1], false), _ => (2, &[1], true) };
    unsafe { types::ALIAS = al; }
    let mut e = types::frag_ents();
    e.push(bytes("schema.json", s.json()));
    e.push(file("q.graphql", Box::new(move || { let d = Doc { k: OpK::Fragment, name: "Q".into(), on: cat("", sy("root", b'A', b'F')), vars: vec![], sels: types::slots("slot", n, inner, &["Fa", "Fb", "Fc"]) }; if docs().iter().any(|d| d.0 == "q.graphql") { panic!("model: read twice") } types::put_file("q.graphql", d) })));
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&["--show-deprecation-warnings"]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let d = match docs().iter().find(|d| d.0 == "q.graphql") { Some(d) => d.1.clone(), None => { ensure(false, "the document was not read", &|| o.text().to_string()); return } };
    let frags: Vec<Doc> = docs().iter().filter(|d| d.0 != "q.graphql").map(|d| d.1.clone()).collect();
    let v: Vec<&Sel> = d.sels.iter().collect();
    if !(composite(&s, &d.on) && types::valid(&s, &d.on, &d.sels) && types::mergeable(&s, &d.on, &v, &frags)) { return; }
    let (mut dep, mut nar) = (0, 0);
    count(&s, &d.on, &s.runtime(&d.on), &d.sels, &frags, &mut dep, &mut nar);
    let p = out::parse(&o.out);
    let dump = || format!("want {} deprecation, {} narrowing\n{}\n{}", dep, nar, put_doc(&d), o.text());
    let q = about(&p, "q.graphql");
    let c = |t: &str| q.iter().filter(|m| m.level == out::WARNING && types::has(&m.text, t)).count() as u64;
    ensure(c("use of deprecated field") == dep, "not exactly one warning per selected deprecated field", &dump);
    ensure(c("over narrowing") == nar, "over-narrowing warnings are not exactly the due ones", &dump);
    ensure(q.len() as u64 == dep + nar, "another message about a valid document", &dump);
    ensure(o.code == 0 && o.written.iter().any(|w| w == "q.graphql.d.ts"), "warnings make the run fail", &dump);
    // the same run without the option: same files, no deprecation warning
    let o2 = fs.run(&args(&[]), &Opts::default());
    let p2 = out::parse(&o2.out);
    ensure(o2.code == 0 && o2.files == o.files, "the option changes generated files", &dump);
    ensure(!p2.msgs.iter().any(|m| types::has(&m.text, "deprecated")) && about(&p2, "q.graphql").len() as u64 == nar, "a deprecation warning without the option", &|| format!("{}\n{}", dump(), o2.text()));
    cover("compared"); if dep > 0 { cover("deprecated"); } if nar > 0 { cover("narrowed"); }
}

// ---- P22 ----
const T22: [(&str, bool); 15] = [
    ("", true), ("query Q { a x }", true), ("fragment Fz on A { c ... on C { b } }", true), ("mutation M($v: I) { m }", true), ("#import \"Ff.graphql\"\nquery Q { r { ...Ff } }", true),
    ("query Q { z x }", false), ("query Q($v: Nope) { x }", false), ("query Q { x", false), ("{ y }", false), ("query A { y } query B { y }", false), ("#import \"nope.graphql\"\nquery Q { y zz }", false), ("query Q($v: J, $w: Nope) { a }", false), ("#import \"Ff.graphql\"\nquery Q { y r { ...Fg } }", false), ("query Q { y r }", false), ("query Q($v: C) { y }", false),
];
fn isolation(k: u64) {
    let s = Schema::sdl("type Query { a: Int x: X y: Y r: A } type Mutation { m: Int } type A { c: X b: W d: Int } type C { b: Int } enum X { P } enum Y { P } enum W { P } enum V { P } input I { v: V } input J { y: Y }");
    let n = if k == 0 { 2 } else { 3 };
    let mut e = vec![bytes("schema.json", s.json()), text("Ff.graphql", if k == 2 { "fragment Ff on A { d }" } else { "fragment Ff on A { b }" })];
    let mut faulty = vec![]; let mut nv = 0;
    if k >= 3 {
        // which of the symbolic names make the document faulty is for the solver
        let (v, f, g) = (sy("type", b'A', b'Z'), sy("field", b'a', b'z'), if k == 3 { b'a' } else { sy("field", b'a', b'z') });
        let t = cat(&cat(&cat(&cat(&cat("query Q($v: ", v), b')'), b'{'), f), b' '); let mut t = cat(&t, g); t.push_str(" x }");
        e.push(text("sub/a.graphql", &t));
        let c = 1 + ch("doc", 4) as usize; e.push(text("b.graphql", T22[c].0)); nv += 1;
        let leaf = |c: u8| c == b'a' || c == b'x' || c == b'y';
        if !(matches!(v, b'I' | b'J' | b'V' | b'W' | b'X' | b'Y') && leaf(f) && leaf(g)) { faulty.push("sub/a.graphql".to_string()); }
    } else { for j in 0..n { let c = ch("doc", 15) as usize; let p = format!("{}{}.graphql", if j == 1 { "sub/d" } else { "d" }, j); if c == 0 { continue; } let t = if j == 1 { T22[c].0.replace("Ff.graphql", "./../Ff.graphql") } else { T22[c].0.to_string() }; e.push(text(&p, &t)); if T22[c].1 { nv += 1; } else { faulty.push(p); } } }
    if faulty.is_empty() { return; }
    let mut fs = Fs::new(e);
    let a = fs.run(&args(&[]), &Opts::default());
    check(a.ended(), "the run did not end normally");
    let dump = || a.text().to_string();
    ensure(a.code == 1, "a faulty document did not make the run fail", &dump);
    for p in &faulty { ensure(!a.written.iter().any(|w| *w == dts(p)), "output was written for a faulty document", &dump); }
    let with: Vec<(String, Vec<u8>)> = a.files.iter().filter(|f| a.written.contains(&f.0)).cloned().collect();
    for p in &faulty { fs.remove(p); }
    for f in &with { fs.remove(&f.0); }
    let b = fs.run(&args(&[]), &Opts::default());
    ensure(b.code == 0, "the valid documents alone do not compile", &|| b.text().to_string());
    let without: Vec<(String, Vec<u8>)> = b.files.iter().filter(|f| b.written.contains(&f.0)).cloned().collect();
    let show = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|(p, d)| format!("--- {}\n{}\n", p, join(d))).collect::<String>();
    ensure(with.len() == without.len() && with.iter().all(|f| without.contains(f)), "a faulty document changes what is generated for the others", &|| format!("with:\n{}without:\n{}", show(&with), show(&without)));
    if nv > 0 { cover("faulty and valid documents"); } cover("faulty");
}
