//! Scenarios about whole runs: repetition, schedules, faults, file trees, configuration, malformed inputs.
use super::*;
use super::docs::{about, bare, join};
use super::types::{dts, ensure, has};
use crate::out;

pub fn go(id: u64) {
    match id {
        700..=749 => repeat(id - 700),
        800..=849 => schedules(id - 800),
        1200..=1249 => robust(id - 1200),
        1500..=1549 => configured(id - 1500),
        1600..=1649 => schema_text(id - 1600),
        1800..=1849 => trees(id - 1800),
        1900..=1949 => faults(id - 1900),
        _ => panic!("no scenario"),
    }
}
fn list(v: &[(String, Vec<u8>)]) -> String { v.iter().map(|(p, d)| format!("--- {}\n{}\n", p, join(d))).collect() }
fn nc(a: &[&str]) -> Vec<String> { let mut v: Vec<String> = a.iter().map(|x| x.to_string()).collect(); v.push("--no-color".into()); v }

// ---- P07 ----
const S7: &str = "type Query { ab: Int aB: X Ab: Y AB: W n: N u: U a: A z: Z } interface N = A|B|C { id: ID x: X n: N } union U = A|B|C
type A { id: ID x: X n: N y: Y i: Int } type B { id: ID x: X n: N w: W } type C { id: ID x: X n: N }
enum X { P Q } enum Y { P } enum W { P } enum V { Q } enum x1 { P } enum X1 { P } scalar Z
input I { v: V j: J I: Int i: X } input J { i: I k: K } input K { x: x1 y: X1 } input L { x: X }";
const D7: [(&str, &str); 6] = [
    ("q.graphql", "query Q($i: I, $l: [L!], $y: Y) { ab aB Ab AB z }"),
    ("r.graphql", "#import \"f.graphql\"\n#import \"g/f.graphql\"\n#import \"g/h.graphql\"\nquery R { n { __typename id ... on A { y i } ...F ...H } u { ... on B { w id } ... on A { x id n { id ... on B { w } } } } }"),
    ("f.graphql", "fragment F on N { x n { id } }"),
    ("g/f.graphql", "fragment F on A { y }"),
    ("g/h.graphql", "#import \"./f.graphql\"\nfragment H on U { __typename ... on C { x } ...F }"),
    ("e.graphql", "query E { n { id ... on A { yy } } zz }"),
];
fn repeat(k: u64) {
    let s = Schema::sdl(S7);
    let mut e = vec![bytes("schema.json", s.json())];
    if k == 3 || k == 4 {
        // a selection with symbolic names
        let s1 = Schema::sdl(types::S1);
        e = types::frag_ents(); e.push(bytes("schema.json", s1.json()));
        e.push(file("q.graphql", Box::new(move || types::put_file("q.graphql", Doc { k: OpK::Fragment, name: "Q".into(), on: cat("", sy("root", b'A', b'F')), vars: vec![], sels: if k == 3 { types::slots("slot", 1, &[1], &["Fa", "Fc"]) } else { types::slots("slot", 2, &[1], &[]) } }))));
    } else {
        let n: &[usize] = match k { 0 => &[0], 1 => &[1, 2, 3, 4], _ => &[0, 1, 2, 3, 4, 5] };
        for &i in n { e.push(text(D7[i].0, D7[i].1)); }
    }
    let mut fs = Fs::new(e);
    let a = args(&["--use-custom-scalars"]);
    let base = fs.run(&a, &Opts::default());
    check(base.ended(), "the run did not end normally");
    let again = yes("over the results");
    if !again { for p in &base.written { fs.remove(p); } }
    let o = match if k == 1 || k == 2 { ch("vary", 2) } else { 0 } { 0 => Opts { hash: if k == 5 { 2 } else { 1 }, which: 1, ..Opts::default() }, _ => Opts { order: if k == 1 { 1 } else { 2 }, ..Opts::default() } };
    let b = fs.run(&a, &o);
    check(b.ended(), "the run did not end normally");
    let sorted = |o: &Obs| { let mut v = o.files.clone(); v.sort(); v };
    let (x, y) = (sorted(&base), sorted(&b));
    ensure(base.code == b.code, "the exit status depends on iteration order", &|| format!("{}\n{}", base.text(), b.text()));
    ensure(x.len() == y.len() && x == y, if again { "running again over the results changes a file" } else { "a file depends on iteration order" }, &|| { let d: Vec<_> = x.iter().filter(|f| !y.contains(f)).cloned().collect(); let e: Vec<_> = y.iter().filter(|f| !x.contains(f)).cloned().collect(); format!("first:\n{}second:\n{}", list(&d), list(&e)) });
    cover(if again { "ran again" } else { "compared" });
}

// ---- P08 ----
const S8: &str = "type Query { a: Int x: X y: Y w: W r: A } type A { a: Int } type B { a: Int } enum X { P } enum Y { P } enum W { P }";
/// path, text, enum used, errors, warnings
const D8: [(&str, &str, &str, u64, u64); 6] = [
    ("a.graphql", "query A { x }", "X", 0, 0), ("sub/b.graphql", "query B { y }", "Y", 0, 0), ("c.graphql", "query C { zz }", "", 1, 0),
    ("sub/deep/d.graphql", "query D { w r { ... on B { a } } }", "W", 0, 1), ("sub/e.graphql", "query E { r { a ... on B { a } } }", "", 0, 1), ("deep/f.graphql", "query F { y zz }", "", 1, 0),
];
fn schedules(k: u64) {
    if k >= 20 { return symbolic_schedules(k); }
    let (docs, dirs, n): (&[usize], &[&str], &str) = match k { 0 => (&[0, 1], &[], "2"), 1 => (&[0, 2], &["empty"], "2"), 2 => (&[1, 3], &[], "2"), 3 => (&[0, 1], &[], "3"), 4 => (&[1, 5, 0], &["empty"], "2"), 5 => (&[], &["empty", "sub/empty"], "3"), 6 => (&[2, 4], &[], "2"), 7 => (&[0, 1, 2, 3], &[], "4"), _ => (&[0, 1, 3, 5], &["empty"], "3") };
    let s = Schema::sdl(S8);
    let mut e = vec![bytes("schema.json", s.json())];
    for &i in docs { e.push(text(D8[i].0, D8[i].1)); }
    for d in dirs { e.push(dir(d)); }
    let mut fs = Fs::new(e);
    let o = fs.run(&nc(&["--num-threads", n]), &Opts { sched: true, ..Opts::default() });
    check(o.ended(), "the run did not end");
    let dump = || format!("{}\n{:?}", o.text(), o.written);
    let p = out::parse(&o.out);
    let mut want = vec![]; let (mut ne, mut nw) = (0, 0);
    for &i in docs {
        let d = &D8[i]; ne += d.3; nw += d.4;
        ensure(fs.writes(&dts(d.0)) == (d.3 == 0) as u32, "a document is not compiled exactly once", &|| format!("{}\n{}", d.0, dump()));
        ensure(fs.opens(d.0) == 1, "a document is not read exactly once", &|| format!("{}\n{}", d.0, dump()));
        ensure(about(&p, d.0).len() as u64 == d.3 + d.4, "a message is missing or repeated", &|| format!("{}\n{}", d.0, dump()));
        if !d.2.is_empty() { want.push(d.2); }
    }
    ensure(p.nerr() == ne && p.nwarn() == nw && o.code == (ne > 0) as u64, "messages are not accounted for", &dump);
    let g = o.file("graphql-globals.ts");
    if want.is_empty() { ensure(g.is_none(), "global types appeared", &dump); }
    else { let m = g.and_then(|g| ts::parse(g).ok()); ensure(m.as_ref().map_or(false, |m| m.enums.len() == want.len() && want.iter().all(|w| m.declared(w) == 1)), "global types are not accounted for", &dump); }
    cover("ended");
}

/// What the documents select is symbolic: each of the two either uses an enum, warns, or fails, on every schedule.
fn symbolic_schedules(k: u64) {
    let s = Schema::sdl("type Query { a: Int o: Int @d x: X y: Y } enum X { P } enum Y { P }");
    let names = ["a.graphql", "sub/b.graphql", "sub/c.graphql"];
    let n = if k == 21 { 3 } else { 2 };
    let mut e = vec![bytes("schema.json", s.json())]; let mut f = vec![];
    for j in 0..n { let c = sy("field", b'a', b'z'); rt::assume(matches!(c, b'o' | b'x' | b'y' | b'z')); f.push(c); let mut t = cat("query Q { a k: ", c); t.push_str(" }"); e.push(text(names[j], &t)); }
    let mut fs = Fs::new(e);
    let o = fs.run(&nc(&["--num-threads", if k == 22 { "3" } else { "2" }, "--show-deprecation-warnings"]), &Opts { sched: true, ..Opts::default() });
    check(o.ended(), "the run did not end");
    let dump = || format!("{}\n{:?}", o.text(), o.written);
    let p = out::parse(&o.out);
    let (mut ne, mut nw) = (0, 0);
    for j in 0..n {
        let ok = matches!(f[j], b'a' | b'o' | b'x' | b'y'); if !ok { ne += 1; } if f[j] == b'o' { nw += 1; }
        ensure(fs.writes(&dts(names[j])) == ok as u32, "a document is not compiled exactly once", &dump);
        ensure(about(&p, names[j]).len() as u64 == (!ok || f[j] == b'o') as u64, "a message is missing or repeated", &dump);
    }
    ensure(p.nerr() == ne && p.nwarn() == nw && o.code == (ne > 0) as u64, "messages are not accounted for", &dump);
    let m = o.file("graphql-globals.ts").and_then(|g| ts::parse(g).ok());
    for (c, en) in [(b'x', "X"), (b'y', "Y")] { ensure(m.as_ref().map_or(0, |m| m.declared(en)) == f.iter().any(|x| *x == c) as usize, "global types are not accounted for", &dump); }
    cover("ended");
}

// ---- P19 ----
const S19: &str = "type Query { a: Int x: X y: Y w: W r: A } type A { a: Int w: W } enum X { P } enum Y { P } enum W { P }";
/// path, text, enum used, what it imports
const D19: [(&str, &str, &str, &[&str]); 6] = [
    ("a.graphql", "query A { x }", "X", &[]), ("b.graphql", "#import \"f.graphql\"\nquery B { r { ...F } }", "W", &["f.graphql"]), ("f.graphql", "fragment F on A { w }", "W", &[]),
    ("sub/c.graphql", "query C { y }", "Y", &[]), ("sub/deep/d.graphql", "#import \"sub/g.graphql\"\nquery D { r { ...G } }", "W", &["sub/g.graphql", "f.graphql"]), ("sub/g.graphql", "#import \"./../f.graphql\"\nfragment G on A { a ...F }", "W", &["f.graphql"]),
];
fn faults(k: u64) {
    let s = Schema::sdl(S19);
    let docs: &[usize] = match k { 0 => &[0, 1, 2, 3], 1 => &[0, 2, 3, 4, 5], 2 => &[0, 1, 2, 3], _ => &[0, 1, 2, 3, 4, 5] };
    let mut e = vec![bytes("schema.json", s.json()), dir("empty")];
    for &i in docs { e.push(text(D19[i].0, D19[i].1)); }
    if k == 1 { e.push(text(".qlcrc.json", "{}")); }
    let old = yes("old outputs");
    if old { for &i in docs { e.push(text(&dts(D19[i].0), "old")); } }
    let mut fs = Fs::new(e);
    let a = args(&[]);
    let base = fs.run(&a, &Opts::default());
    check(base.ended(), "the run did not end normally");
    ensure(base.code == 0, "the run without faults failed", &|| base.text().to_string());
    for p in &base.written { if old && p.len() > 5 && has(p, ".d.ts") { fs.put(p, b"old".to_vec()); } else { fs.remove(p); } }
    let o = fs.run(&a, &Opts { faults: match k { 0 | 1 => 1, 4 => 3, _ => 2 }, ..Opts::default() });
    check(o.ended(), "the run did not end normally");
    let dump = || format!("{:?}\n{}\n{}", o.faults, o.text(), list(&o.files.iter().filter(|f| o.written.contains(&f.0)).cloned().collect::<Vec<_>>()));
    let p = out::parse(&o.out);
    if o.faults.is_empty() {
        ensure(o.code == 0 && o.files == base.files, "a second run differs", &dump); return;
    }
    cover("fault");
    ensure(o.code == 1 && p.nerr() > 0, "a failure is not reported", &dump);
    if o.faults.iter().any(|f| f.1 == "schema.json" || f.1 == ".qlcrc.json") { ensure(o.written.is_empty(), "files were written without a schema or configuration", &dump); return; }
    for (op, path) in &o.faults {
        // what the message has to name
        let named = |t: &str| if path.is_empty() { has(t, "`.`") || has(t, "`./`") || has(t, "could not read") } else { has(t, path) };
        ensure(p.msgs.iter().any(|m| m.level != out::WARNING && (named(&m.text) || m.path.as_deref().map_or(false, |q| bare(q) == path))), "no error names the path that failed", &|| format!("{} {}\n{}", op, path, dump()));
    }
    let inside = |d: &str, p: &str| d.is_empty() || p.len() > d.len() && p.as_bytes()[..d.len()] == *d.as_bytes() && p.as_bytes()[d.len()] == b'/';
    let mut lost_globals = false;
    for (op, path) in &o.faults { if path == "graphql-globals.ts" { lost_globals = true; } }
    let g = o.file("graphql-globals.ts").and_then(|g| ts::parse(g).ok());
    for &i in docs {
        let d = &D19[i];
        let hit = o.faults.iter().any(|(op, path)| match op { 'l' | 'e' => inside(path, d.0), 'w' | 'W' => *path == dts(d.0), _ => path == d.0 || d.3.iter().any(|x| x == path) });
        let t = o.file(&dts(d.0));
        if hit {
            // a document that cannot be read leaves no output
            if o.faults.iter().any(|(op, path)| (*op == 'o' || *op == 'r') && path == d.0) { ensure(!o.written.contains(&dts(d.0)), "output of a document that could not be read", &dump); }
            continue;
        }
        cover("others");
        ensure(t.is_some() && t == base.file(&dts(d.0)), "a failure elsewhere changed the output of a document", &|| format!("{}\n{}", d.0, dump()));
        if !lost_globals { ensure(g.as_ref().map_or(false, |g| g.declared(d.2) == 1), "a failure elsewhere lost a global type", &|| format!("{}\n{}", d.2, dump())); }
    }
}

// ---- P18 ----
/// A name in the tree and whether a regular file of that name is a document.
const N18: [(&str, bool); 14] = [("q.graphql", true), ("q.GRAPHQL", false), ("q.graphqls", false), ("x.y.graphql", true), ("graphql", false), ("q.graphql~", false), ("q.graphql.d.ts", false), ("q.gql", false), ("q.json", false), ("q..graphql", true), ("q graphql", false), ("\u{e9}.graphql", true), ("q.graphql.txt", false), (".q.graphql", true)];
fn trees(k: u64) {
    let s = Schema::sdl("type Query { a: X }  enum X { P }");
    // 0: two names; 1: one name in each directory; 2: symbolic characters; 3: module names, two names; 4: one name; 5: two names, fewer kinds and places; 6: module names, one name
    let modules = k == 3 || k == 6;
    let root = ["", "sub", "./sub/"][if modules { 0 } else { ch("root", if k == 5 { 2 } else { 3 }) } as usize];
    let mut e = vec![text("other.txt", "keep"), text("sub/other.d.ts", "keep"), text("sub/deep/graphql-globals.ts", "keep"), bytes("schema.json", s.json()), text("real/in.txt", "keep"), text("real/doc.graphql", "query Real { a }")];
    let mut docs: Vec<String> = vec!["real/doc.graphql".into()];
    let places = ["", "sub/", "sub/deep/"];
    let doc = "query Q { a }";
    let body = |p: &str| text(p, doc);
    if k == 2 {
        // a name whose last characters are symbolic
        let at = places[ch("place", 3) as usize]; let kind = ch("kind", 3);
        let mut n = at.to_string(); n.push_str(["s.graph", "s", "t.graphql"][kind as usize]);
        let c: Vec<u8> = (0..2).map(|_| sy("char", b'!', b'~')).collect();
        rt::assume(c.iter().all(|&c| c != b'/' && c != b'"' && c != b'\\'));
        if kind == 1 { let mut x = cat(&cat(&n, c[0]), c[1]); x.push_str("graphql"); n = x; if c[1] == b'.' { docs.push(n.clone()); } }
        else { n = cat(&cat(&n, c[0]), c[1]); if kind == 0 && c[0] == b'q' && c[1] == b'l' { docs.push(n.clone()); } }
        e.push(body(&n));
    } else {
        let n = match k { 1 => 3, 4 | 6 => 1, _ => 2 };
        for j in 0..n {
            let c = ch("name", if modules { 4 } else { 14 }) as usize; let (name, is) = N18[c];
            let at = places[if k == 1 { j } else { ch("place", if k == 5 { 2 } else { 3 }) as usize }];
            let mut p = at.to_string(); p.push_str(name);
            if e.iter().any(|x| x.path == p || x.path.len() > p.len() && x.path.as_bytes()[..p.len()] == *p.as_bytes() && x.path.as_bytes()[p.len()] == b'/') { return; }
            match ch("kind", if k == 1 || k == 5 { 2 } else { 5 }) {
                0 => { e.push(body(&p)); if is { docs.push(p); } }
                1 => { let mut d = p.clone(); d.push_str("/in.graphql"); e.push(dir(&p)); e.push(body(&d)); docs.push(d); }
                2 => { let up = ["", "../", "../../"][split(at).len() - 1]; let mut t = up.to_string(); t.push_str("other.txt"); e.push(link(&p, &t)); }
                3 => { let up = ["", "../", "../../"][split(at).len() - 1]; let mut t = up.to_string(); t.push_str("real/doc.graphql"); e.push(link(&p, &t)); }
                _ => { let up = ["", "../", "../../"][split(at).len() - 1]; let mut t = up.to_string(); t.push_str("real"); e.push(link(&p, &t)); }
            }
        }
    }
    let (mut a, mut g): (Vec<String>, String) = (vec!["-s".into(), "schema.json".into()], "graphql-globals.ts".into());
    // an output whose place is taken by something that is no regular file is another matter
    if docs.iter().any(|d| { let d = dts(d); e.iter().any(|x| x.path == d && !matches!(x.what, What::File(_))) }) { return; }
    if modules { match ch("module", 7) { 0 => {} 1 => { a.push("--global-types-module-name".into()); a.push("types".into()); g = "types.ts".into(); } 2 => { a.push("--global-types-module-name".into()); a.push("sub/types".into()); g = "sub/types.ts".into(); } 3 => { a.push("--global-types-module-name".into()); a.push("types.d.ts".into()); g = "types.d.ts".into(); }
        4 => { for x in ["--global-types-module-name", "@/gen", "--root-dir-import-prefix", "@/"] { a.push(x.into()); } g = "gen.ts".into(); } 5 => { for x in ["--global-types-module-name", "@/gen", "--root-dir-import-prefix", "@"] { a.push(x.into()); } g = "gen.ts".into(); } _ => { for x in ["--global-types-module-name", "~gen", "--root-dir-import-prefix", "@/"] { a.push(x.into()); } g = "~gen.ts".into(); } } }
    if !root.is_empty() { a.push(root.into()); let mut x = String::from("sub/"); x.push_str(&g); g = x; }
    let under = |p: &str| root.is_empty() || p.len() > 4 && &p.as_bytes()[..4] == b"sub/";
    docs.retain(|d| under(d));
    let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
    let mut fs = Fs::new(e);
    // what the files hold before
    let before: Vec<(String, Vec<u8>)> = fs.contents();
    let o = fs.run(&args(&a), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let mut want: Vec<String> = docs.iter().map(|d| dts(d)).collect();
    if !docs.is_empty() { want.push(g.clone()); }
    let dump = || format!("{:?}\nwant {:?}\ngot  {:?}\n{}", a, want, o.written, o.text());
    ensure(o.code == 0, "the run failed", &dump);
    ensure(!o.foreign, "something outside the tree was opened", &dump);
    ensure(o.written.iter().all(|w| want.contains(w)), "a file was written that is no output", &dump);
    ensure(want.iter().all(|w| o.file(w).map_or(false, |t| t.len() > 20)), "a document was not compiled", &dump);
    for (p, t) in &before { if !want.contains(p) { ensure(o.file(p) == Some(&t[..]), "a file that is no output was changed or removed", &|| format!("{}\n{}", p, dump())); } }
    ensure(o.files.len() <= before.len() + want.len() && o.files.iter().all(|f| want.contains(&f.0) || before.iter().any(|b| b.0 == f.0)), "a file was created that is no output", &dump);
    cover(if docs.is_empty() { "nothing to compile" } else { "compiled" });
}
fn split(s: &str) -> Vec<&str> { let b = s.as_bytes(); let mut v = vec![]; let mut i = 0; for j in 0..=b.len() { if j == b.len() || b[j] == b'/' { v.push(&s[i..j]); i = j + 1; } } v }

// ---- P15 ----
const S15: &str = "type Query { a: Int b: Int c: Int d: Int z: Z x: X o: Int @d } scalar Z enum X { P }";
/// Where a value comes from.
#[derive(Clone, Default)]
struct Src { cli: Option<String>, conf: Option<String> }
impl Src { fn value(&self) -> Option<&str> { self.cli.as_deref().or(self.conf.as_deref()) } fn on(&self) -> bool { self.cli.is_some() || self.conf.as_deref() == Some("true") } }
const FLAG: [&str; 9] = ["--schema-path", "--use-custom-scalars", "--custom-scalar-prefix", "--disable-readonly-types", "--show-deprecation-warnings", "--root-dir-import-prefix", "--global-types-module-name", "--typed-graphql-documentnode-module-name", "--num-threads"];
const KEY: [&str; 9] = ["schemaFile", "useCustomScalars", "customScalarPrefix", "disableReadonlyTypes", "showDeprecationWarnings", "rootDirImportPrefix", "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "numThreads"];
fn is_bool(i: usize) -> bool { matches!(i, 1 | 3 | 4) }
/// Chooses where option i gets a value from; string values end in a symbolic letter.
fn source(i: usize, small: bool) -> Src {
    if is_bool(i) {
        let b = |x: bool| Some(x.to_string());
        return match ch("source", if small { 4 } else { 6 }) { 0 => Src { cli: b(true), conf: None }, 1 => Src { cli: None, conf: b(true) }, 2 => Src { cli: None, conf: b(false) }, 3 => Src { cli: b(true), conf: b(false) }, 4 => Src { cli: b(true), conf: b(true) }, _ => Src::default() };
    }
    let (c, f) = match i {
        0 => ("s2.json".to_string(), "s1.json".to_string()),
        5 => ("~/".into(), "@/".into()),
        8 => ("2".into(), "3".into()),
        2 => (cat("C", sy("value", b'a', b'z')), cat("P", sy("value", b'a', b'z'))),
        6 => (cat("cli-", sy("value", b'a', b'z')), cat("conf-", sy("value", b'a', b'z'))),
        _ => (cat("@c/", sy("value", b'a', b'z')), cat("@f/", sy("value", b'a', b'z'))),
    };
    match ch("source", 3) { 0 => Src { cli: Some(c), conf: None }, 1 => Src { cli: None, conf: Some(f) }, _ => Src { cli: Some(c), conf: Some(f) } }
}
fn configured(k: u64) {
    let n = match k { 0 | 3 => 2, 1 => 3, _ => 9 };
    let mut v: Vec<Src> = vec![Src::default(); 9];
    if n == 9 {
        // every option at once, from one source each
        match ch("all from", 4) { 0 => {} c => for i in 0..9 { if i == 8 { continue; } let conf = c == 2 || c == 3 && i % 2 == 0; let val = match i { 0 => if conf { "s1.json" } else { "s2.json" }, 5 => if conf { "@/" } else { "~/" }, 1 | 3 | 4 => "true", _ => if conf { "f" } else { "c" } }; if conf { v[i].conf = Some(val.into()); } else { v[i].cli = Some(val.into()); } } }
    } else { let mut from = 0; for _ in 0..n { if from > 8 { break; } let i = from + ch("option", 9 - from as u64) as usize; v[i] = source(i, n == 3); from = i + 1; } }
    let rp = ["r/", ""][if k == 3 { 0 } else { ch("root", 2) } as usize];
    // the default place, or one given on the command line
    let conf_at = match ch("config", if k == 3 { 3 } else { 2 }) { 0 => ".qlcrc.json", 1 => "conf/c.json", _ => "conf/../.qlcrc.json" };
    let conf_dir = if has(conf_at, "conf/c") { "conf/" } else { "" };
    let mut json = String::from("{"); let mut a: Vec<String> = vec![];
    if !rp.is_empty() { a.push("r".into()); }
    let mut any = false;
    for i in 0..9 {
        if let Some(c) = &v[i].conf { if any { json.push(','); } any = true; json.push('"'); json.push_str(KEY[i]); json.push_str("\":"); if is_bool(i) || i == 8 { json.push_str(c); } else { json.push('"'); json.push_str(c); json.push('"'); } }
        if let Some(c) = &v[i].cli { a.push(FLAG[i].into()); if !is_bool(i) { a.push(c.clone()); } }
    }
    json.push('}');
    let given = conf_at != ".qlcrc.json";
    if given { a.push(["-c", "--config-file"][if k == 3 { ch("spelling", 2) } else { 0 } as usize].into()); a.push(conf_at.into()); }
    let sch = |d: &str| { let mut s = Schema::sdl(S15); s.get_mut("Query").fields[0].desc = Some(d.to_string()); s.json() };
    let rooted = |p: &str| { let mut x = rp.to_string(); x.push_str(p); x };
    let mut e = vec![bytes(&rooted("schema.json"), sch("default")), bytes("s1.json", sch("s1")), bytes("conf/s1.json", sch("conf")), bytes("s2.json", sch("s2")), bytes("conf/s2.json", sch("wrong")), bytes("r/s1.json", sch("wrong")), bytes("r/s2.json", sch("wrong"))];
    if any || given { e.push(text(conf_at_norm(conf_at), &json)); }
    e.push(dir("conf"));
    e.push(text(&rooted("q.graphql"), "#import \"@/f.graphql\"\nquery Q { a z x o ...F }"));
    e.push(text(&rooted("p.graphql"), "#import \"~/f.graphql\"\nquery P { a ...F }"));
    for (p, f) in [("f.graphql", "b"), ("@/f.graphql", "c"), ("~/f.graphql", "d")] { let t = format!("fragment F on Query {{ {} }}", f); e.push(text(&rooted(p), &t)); }
    if !a.iter().any(|x| x == "--num-threads") && v[8].conf.is_none() && k != 3 { a.push("--num-threads".into()); a.push("1".into()); }
    let mut fs = Fs::new(e);
    let aa: Vec<&str> = a.iter().map(|x| &x[..]).collect();
    let o = fs.run(&nc(&aa), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let dump = || format!("{:?} {} {}\n{}{}\n{}", a, conf_at, json, o.text(), join(&o.err), list(&o.files.iter().filter(|f| o.written.contains(&f.0)).cloned().collect::<Vec<_>>()));
    if v[2].cli.is_some() && v[1].cli.is_none() {
        // refused by the command line itself unless custom scalars are on
        if !v[1].on() { ensure(o.written.is_empty() && o.code != 0 || o.file(&rooted("q.graphql.d.ts")).map_or(false, |t| !has(unsafe { std::str::from_utf8_unchecked(t) }, "readonly z: C")), "a scalar prefix has effect without custom scalars", &dump); }
        return;
    }
    ensure(o.code == 0, "the run failed", &dump);
    let get = |p: &str| o.file(&rooted(p)).and_then(|t| ts::parse(t).ok());
    let (q, p) = match (get("q.graphql.d.ts"), get("p.graphql.d.ts")) { (Some(q), Some(p)) => (q, p), _ => { ensure(false, "the documents were not compiled", &dump); return } };
    let props = |m: &ts::Module, n: &str| -> Vec<ts::Prop> { match m.ty(n) { Some(ts::Ty::Obj(p)) => p.clone(), _ => vec![] } };
    let (pq, pp) = (props(&q, "Q"), props(&p, "P"));
    let find = |v: &Vec<ts::Prop>, k: &str| v.iter().find(|p| p.key == k).cloned();
    // schema
    let want = match (&v[0].cli, &v[0].conf) { (Some(_), _) => "s2", (None, Some(_)) => if conf_dir.is_empty() { "s1" } else { "conf" }, _ => "default" };
    let d = find(&pq, "a").and_then(|p| p.doc).unwrap_or_default();
    ensure(["default", "s1", "s2", "conf", "wrong"].iter().all(|x| has(&d, x) == (*x == want)), "the schema is not the configured one", &dump);
    // custom scalars and their prefix
    let z = find(&pq, "z").map(|p| ts::Module::default().canon(&p.ty, 4)).unwrap_or_default();
    let want = if v[1].on() { let mut x = v[2].value().unwrap_or("").to_string(); x.push('Z'); C::Name(x) } else { C::Any };
    ensure(ts::eqset(&z, &[want, C::Null]), "custom scalars are not typed as configured", &dump);
    // readonly
    ensure(pq.len() == 5 && pq.iter().chain(pp.iter()).all(|p| p.ro == !v[3].on()), "readonly properties are not as configured", &dump);
    // deprecation warnings
    let m = out::parse(&o.out);
    ensure(m.nwarn() == v[4].on() as u64 && m.nerr() == 0, "deprecation warnings are not as configured", &dump);
    // import prefix
    let (wq, wp) = match v[5].value() { Some("@/") => ("b", "d"), Some(_) => ("c", "b"), None => ("c", "d") };
    ensure(find(&pq, wq).is_some() && find(&pp, wp).is_some() && pp.len() == 2, "imports do not resolve as configured", &dump);
    // global types module
    let g = v[6].value().unwrap_or("graphql-globals");
    ensure(q.imports.iter().any(|i| i.1 == g && i.0.len() == 1 && i.0[0] == "X"), "the global types module is not imported as configured", &dump);
    let mut f = rooted(g); f.push_str(".ts");
    ensure(o.written.contains(&f) && o.written.len() == 6, "the global types module is not written as configured", &dump);
    // document node module
    let n = v[7].value().unwrap_or("@notarize/qlc-cli/typed-documentnode");
    ensure(q.imports.iter().any(|i| i.1 == n && i.0.len() == 1 && i.0[0] == "QueryDocumentNode"), "the document node module is not as configured", &dump);
    // threads
    if let Some(t) = v[8].value() { ensure(o.threads == (t.as_bytes()[0] - b'0') as u64, "the number of threads is not as configured", &dump); }
    cover("configured");
}
fn conf_at_norm(p: &str) -> &str { if has(p, "..") { ".qlcrc.json" } else { p } }

// ---- P12 ----
const S12: &str = "type Query { a: Int n: [N!]! u: U q: Query } interface N = A { i: ID @d n: N } type A { i: ID! n: N x: X } type B { j: X } union U = A|B enum X { P Q } input I { f: [[X!]] j: I } scalar Z type Mutation { m: Int }";
const D12: [&str; 10] = [
    "query Q($v: [Int!]! = [1], $i: I) @d(x: 1.5e3) { k: a(x: $v) n { __typename ... on A { i } ...F } }",
    "#import \"f.graphql\"\n # c\n\nfragment G on N { i n { ...F } }",
    "query Q { u { ... on A { x } ... on B { j } } q { a(x: {s: \"t\\u0041\", e: E, b: true, n: null}) } }",
    "\u{feff}mutation M($s: String = \"\"\"b\n \"\"\") { m }\r\n",
    "#import './f.graphql'\r\nsubscription S { a } # \u{e9}",
    "query Q { u { \u{e9}\u{65e5} ... on E { x } } bad\n\tn { ... { i } } ...Nope }",
    "{ a }", "query A { a } query B { a }", "fragment F on Nope { a }", "schema { query: Q }\ntype T { a: Int }",
];
const ARGS12: [&[&str]; 26] = [&[], &["--nope"], &[""], &["--"], &["-"], &["--schema-path"], &["-s", ""], &["-s", "nowhere"], &["-s", "."], &["--num-threads", "0"], &["--num-threads", "-1"], &["--num-threads", "99999999999999999999"], &["--num-threads", ""], &["--num-threads", "x"], &["--custom-scalar-prefix", "x"], &["--use-custom-scalars"], &["--use-custom-scalars=x"], &["-c", "nowhere"], &["-c", "."], &["-c", "q.graphql"], &["--global-types-module-name", ""], &["--global-types-module-name", "no/such/dir"], &["--root-dir-import-prefix", ""], &["-h"], &["--version"], &["."]];
/// The values that are no JSON a field of the config file may have.
const V12: [&str; 14] = ["null", "true", "1", "-1", "1.5", "1e400", "\"\"", "\"x\"", "[]", "[\"x\"]", "{}", "99999999999999999999", "\"\\ud800\"", "\"\u{e9}\""];
const O12: [&str; 10] = ["schemaFile", "useCustomScalars", "disableReadonlyTypes", "customScalarPrefix", "numThreads", "showDeprecationWarnings", "rootDirImportPrefix", "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "nope"];
fn robust(k: u64) {
    let s = Schema::sdl(S12);
    let mut e = vec![text("f.graphql", "fragment F on N { i }")];
    if k == 5 || k == 6 { e = vec![text("d.graphql", "fragment I on N { i }")]; }
    let mut a = args(&[]);
    let mut shown: Vec<u8> = vec![];
    if k != 8 { e.push(bytes("schema.json", s.json())); }
    match k {
        // a document with one or two arbitrary bytes, in place of or between its own, or cut short
        0..=3 | 20 | 21 | 23 => {
            let mut t = if k >= 20 { [D12[1], D12[5], D12[6], D12[9], D12[8]][ch("document", 5) as usize] } else { D12[ch("document", 10) as usize] }.as_bytes().to_vec();
            let n = t.len() as u64;
            match k % 20 {
                0 => { let at = ch("position", n) as usize; t[at] = sy("byte", 0, 255); }
                1 => { let at = ch("position", n + 1) as usize; t.insert(at, sy("byte", 0, 255)); }
                2 => { t.truncate(ch("length", n) as usize); if yes("tail") { t.push(sy("byte", 0, 255)); } }
                _ => { let at = ch("position", n - 1) as usize; t[at] = sy("byte", 0, 255); t[at + 1] = sy("byte", 0, 255); }
            }
            shown = t.clone();
            e.push(bytes("q.graphql", t));
        }
        // leading lines with symbolic bytes around the word and the quotes of an import
        4 | 24 => {
            let mut t: Vec<u8> = [&b"#import \""[..], b"#import '", b"#import", b"# import \"f", b"#"][ch("head", 5) as usize].to_vec();
            for _ in 0..ch("bytes", if k == 4 { 4 } else { 3 }) { t.push(sy("byte", 0, 255)); }
            t.extend_from_slice([&b"\"\nquery Q { a n { ...F } }"[..], b"\nquery Q { a }", b"'", b"", b"f.graphql\"\n"][ch("tail", 5) as usize]);
            shown = t.clone();
            e.push(bytes("q.graphql", t));
        }
        // import and spread graphs with every cycle
        5 | 6 => {
            for f in 0..3 {
                let mut t = String::new();
                let (imps, spreads) = if k == 5 { (1, if f == 0 { 2 } else { 1 }) } else { (if f < 2 { 2 } else { 1 }, 1) };
                for j in 0..imps { t.push_str("#import \"./"); t = cat(&t, sy("import", b'a', if j == 1 { b'c' } else { b'd' })); t.push_str(".graphql\"\n"); }
                let op = f == 0 && (k == 6 || yes("operation"));
                t.push_str(if op { "query Q { n { i " } else { ["fragment F on N { i ", "fragment G on N { i ", "fragment H on N { i "][f] });
                for j in 0..spreads { if j == 1 { t.push_str(" n { "); } t.push_str("..."); t = cat(&t, sy("spread", b'F', b'I')); t.push_str(if j == 1 { " } " } else { " " }); }
                t.push_str(if op { "} }" } else { "}" });
                shown.extend_from_slice(t.as_bytes()); shown.push(b'\n');
                e.push(text(["a.graphql", "b.graphql", "c.graphql"][f], &t));
            }
        }
        // input graphs
        7 => {
            let mut t = String::from("{\"data\":{\"__schema\":{\"types\":["); t.push_str(Q16);
            for n in ["I", "J", "K"] {
                t.push_str(",{\"kind\":\"INPUT_OBJECT\",\"name\":\""); t.push_str(n); t.push_str("\",\"inputFields\":[");
                for (j, f) in ["f", "g"].iter().enumerate() {
                    if j > 0 { t.push(','); }
                    t.push_str("{\"name\":\""); t.push_str(f); t.push_str("\",\"type\":{\"kind\":\"INPUT_OBJECT\",\"name\":\""); t = cat(&t, sy("type", b'I', b'L')); t.push_str("\"}}");
                }
                t.push_str("]}");
            }
            t.push_str("]}}}"); shown = t.clone().into_bytes();
            e.clear();
            e.push(text("schema.json", &t));
            let mut q = cat("query Q($v: ", sy("variable", b'I', b'L')); q.push_str(") { a }");
            e.push(text("q.graphql", &q));
        }
        // a schema one part of which is replaced, left out or contradicted by another, under documents that use it all
        8 => {
            let mut j = Rd::text(&s.json()).expect("model: schema"); let n = nodes(&j); let mut at = ch("node", n);
            mutate(&mut j, &mut at, ch("mutation", 11)); let mut t = vec![]; put_json(&j, &mut t);
            shown = t.clone();
            e.push(bytes("schema.json", t));
            e.push(text("q.graphql", "#import \"f.graphql\"\nquery Q($i: I, $x: [X!], $z: Z) { a n { __typename i n { i } ... on A { x n { i } } ...F } u { __typename ... on A { i } ... on B { j } ... on N { n { i } } } }"));
            e.push(text("m.graphql", "mutation M { m }"));
        }
        // the config file: any option with any value, a symbolic byte, or cut short
        9 => {
            let (o, v) = (O12[ch("option", 10) as usize], V12[ch("value", 14) as usize]);
            let mut t = String::from("{\""); t.push_str(o); t.push_str("\":"); t.push_str(v); t.push('}');
            shown = t.clone().into_bytes();
            e.push(text(".qlcrc.json", &t)); e.push(text("q.graphql", "#import \"f.graphql\"\nquery Q { a n { ...F } u { ... on B { j } } }"));
        }
        10 => {
            let mut t = b"{\"schemaFile\":\"schema.json\",\"numThreads\":2,\"useCustomScalars\":true}".to_vec();
            let at = ch("position", t.len() as u64) as usize;
            match ch("how", 3) { 0 => t[at] = sy("byte", 0, 255), 1 => t.insert(at, sy("byte", 0, 255)), _ => t.truncate(at) }
            shown = t.clone();
            e.push(bytes(".qlcrc.json", t)); e.push(text("q.graphql", "query Q { a n { i } }"));
            if at > 20 && at < 48 { a = nc(&["--num-threads", "1"]); }
        }
        // long runs of multi-byte characters, at every alignment, wherever a text can be quoted, copied or looked up
        13 => {
            let mut x = "xxxx"[..ch("alignment", 4) as usize].to_string(); let c = ["\u{e9}", "\u{20ac}", "\u{1f600}"][ch("character", 3) as usize]; for _ in 0..[1, 20, 45, 300][ch("length", 4) as usize] { x.push_str(c); }
            let site = ch("site", 12);
            let mut s = Schema::sdl(S12);
            match site { 8 => s.get_mut("Query").fields[0].desc = Some(x.clone()), 9 => { let n = s.get_mut("X"); n.desc = Some(x.clone()); n.vals.push(x.clone()); } _ => {} }
            e.retain(|e| e.path != "schema.json"); e.push(bytes("schema.json", s.json()));
            let q = match site {
                0 => format!("#import \"{x}\"\nquery Q {{ a }}"), 1 => format!("#import \"f.graphql\" {x}\nquery Q {{ a n {{ ...F }} }}"), 2 => format!("# {x}\nquery Q {{ a }}"),
                3 => format!("query Q {{ a(x: \"{x}\") zz }}"), 4 => format!("query Q {{ zz # {x}\n }}"), 5 => format!("query Q {{ a {x} }}"), 6 => format!("query Q($v: I = {{f: \"{x}\"}}, $w: NoSuch) {{ a }}"), 7 => format!("query Q {{ a @d(r: \"\"\"{x}\n  {x}\"\"\") }}"),
                10 => format!("#import '{x}.graphql'\nquery Q {{ n {{ ...F }} }}"),
                _ => "query Q($x: [X!]) { a n { i } }".to_string() };
            if site == 11 && x.len() < 200 { let mut p = x.clone(); p.push_str(".graphql"); e.push(text(&p, "query Q { zz }")); }
            shown = q.clone().into_bytes(); e.push(text("q.graphql", &q));
        }
        // command lines
        _ => {
            let mut v: Vec<&str> = vec![];
            for _ in 0..if k == 11 { 2 } else { 3 } { v.extend_from_slice(ARGS12[ch("argument", 26) as usize]); }
            shown = v.join(" ").into_bytes();
            a = nc(&v);
            e.push(text("q.graphql", "#import \"f.graphql\"\nquery Q { n { ...F } u { ... on B { j } } }"));
        }
    }
    let mut fs = Fs::new(e);
    let o = fs.run(&a, &Opts::default());
    ensure(o.ended(), "the run did not end normally", &|| format!("{}\n{}", join(&shown), String::from_utf8_lossy(&o.err)));
    // 2 is for command lines that make no sense; failing runs say something
    let p = out::parse(&o.out);
    if k != 11 && k != 12 { ensure(o.code != 2, "a file made the command line invalid", &|| join(&shown)); ensure((o.code == 1) == (p.nerr() > 0), "failure without an error, or an error without failure", &|| format!("{}\n{}", join(&shown), o.text())); }
    cover(match o.code { 0 => "succeeded", 1 => "failed", _ => "usage" });
}

// ---- P16 ----
#[derive(Clone, Debug)]
enum J { Null, Bool, Num, Str(Vec<u8>), Arr(Vec<J>), Obj(Vec<(Vec<u8>, J)>) }
/// A reader of RFC 8259 texts (ASCII).
struct Rd<'a> { t: &'a [u8], i: usize }
impl<'a> Rd<'a> {
    fn at(&self) -> Option<u8> { if self.i < self.t.len() { Some(self.t[self.i]) } else { None } }
    fn ws(&mut self) { while let Some(c) = self.at() { if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; } else { return; } } }
    fn word(&mut self, w: &[u8], j: J) -> Option<J> { if self.i + w.len() <= self.t.len() && &self.t[self.i..self.i + w.len()] == w { self.i += w.len(); Some(j) } else { None } }
    fn string(&mut self) -> Option<Vec<u8>> {
        let mut v = vec![]; self.i += 1;
        loop {
            let c = self.at()?; self.i += 1;
            if c == b'"' { return Some(v); }
            if c < 32 { return None; }
            if c != b'\\' { v.push(c); continue; }
            let e = self.at()?; self.i += 1;
            v.push(match e { b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'b' => 8, b'f' => 12, b'"' | b'\\' | b'/' => e, b'u' => { for _ in 0..4 { let h = self.at()?; if !h.is_ascii_hexdigit() { return None; } self.i += 1; } b'?' } _ => return None });
        }
    }
    fn digits(&mut self) -> bool { let s = self.i; while let Some(c) = self.at() { if c >= b'0' && c <= b'9' { self.i += 1; } else { break; } } self.i > s }
    fn number(&mut self) -> Option<J> {
        if self.at() == Some(b'-') { self.i += 1; }
        if self.at() == Some(b'0') { self.i += 1; } else if !self.digits() { return None; }
        if self.at() == Some(b'.') { self.i += 1; if !self.digits() { return None; } }
        if matches!(self.at(), Some(b'e') | Some(b'E')) { self.i += 1; if matches!(self.at(), Some(b'+') | Some(b'-')) { self.i += 1; } if !self.digits() { return None; } }
        Some(J::Num)
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match self.at()? {
            b'n' => self.word(b"null", J::Null), b't' => self.word(b"true", J::Bool), b'f' => self.word(b"false", J::Bool),
            b'"' => Some(J::Str(self.string()?)),
            b'[' => { self.i += 1; let mut v = vec![]; self.ws(); if self.at()? == b']' { self.i += 1; return Some(J::Arr(v)); } loop { v.push(self.value()?); self.ws(); let c = self.at()?; self.i += 1; if c == b']' { return Some(J::Arr(v)); } if c != b',' { return None; } } }
            b'{' => { self.i += 1; let mut v = vec![]; self.ws(); if self.at()? == b'}' { self.i += 1; return Some(J::Obj(v)); } loop { self.ws(); if self.at()? != b'"' { return None; } let k = self.string()?; self.ws(); if self.at()? != b':' { return None; } self.i += 1; v.push((k, self.value()?)); self.ws(); let c = self.at()?; self.i += 1; if c == b'}' { return Some(J::Obj(v)); } if c != b',' { return None; } } }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
    fn text(t: &'a [u8]) -> Option<J> { let mut r = Rd { t, i: 0 }; let v = r.value()?; r.ws(); if r.i == t.len() { Some(v) } else { None } }
}
fn put_json(j: &J, o: &mut Vec<u8>) {
    match j {
        J::Null => o.extend_from_slice(b"null"), J::Bool => o.extend_from_slice(b"true"), J::Num => o.push(b'3'), J::Str(s) => { let mut t = String::new(); crate::model::esc(unsafe { std::str::from_utf8_unchecked(s) }, &mut t); o.extend_from_slice(t.as_bytes()) }
        J::Arr(v) => { o.push(b'['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(b','); } put_json(x, o); } o.push(b']'); }
        J::Obj(v) => { o.push(b'{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(b','); } put_json(&J::Str(k.clone()), o); o.push(b':'); put_json(x, o); } o.push(b'}'); }
    }
}
/// What is wrong with a text as introspection result. Err(true): it is malformed; Err(false): open.
type V = Result<(), bool>;
fn all(v: &[V]) -> V { if v.contains(&Err(true)) { Err(true) } else if v.contains(&Err(false)) { Err(false) } else { Ok(()) } }
const NO: V = Err(true);
static NULL: J = J::Null;
impl J {
    fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(v) => v.iter().find(|x| x.0 == k.as_bytes()).map(|x| &x.1), _ => None } }
    fn opt(&self, k: &str) -> &J { self.get(k).unwrap_or(&NULL) }
    fn twice(&self) -> bool { match self { J::Obj(v) => (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0)), _ => false } }
    fn str(&self) -> Option<&[u8]> { match self { J::Str(s) => Some(s), _ => None } }
    fn strn(&self) -> V { match self { J::Str(_) | J::Null => Ok(()), _ => NO } }
}
fn obj(j: &J) -> V { match j { J::Obj(_) => if j.twice() { Err(false) } else { Ok(()) }, J::Arr(v) if !v.is_empty() => Err(false), _ => NO } }
/// The shape of a type reference, and (if `deep`) what it says.
fn v_ref(j: &J, deep: bool) -> V {
    obj(j)?;
    let k = match j.get("kind").and_then(|k| k.str()) { Some(k) => k, None => return NO };
    j.opt("name").strn()?;
    let of = j.opt("ofType");
    let wrap = k == b"NON_NULL" || k == b"LIST";
    let r = match of { J::Null => if wrap { NO } else { Ok(()) }, x => v_ref(x, deep && wrap) };
    if !deep { return match r { Err(true) if matches!(of, J::Null) => Err(false), r => r }; }
    r?;
    if wrap { return Ok(()); }
    if j.opt("name").str().is_none() { return NO; }
    if [&b"OBJECT"[..], b"INTERFACE", b"UNION", b"ENUM", b"SCALAR", b"INPUT_OBJECT"].contains(&k) { Ok(()) } else { NO }
}
fn v_field(j: &J, deep: bool) -> V {
    obj(j)?;
    if j.get("name").and_then(|n| n.str()).is_none() { return NO; }
    j.opt("description").strn()?;
    match j.opt("isDeprecated") { J::Null | J::Bool => {} _ => return NO }
    match j.get("type") { Some(t) => v_ref(t, deep), None => NO }
}
fn v_named(j: &J) -> V { obj(j)?; if j.get("name").and_then(|n| n.str()).is_some() { Ok(()) } else { NO } }
/// A list: null or absent is malformed where it is due and open elsewhere.
fn v_list(j: &J, due: bool, empty: bool, f: &dyn Fn(&J) -> V) -> V { match j { J::Null => if due { NO } else { Ok(()) }, J::Arr(v) => if v.is_empty() && due && !empty { Err(false) } else { all(&v.iter().map(|x| f(x)).collect::<Vec<_>>()) }, _ => NO } }
fn v_type(j: &J) -> V {
    obj(j)?;
    let k = match j.get("kind").and_then(|k| k.str()) { Some(k) => k.to_vec(), None => return NO };
    if j.get("name").and_then(|n| n.str()).is_none() { return NO; }
    let due = |ks: &[&[u8]]| ks.contains(&&k[..]);
    let (f, i, e, p) = (due(&[b"OBJECT", b"INTERFACE"]), due(&[b"INPUT_OBJECT"]), due(&[b"ENUM"]), due(&[b"INTERFACE", b"UNION"]));
    let kind = if f || i || e || p || k == b"SCALAR" { Ok(()) } else { NO };
    all(&[kind, j.opt("description").strn(), v_list(j.opt("fields"), f, false, &|x| v_field(x, f)), v_list(j.opt("inputFields"), i, false, &|x| v_field(x, i)), v_list(j.opt("enumValues"), e, false, &v_named), v_list(j.opt("possibleTypes"), p, k == b"INTERFACE", &v_named)])
}
fn v_schema(j: &J) -> V {
    obj(j)?;
    let d = match j.get("data") { Some(d) => d, None => return NO }; obj(d)?;
    let s = match d.get("__schema") { Some(s) => s, None => return NO }; obj(s)?;
    match s.get("types") { Some(J::Arr(v)) => all(&v.iter().map(v_type).collect::<Vec<_>>()), _ => NO }
}
const Q16: &str = "{\"kind\":\"OBJECT\",\"name\":\"Query\",\"fields\":[{\"name\":\"a\",\"type\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}}]}";
fn nodes(j: &J) -> u64 { 1 + match j { J::Arr(v) => v.iter().map(nodes).sum(), J::Obj(v) => v.iter().map(|x| nodes(&x.1)).sum(), _ => 0u64 } }
const KINDS: [&[u8]; 8] = [b"OBJECT", b"INTERFACE", b"UNION", b"ENUM", b"SCALAR", b"INPUT_OBJECT", b"LIST", b"NON_NULL"];
fn mutate(j: &mut J, n: &mut u64, how: u64) {
    if *n == 0 {
        *n = u64::MAX;
        *j = match how { 0 => J::Null, 1 => J::Str(b"x".to_vec()), 2 => J::Num, 3 => J::Obj(vec![]), 4 => J::Arr(vec![]), 5 => J::Bool, 6 => J::Arr(vec![J::Null]), 7 => match &*j { J::Obj(v) => { let c = ch("drop", v.len().max(1) as u64) as usize; let mut v = v.clone(); if !v.is_empty() { v.remove(c); } J::Obj(v) } J::Arr(v) => { let mut v = v.clone(); v.push(J::Null); J::Arr(v) } J::Str(s) => { let mut s = s.clone(); s.push(b' '); J::Str(s) } x => x.clone() }, 9 => match &*j { J::Str(s) if s.len() == 1 => J::Str(vec![sy("name", b'A', b'Z')]), J::Arr(v) if v.len() > 1 => { let c = ch("repeat", v.len() as u64) as usize; let mut v = v.clone(); v.push(v[c].clone()); J::Arr(v) } x => x.clone() }, 10 => match &*j { J::Arr(v) if v.len() > 1 => { let mut v = v.clone(); v.reverse(); J::Arr(v) } J::Str(s) => J::Str(KINDS[ch("kind", 8) as usize].to_vec()), x => x.clone() }, _ => J::Obj(vec![(b"kind".to_vec(), J::Str(b"LIST".to_vec()))]) };
        return;
    }
    if *n == u64::MAX { return; }
    *n -= 1;
    match j { J::Arr(v) => for x in v { mutate(x, n, how); if *n == u64::MAX { return; } }, J::Obj(v) => for (_, x) in v { mutate(x, n, how); if *n == u64::MAX { return; } }, _ => {} }
}
fn schema_text(k: u64) {
    let full = || { let mut s = Schema::sdl("type Query { a: Int n: [N!]! u: U! } interface N = A { i: ID @d } type A { i: ID! } union U = A enum X { P Q } input I { f: [[X!]] j: I } scalar Z"); s.get_mut("Query").fields[0].desc = Some("d\n\"e".into()); s.get_mut("X").desc = Some("x".into()); s.json() };
    let mut e = vec![text("q.graphql", "query Q { a }")];
    let mut t: Vec<u8> = vec![]; let mut missing = false;
    match k {
        // a prefix of a schema
        0 => { let f = full(); let n = ch("length", f.len() as u64 + 1) as usize; t = f[..n].to_vec(); }
        // a small schema with one symbolic character, replaced or inserted
        1 | 3 | 4 => {
            let rest = if k == 1 { "" } else { [
                ",{\"kind\":\"INTERFACE\",\"name\":\"N\",\"fields\":[{\"name\":\"i\",\"description\":\"d\\n\",\"type\":{\"kind\":\"LIST\",\"name\":null,\"ofType\":{\"kind\":\"NON_NULL\",\"ofType\":{\"kind\":\"ENUM\",\"name\":\"X\"}}},\"isDeprecated\":true}],\"possibleTypes\":[]}",
                ",{\"kind\":\"UNION\",\"name\":\"U\",\"fields\":null,\"possibleTypes\":[{\"name\":\"A\"},{\"name\":\"B\"}]}", ",{\"kind\":\"ENUM\",\"name\":\"X\",\"enumValues\":[{\"name\":\"P\",\"z\":-1.5e+20}]}", ",{\"kind\":\"INPUT_OBJECT\",\"name\":\"I\",\"inputFields\":[{\"name\":\"j\",\"type\":{\"kind\":\"INPUT_OBJECT\",\"name\":\"I\"}}]}"][ch("kind", 4) as usize] };
            t.extend_from_slice(b"{\"data\":{\"__schema\":{\"types\":["); t.extend_from_slice(Q16.as_bytes()); let from = if k == 1 { 0 } else { t.len() }; t.extend_from_slice(rest.as_bytes()); t.extend_from_slice(if k == 1 { b"]}} }" } else { b"]}}}" });
            let at = from + ch("position", (t.len() - from) as u64) as usize;
            let c = sy("character", 0, 127);
            if k == 4 { t.insert(at, c); } else { t[at] = c; }
        }
        // one part of a schema replaced or left out
        2 => { let f = full(); let mut j = Rd::text(&f).expect("model: schema"); let n = nodes(&j); let mut at = ch("node", n); mutate(&mut j, &mut at, ch("mutation", 9)); put_json(&j, &mut t); }
        // a kind of symbolic letters
        5 => { let (w, ty) = [(5, "\"possibleTypes\":[{\"name\":\"A\"}]"), (4, "\"enumValues\":[{\"name\":\"P\"}]"), (6, "\"fields\":[{\"name\":\"a\",\"type\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}}]"), (9, "\"fields\":[],\"possibleTypes\":[]")][ch("type", 4) as usize]; t.extend_from_slice(b"{\"data\":{\"__schema\":{\"types\":["); t.extend_from_slice(Q16.as_bytes()); t.extend_from_slice(b",{\"kind\":\""); for _ in 0..w { t.push(sy("letter", b'A', b'Z')); } t.extend_from_slice(b"\",\"name\":\"T\","); t.extend_from_slice(ty.as_bytes()); t.extend_from_slice(b"}]}}}"); }
        // the same for the type of a field
        6 => { let (w, x) = [(4, ",\"ofType\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}"), (8, ",\"ofType\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}"), (4, ""), (5, ",\"name\":\"U\""), (6, ",\"name\":\"U\",\"ofType\":null")][ch("type", 5) as usize]; t.extend_from_slice(b"{\"data\":{\"__schema\":{\"types\":["); t.extend_from_slice(Q16.as_bytes()); t.extend_from_slice(b",{\"kind\":\"OBJECT\",\"name\":\"T\",\"fields\":[{\"name\":\"f\",\"type\":{\"kind\":\""); for i in 0..w { t.push(if i == 3 && w == 8 { b'_' } else { sy("letter", b'A', b'Z') }); } t.push(b'"'); t.extend_from_slice(x.as_bytes()); t.extend_from_slice(b"}}]}]}}}"); }
        // a type of every kind with each of the four lists present (as long as it makes sense), null or absent
        8 => {
            let kind = ["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR"][ch("kind", 6) as usize];
            t.extend_from_slice(b"{\"data\":{\"__schema\":{\"types\":["); t.extend_from_slice(Q16.as_bytes()); t.extend_from_slice(b",{\"kind\":\""); t.extend_from_slice(kind.as_bytes()); t.extend_from_slice(b"\",\"name\":\"T\"");
            for (l, v) in [("fields", "{\"name\":\"a\",\"type\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}}"), ("inputFields", "{\"name\":\"a\",\"type\":{\"kind\":\"SCALAR\",\"name\":\"Int\"}}"), ("enumValues", "{\"name\":\"P\"}"), ("possibleTypes", "{\"name\":\"Query\"}")] {
                match ch(l, 3) { 0 => {} 1 => { t.extend_from_slice(b",\""); t.extend_from_slice(l.as_bytes()); t.extend_from_slice(b"\":null"); } _ => { t.extend_from_slice(b",\""); t.extend_from_slice(l.as_bytes()); t.extend_from_slice(b"\":["); t.extend_from_slice(v.as_bytes()); t.push(b']'); } }
            }
            t.extend_from_slice(b"}]}}}");
        }
        // no schema at all, or something that is no file
        _ => { missing = true; match ch("what", 5) { 0 => {} 1 => e.push(dir("schema.json")), 2 => e.push(link("schema.json", "nowhere")), 3 => { e.push(bytes("real.json", full())); e.push(link("schema.json", "real.json")); missing = false; t = full(); } _ => e.push(bytes("schema.jso", full())) } }
    }
    let verdict = if missing { NO } else { match Rd::text(&t) { None => NO, Some(j) => v_schema(&j) } };
    if k != 7 { e.push(bytes("schema.json", t.clone())); }
    let old = k != 1 && k < 3 && yes("old output"); if old { e.push(text("q.graphql.d.ts", "old")); }
    let mut fs = Fs::new(e);
    let o = fs.run(&args(&[]), &Opts::default());
    check(o.ended(), "the run did not end normally");
    let dump = || format!("{}\n{}{:?}", join(&t), o.text(), o.written);
    let p = out::parse(&o.out);
    let told = p.msgs.iter().any(|m| m.level != out::WARNING && (has(&m.text, "malformed schema") || has(&m.text, "could not read") || m.path.as_deref().map_or(false, |q| has(q, "schema.json"))));
    match verdict {
        Err(true) => { cover("malformed"); ensure(o.code == 1 && told, "a malformed schema is not reported", &dump); ensure(o.written.is_empty() && (!old || o.file("q.graphql.d.ts").is_some()), "something was written in spite of a malformed schema", &dump); }
        Ok(()) => { cover("well-formed"); ensure(!told, "a well-formed schema was rejected", &dump); }
        _ => cover("open"),
    }
}
