//! Scenarios, numbered property * 100 + k.
use crate::*;
use crate::fs::*;
use crate::model::*;
use crate::ts::{self, C};
pub mod docs;
pub mod sys;
pub mod types;

pub fn dispatch(id: u64) {
    match id {
        0 => smoke(),
        100..=699 | 1400..=1499 | 2000..=2199 => types::go(id),
        900..=1199 | 1300..=1399 | 1700..=1799 | 2200..=2299 => docs::go(id),
        700..=899 | 1200..=1299 | 1500..=1699 | 1800..=1999 => sys::go(id),
        _ => panic!("no scenario {}", id),
    }
}
pub fn args(a: &[&str]) -> Vec<String> { let mut v: Vec<String> = a.iter().map(|x| x.to_string()).collect(); v.push("--no-color".into()); v.push("--num-threads".into()); v.push("1".into()); v }
pub fn smoke() {
    let s = Schema::sdl("type Query { a: Int! b: [String] n: N } interface N = A|B { id: ID! } type A { id: ID! x: Int } type B { id: ID! y: E } enum E { P Q }");
    let q = "query Q { a bb: b n { id ... on A { x } ... on B { y } } }";
    let mut fs = Fs::new(vec![bytes("schema.json", s.json()), text("q.graphql", q)]);
    let o = fs.run(&args(&[]), &Opts::default());
    rt::out(&format!("code {} out {}", o.code, o.text()));
    for (p, d) in &o.files { if o.written.contains(p) { rt::out(&format!("--- {}\n{}", p, String::from_utf8_lossy(d))); } }
    check(o.code == 0, "exit 0");
    let d = doc(q);
    let m = ts::parse(o.file("q.graphql.d.ts").expect("no output")).expect("parse");
    let got = m.canon(m.ty("Q").expect("Q"), 20);
    let want = s.data(&d, &[], &Cfg::default());
    rt::out(&format!("got  {}\nwant {}", ts::show(&got), ts::show(&want)));
    check(ts::eqset(&got, &want), "shape");
}
