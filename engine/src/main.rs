#![allow(static_mut_refs)]
mod exec; mod ll; mod solver; mod term;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn arr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }
fn mapj(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")) }

fn to_json(r: &Report, m: &ll::Module, extra: &str) -> String {
    let viol: Vec<String> = r.violations.iter().map(|(msg, a, n)| format!("{{\"message\":{},\"choices\":[{}],\"notes\":{}}}", esc(msg), a.iter().map(|(k, v)| format!("[{},{}]", esc(k), v)).collect::<Vec<_>>().join(","), arr(n))).collect();
    format!("{{\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"checks_symbolic\":{},\"checks_concrete\":{},\"outcomes\":{},\"covers\":{},\"nviol\":{},\"violations\":[{}],\"errors\":{},\"functions\":{},\"samples\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"max_query_ms\":{:.1},\"max_depth\":{},\"max_vars\":{},\"transitions\":{}{}}}",
        r.paths, r.pruned, r.forks, r.steps, r.checks_sym, r.checks_conc, mapj(&r.outcomes), mapj(&r.covers), r.nviol, viol.join(","), arr(&r.errors), arr(&r.funcs.iter().map(|&i| m.funcs[i as usize].name.clone()).collect::<Vec<_>>()), arr(&r.samples),
        r.st.queries, r.st.sat, r.st.unsat, r.st.unknown, r.st.cached, r.st.secs, r.st.max_ms, r.maxdepth, r.maxvars, r.transitions, extra)
}

fn main() {
    // a big stack for recursive term walks
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let llf = get("--ll").expect("--ll FILE");
    let entry = get("--entry").unwrap_or("verif_entry".into());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let workers: usize = get("--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
    let params: Vec<u64> = get("--params").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let budget: u64 = get("--budget").and_then(|x| x.parse().ok()).unwrap_or(800);
    let runlim: u64 = get("--run-limit").and_then(|x| x.parse().ok()).unwrap_or(100_000_000);
    let preempt: u32 = get("--preempt").and_then(|x| x.parse().ok()).unwrap_or(2);
    let t0 = Instant::now();
    term::init();
    let src = std::fs::read(&llf).expect("read ll");
    let m: &'static ll::Module = Box::leak(Box::new(ll::parse(&src)));
    drop(src);
    let tparse = t0.elapsed().as_secs_f64();
    let mut e = Eng::new(m);
    e.params = params; e.set_limits(runlim, preempt); e.verbose = a.iter().any(|x| x == "--verbose"); e.watch = get("--watch").map_or(0, |x| u64::from_str_radix(&x, 16).unwrap()); e.trace = a.iter().any(|x| x == "--trace");
    e.deadline = t0 + Duration::from_secs(budget);
    let f = *m.fidx.get(&entry).expect("entry function");
    let st = e.initial(f);
    e.work.push(st);
    // A process per worker; whoever has pending states while a slot is free forks and keeps every other one.
    let dir = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (free, ids) = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicIsize; (&*p, &*p.add(16)) };
    free.store(workers as isize - 1, SeqCst);
    let mut kids: Vec<(i32, isize)> = vec![]; let mut me = 0isize;
    let mut last = Instant::now();
    let mut split = |e: &mut Eng| {
        if last.elapsed() < Duration::from_millis(20) || free.load(SeqCst) <= 0 || free.fetch_sub(1, SeqCst) <= 0 && { free.fetch_add(1, SeqCst); true } { return; }
        last = Instant::now();
        let id = ids.fetch_add(1, SeqCst) + 1;
        let (mut a, mut b) = (vec![], vec![]);
        for (i, s) in std::mem::take(&mut e.work).into_iter().enumerate() { if i % 2 == 0 { a.push(s) } else { b.push(s) } }
        match unsafe { fork() } {
            0 => { me = id; kids.clear(); e.rep = Report::default(); e.sv.st = Default::default(); e.work = a; }
            -1 => { free.fetch_add(1, SeqCst); a.extend(b); e.work = a; }
            p => { kids.push((p, id)); e.work = b; }
        }
    };
    e.explore(&mut split);
    free.fetch_add(1, SeqCst);
    e.rep.st = e.sv.st.clone(); e.rep.funcs = e.funcs_seen();
    for (p, id) in kids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } match std::fs::read_to_string(dir.join(id.to_string())) { Ok(t) if s == 0 => merge(&mut e.rep, de(&t)), _ => e.rep.errors.push(format!("worker {} died (status {})", id, s)) } }
    if me != 0 { std::fs::write(dir.join(me.to_string()), ser(&e.rep)).unwrap(); unsafe { _exit(0) } }
    let _ = std::fs::remove_dir_all(&dir);
    Eng::uniq(&mut e.rep.errors); e.rep.errors.truncate(20);
    let extra = format!(",\"wall_s\":{:.3},\"parse_s\":{:.3},\"z3\":{},\"module_functions\":{},\"module_instructions\":{}", t0.elapsed().as_secs_f64(), tparse, esc(&solver::Solver::version()), m.funcs.len(), m.funcs.iter().map(|f| f.ninst).sum::<usize>());
    let j = to_json(&e.rep, m, &extra);
    let mut fo = std::fs::File::create(&out).unwrap(); fo.write_all(j.as_bytes()).unwrap(); fo.write_all(b"\n").unwrap();
    unsafe { _exit(0) }
}

// ---- worker report transfer: line records with hex-escaped strings ----
fn hx(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect::<String>() + "." }
fn uh(s: &str) -> String { let s = s.trim_end_matches('.'); let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8_lossy(&b).into_owned() }
fn ser(r: &Report) -> String {
    let mut o = String::new();
    o += &format!("N {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n", r.paths, r.pruned, r.forks, r.steps, r.checks_sym, r.checks_conc, r.nviol, r.maxdepth, r.maxvars, r.transitions, r.st.queries, r.st.sat, r.st.unsat, r.st.unknown, r.st.cached, r.st.secs, r.st.max_ms);
    for (k, v) in &r.outcomes { o += &format!("O {} {}\n", hx(k), v); }
    for (k, v) in &r.covers { o += &format!("C {} {}\n", hx(k), v); }
    for s in &r.errors { o += &format!("E {}\n", hx(s)); }
    for s in &r.samples { o += &format!("S {}\n", hx(s)); }
    for f in &r.funcs { o += &format!("F {}\n", f); }
    for (m, a, n) in &r.violations { o += &format!("V {} {} {} {} {}\n", hx(m), a.len(), a.iter().map(|(k, v)| format!("{} {}", hx(k), v)).collect::<Vec<_>>().join(" "), n.len(), n.iter().map(|x| hx(x)).collect::<Vec<_>>().join(" ")); }
    o
}
fn de(t: &str) -> Report {
    let mut r = Report::default();
    for l in t.lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| p[i].parse::<u64>().unwrap();
        match p[0] {
            "N" => { r.paths = n(1); r.pruned = n(2); r.forks = n(3); r.steps = n(4); r.checks_sym = n(5); r.checks_conc = n(6); r.nviol = n(7); r.maxdepth = n(8) as u32; r.maxvars = n(9) as u32; r.transitions = n(10);
                r.st.queries = n(11); r.st.sat = n(12); r.st.unsat = n(13); r.st.unknown = n(14); r.st.cached = n(15); r.st.secs = p[16].parse().unwrap(); r.st.max_ms = p[17].parse().unwrap(); }
            "O" => { r.outcomes.insert(uh(p[1]), n(2)); } "C" => { r.covers.insert(uh(p[1]), n(2)); }
            "E" => r.errors.push(uh(p[1])), "S" => r.samples.push(uh(p[1])), "F" => r.funcs.push(n(1) as u32),
            "V" => { let na = n(2) as usize; let a = (0..na).map(|i| (uh(p[3 + 2 * i]), n(4 + 2 * i))).collect(); let nn = n(3 + 2 * na) as usize; let no = (0..nn).map(|i| uh(p[4 + 2 * na + i])).collect(); r.violations.push((uh(p[1]), a, no)); }
            _ => {}
        }
    }
    r
}
fn merge(a: &mut Report, b: Report) {
    a.paths += b.paths; a.pruned += b.pruned; a.forks += b.forks; a.steps += b.steps; a.checks_sym += b.checks_sym; a.checks_conc += b.checks_conc; a.nviol += b.nviol; a.transitions += b.transitions;
    a.maxdepth = a.maxdepth.max(b.maxdepth); a.maxvars = a.maxvars.max(b.maxvars);
    for (k, v) in b.outcomes { *a.outcomes.entry(k).or_default() += v; } for (k, v) in b.covers { *a.covers.entry(k).or_default() += v; }
    a.errors.extend(b.errors); for s in b.samples { if a.samples.len() < 6 { a.samples.push(s); } } for f in b.funcs { if !a.funcs.contains(&f) { a.funcs.push(f); } }
    a.violations.extend(b.violations);
    let (s, t) = (&mut a.st, &b.st); s.queries += t.queries; s.sat += t.sat; s.unsat += t.unsat; s.unknown += t.unknown; s.cached += t.cached; s.secs += t.secs; if t.max_ms > s.max_ms { s.max_ms = t.max_ms; }
}
