//! The tree a run works on, the run itself, and what was observed. Under the engine: in-memory tree, the compiled
//! program called in place. Natively: a scratch directory and the real binary (or this binary, for recorded hash orders and schedules).
use crate::*;
pub type Gen = Box<dyn Fn() -> Vec<u8>>;
pub enum What { Dir, File(Gen), Link(String) }
pub struct Ent { pub path: String, pub what: What }
#[derive(Clone, Default)]
pub struct Opts { pub hash: u64, pub order: u64, pub faults: u64, pub sched: bool, pub which: u64 }
#[derive(Default)]
pub struct Obs { pub code: u64, pub out: Vec<u8>, pub err: Vec<u8>, pub files: Vec<(String, Vec<u8>)>, pub written: Vec<String>, pub foreign: bool, pub faults: Vec<(char, String)>, pub threads: u64 }
impl Obs {
    pub fn file(&self, p: &str) -> Option<&[u8]> { self.files.iter().find(|f| f.0 == p).map(|f| &f.1[..]) }
    pub fn text(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.out) } }
    pub fn ended(&self) -> bool { self.code <= 2 }
}
pub fn file(p: &str, g: Gen) -> Ent { Ent { path: p.to_string(), what: What::File(g) } }
pub fn text(p: &str, t: &str) -> Ent { let t = t.as_bytes().to_vec(); file(p, Box::new(move || t.clone())) }
pub fn bytes(p: &str, t: Vec<u8>) -> Ent { file(p, Box::new(move || t.clone())) }
pub fn link(p: &str, to: &str) -> Ent { Ent { path: p.to_string(), what: What::Link(to.to_string()) } }
pub fn dir(p: &str) -> Ent { Ent { path: p.to_string(), what: What::Dir } }
fn dirs_of(p: &str) -> Vec<String> { let b = p.as_bytes(); (0..b.len()).filter(|&i| b[i] == b'/').map(|i| p[..i].to_string()).collect() }

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    use crate::vfs::*;
    pub struct Fs {}
    extern "C" fn tramp(_: *mut u8) { unsafe { let c = (MAIN.unwrap())(); std::process::exit(c); } }
    impl Fs {
        pub fn new(ents: Vec<Ent>) -> Fs {
            let mut w = World::new();
            let mk = |p: String, kind: Kind| Node { path: p, kind, data: Vec::new(), gen: None, opens: 0, written: 0, created: false, gone: false, link: None };
            w.nodes.push(mk(String::new(), Kind::Dir));
            for e in ents {
                for d in dirs_of(&e.path) { if !w.nodes.iter().any(|n| n.path == d) { w.nodes.push(mk(d, Kind::Dir)); } }
                match e.what {
                    What::Dir => if !w.nodes.iter().any(|n| n.path == e.path) { w.nodes.push(mk(e.path, Kind::Dir)) },
                    What::Link(t) => { let mut n = mk(e.path, Kind::Link); n.link = Some(t); w.nodes.push(n); }
                    What::File(g) => { let mut n = mk(e.path, Kind::File); n.gen = Some(g); w.nodes.push(n); }
                }
            }
            unsafe { W = Some(w); }
            Fs {}
        }
        pub fn run(&mut self, args: &[String], o: &Opts) -> Obs {
            let w = w();
            w.reset();
            w.fault_budget = o.faults; w.order_budget = o.order; w.foreign = false;
            unsafe { rt::HASH_BUDGET = o.hash; rt::RUN = o.which; rt::SPAWNED = 0; }
            let mut argv: Vec<*const u8> = vec![b"qlc\0".as_ptr()];
            for a in args { let mut v = a.as_bytes().to_vec(); v.push(0); argv.push(v.leak().as_ptr()); }
            let n = argv.len() as i32; argv.push(std::ptr::null()); argv.push(std::ptr::null());
            let argv = argv.leak();
            unsafe { rt::__sym_set_args(n, argv.as_ptr(), argv.as_ptr().add(n as usize)); }
            rt::sched(o.sched);
            let code = unsafe { rt::__sym_catch(tramp, std::ptr::null_mut()) };
            rt::sched(false);
            unsafe { rt::HASH_BUDGET = 0; }
            let w = crate::vfs::w(); w.order_budget = 0; w.fault_budget = 0;
            let faults = w.faults.iter().filter(|f| f.2 > 0).map(|f| (f.0 as char, w.nodes[f.1].path.clone())).collect();
            Obs { code, out: std::mem::take(&mut w.out), err: std::mem::take(&mut w.err), foreign: w.foreign, faults, threads: unsafe { rt::SPAWNED },
                files: w.nodes.iter().filter(|n| matches!(n.kind, Kind::File) && !n.gone).map(|n| (n.path.clone(), n.data.clone())).collect(),
                written: w.nodes.iter().filter(|n| n.written > 0).map(|n| n.path.clone()).collect() }
        }
        pub fn remove(&mut self, p: &str) { let w = w(); w.nodes.retain(|n| n.path != p); }
        pub fn put(&mut self, p: &str, d: Vec<u8>) { let w = w(); for n in w.nodes.iter_mut() { if n.path == p { n.data = d; n.gen = None; n.gone = false; return; } } w.nodes.push(Node { path: p.to_string(), kind: Kind::File, data: d, gen: None, opens: 0, written: 0, created: false, gone: false, link: None }); }
        /// The regular files as they are now.
        pub fn contents(&self) -> Vec<(String, Vec<u8>)> { w().nodes.iter_mut().filter(|n| matches!(n.kind, Kind::File) && !n.gone).map(|n| { if let Some(g) = n.gen.take() { n.data = g(); } (n.path.clone(), n.data.clone()) }).collect() }
        /// Times each path was opened or listed during the last run.
        pub fn opens(&self, p: &str) -> u32 { w().nodes.iter().find(|n| n.path == p).map_or(0, |n| n.opens) }
        pub fn writes(&self, p: &str) -> u32 { w().nodes.iter().find(|n| n.path == p).map_or(0, |n| n.written) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use super::*;
    use std::path::{Path, PathBuf};
    use std::process::{Command, Stdio};
    pub struct Fs { dir: PathBuf, before: Vec<(String, Vec<u8>)>, opened: Vec<String>, wrote: Vec<String> }
    static mut SEQ: u32 = 0;
    fn walk(d: &Path, rel: &str, v: &mut Vec<(String, Vec<u8>)>) {
        let mut e: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|x| x.ok()).collect()).unwrap_or_default();
        e.sort_by_key(|x| x.file_name());
        for x in e { let n = format!("{}{}", rel, x.file_name().to_string_lossy()); let t = x.file_type().unwrap(); if t.is_dir() { walk(&x.path(), &format!("{}/", n), v); } else if t.is_file() { v.push((n, std::fs::read(x.path()).unwrap_or_default())); } }
    }
    impl Fs {
        pub fn new(ents: Vec<Ent>) -> Fs {
            let dir = PathBuf::from(std::env::var("SCRATCH").expect("SCRATCH")).join(format!("t{}", unsafe { SEQ += 1; SEQ })).join("w");
            std::fs::create_dir_all(&dir).unwrap();
            for e in ents {
                let p = dir.join(&e.path);
                match e.what {
                    What::Dir => std::fs::create_dir_all(&p).unwrap(),
                    What::Link(t) => { if let Some(d) = p.parent() { std::fs::create_dir_all(d).unwrap(); } std::os::unix::fs::symlink(t, &p).unwrap() }
                    What::File(g) => { if let Some(d) = p.parent() { std::fs::create_dir_all(d).unwrap(); } std::fs::write(&p, g()).unwrap() }
                }
            }
            let mut before = Vec::new(); walk(&dir, "", &mut before);
            Fs { dir, before, opened: vec![], wrote: vec![] }
        }
        pub fn run(&mut self, args: &[String], o: &Opts) -> Obs {
            let model = o.hash > 0 || o.sched;
            let mut c = if model { let mut c = Command::new(std::env::current_exe().unwrap()); c.env("MODEL_RUN", "1").env("MODEL_HASH", o.hash.to_string()).env("MODEL_WHICH", o.which.to_string()).env("MODEL_SCHED", (o.sched as u32).to_string()); c } else { Command::new(std::env::var("QLC_BIN").expect("QLC_BIN")) };
            c.args(args).current_dir(&self.dir).stdin(Stdio::null());
            let log = self.dir.parent().unwrap().join("opens");
            let _ = std::fs::remove_file(&log);
            if let Ok(s) = std::env::var("SHIM") { c.env("LD_PRELOAD", s).env("SHIM_ROOT", &self.dir).env("SHIM_LOG", &log); }
            let mut fl = String::new(); let mut faults = vec![];
            if let Ok(f) = std::env::var("SYM_CHOICES") { for l in std::fs::read_to_string(f).unwrap_or_default().lines() { if let Some(r) = l.strip_prefix("fault:") { if o.faults > 0 { if let Some((a, v)) = r.rsplit_once(' ') { if v != "0" { let a = a.split('#').next().unwrap(); fl += &format!("{} {} {}\n", &a[..1], v, &a[2..]); faults.push((a.chars().next().unwrap(), a[2..].to_string())); } } } } else if let Some(r) = l.strip_prefix("order#") { if o.order > 0 { fl += &format!("O {}\n", r); } } } }
            if !fl.is_empty() { let p = self.dir.parent().unwrap().join("plan"); std::fs::write(&p, fl).unwrap(); c.env("SHIM_PLAN", p); }
            println!("replay: {} {:?}", if model { "model run" } else { "qlc" }, args);
            let mut so = self.dir.parent().unwrap().to_path_buf(); so.push("stdout"); let mut se = so.clone(); se.set_file_name("stderr");
            c.stdout(std::fs::File::create(&so).unwrap()).stderr(std::fs::File::create(&se).unwrap());
            let mut k = c.spawn().expect("spawn");
            let t0 = std::time::Instant::now();
            let code = loop {
                match k.try_wait().unwrap() {
                    Some(st) => { use std::os::unix::process::ExitStatusExt; break match st.code() { Some(101) => 1000, Some(77) => 1004, Some(c) => c as u64, None => if st.signal() == Some(6) || st.signal() == Some(11) { 1001 } else { 1000 } } }
                    None => { if t0.elapsed().as_secs() > 20 { let _ = k.kill(); let _ = k.wait(); break 1002; } std::thread::sleep(std::time::Duration::from_millis(3)); }
                }
            };
            let (out, err) = (std::fs::read(so).unwrap_or_default(), std::fs::read(se).unwrap_or_default());
            println!("replay: exit {} stdout {:?} stderr {:?}", code, String::from_utf8_lossy(&out), String::from_utf8_lossy(&err));
            let mut files = Vec::new(); walk(&self.dir, "", &mut files);
            let lg = std::fs::read_to_string(&log).unwrap_or_default();
            self.opened = lg.lines().filter_map(|l| l.strip_prefix("r ")).map(|x| x.to_string()).collect();
            self.wrote = lg.lines().filter_map(|l| l.strip_prefix("w ")).map(|x| x.to_string()).collect();
            let written: Vec<String> = files.iter().filter(|(p, d)| self.wrote.contains(p) || !self.before.iter().any(|(q, e)| q == p && e == d)).map(|(p, _)| p.clone()).chain(self.before.iter().filter(|(p, _)| !files.iter().any(|(q, _)| p == q)).map(|(p, _)| p.clone())).collect();
            for (p, d) in &files { if written.contains(p) { println!("replay: wrote {} {:?}", p, String::from_utf8_lossy(d)); } }
            self.before = files.clone();
            Obs { code, out, err, files, written, foreign: false, faults, threads: lg.lines().filter(|l| l.starts_with("t ")).count() as u64 }
        }
        pub fn remove(&mut self, p: &str) { let _ = std::fs::remove_file(self.dir.join(p)); self.before.retain(|b| b.0 != p); }
        pub fn put(&mut self, p: &str, d: Vec<u8>) { std::fs::write(self.dir.join(p), &d).unwrap(); self.before.retain(|b| b.0 != p); self.before.push((p.to_string(), d)); }
        pub fn contents(&self) -> Vec<(String, Vec<u8>)> { let mut v = Vec::new(); walk(&self.dir, "", &mut v); v }
        pub fn opens(&self, p: &str) -> u32 { self.opened.iter().filter(|x| *x == p).count() as u32 }
        pub fn writes(&self, p: &str) -> u32 { self.wrote.iter().filter(|x| *x == p).count() as u32 }
    }
}
pub use imp::Fs;
