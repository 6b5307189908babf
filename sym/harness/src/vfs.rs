//! A small in-memory file system behind the C library entry points that the real standard library calls.
//! The engine redirects every call of an external `f` to `__libc_f` below.
use std::os::raw::c_char;
use symstd::rt;

pub enum Kind { Dir, File, Link }
pub type Gen = Box<dyn Fn() -> Vec<u8>>;
pub struct Node { pub path: String, pub kind: Kind, pub data: Vec<u8>, pub gen: Option<Gen>, pub opens: u32, pub written: u32, pub created: bool, pub gone: bool, pub link: Option<String> }
pub struct Fd { node: usize, pos: usize, write: bool, append: bool, read: bool, half: bool }
pub struct DirH { ents: Vec<(Vec<u8>, u8)>, pos: usize, node: usize, buf: [u8; 280] }
pub struct World { pub nodes: Vec<Node>, fds: Vec<Option<Fd>>, pub out: Vec<u8>, pub err: Vec<u8>, pub faults: Vec<(u8, usize, u64)>, pub fault_budget: u64, pub order_budget: u64, pub log: Vec<String>, pub foreign: bool }
pub static mut W: Option<World> = None;
pub fn w() -> &'static mut World { unsafe { W.as_mut().expect("no file system outside a run") } }
impl World {
    pub fn new() -> World { World { nodes: Vec::new(), fds: Vec::new(), out: Vec::new(), err: Vec::new(), faults: Vec::new(), fault_budget: 0, order_budget: 0, log: Vec::new(), foreign: false } }
    pub fn reset(&mut self) { self.fds.clear(); self.out.clear(); self.err.clear(); self.log.clear(); self.faults.clear(); for n in self.nodes.iter_mut() { n.opens = 0; n.written = 0; n.created = false; } }
    fn find(&self, p: &[u8]) -> Option<usize> { let mut i = 0; while i < self.nodes.len() { let n = &self.nodes[i]; if !n.gone && n.path.len() == p.len() && n.path.as_bytes() == p { return Some(i); } i += 1; } None }
    /// 1: parent exists, 2: no such directory, 20: not a directory
    fn parent(&self, p: &[u8]) -> i32 { let mut k = p.len(); while k > 0 && p[k - 1] != b'/' { k -= 1; } if k == 0 { return 1; } match self.find(&p[..k - 1]) { Some(i) => match self.nodes[i].kind { Kind::Dir => 1, _ => 20 }, None => 2 } }
    /// The path with symbolic links replaced (the last segment's too, if `last`).
    fn follow(&self, p: Vec<u8>, last: bool) -> Option<Vec<u8>> {
        if !self.nodes.iter().any(|n| n.link.is_some()) { return Some(p); }
        let mut p = p; let mut left = 8;
        'again: loop {
            let mut k = 0;
            while k < p.len() {
                let mut j = k; while j < p.len() && p[j] != b'/' { j += 1; }
                if j < p.len() || last {
                    if let Some(i) = self.find(&p[..j]) { if let Some(t) = &self.nodes[i].link {
                        if left == 0 { return None; } left -= 1;
                        let mut q: Vec<u8> = if k > 0 && t.as_bytes()[0] != b'/' { p[..k].to_vec() } else { Vec::new() };
                        q.extend_from_slice(t.as_bytes()); q.extend_from_slice(&p[j..]);
                        p = norm(&q)?; continue 'again;
                    } }
                }
                k = j + 1;
            }
            return Some(p);
        }
    }
    fn fault(&mut self, op: u8, node: usize) -> u64 { self.fault_or(op, node, true) }
    fn fault_or(&mut self, op: u8, node: usize, half: bool) -> u64 {
        for &(o, n, v) in &self.faults { if o == op && n == node { return v; } }
        if self.fault_budget == 0 { return 0; }
        let l = format!("fault:{}:{}", op as char, self.nodes[node].path);
        let v = rt::conc(rt::u8(&l, 0, if op == b'W' || op == b'e' && half { 2 } else { 1 }, 3) as u64);
        self.faults.push((op, node, v));
        if v > 0 { self.fault_budget -= 1; }
        v
    }
}
/// Path relative to the working directory /w, without `.` segments and doubled slashes; `..` steps back. None: outside.
pub fn norm(p: &[u8]) -> Option<Vec<u8>> {
    let mut segs: Vec<&[u8]> = Vec::new();
    let mut rest = p;
    if !p.is_empty() && p[0] == b'/' {
        if p.len() >= 2 && p[1] == b'w' && (p.len() == 2 || p[2] == b'/') { rest = &p[2..]; } else { return None; }
    }
    let mut i = 0;
    while i <= rest.len() {
        let mut j = i; while j < rest.len() && rest[j] != b'/' { j += 1; }
        let s = &rest[i..j];
        if s.len() == 2 && s[0] == b'.' && s[1] == b'.' { segs.pop()?; } else if s.is_empty() || s.len() == 1 && s[0] == b'.' {} else { segs.push(s) }
        i = j + 1;
    }
    let mut v = Vec::new();
    for s in segs { if !v.is_empty() { v.push(b'/'); } v.extend_from_slice(s); }
    Some(v)
}
extern "C" { fn __errno_location() -> *mut i32; fn malloc(n: usize) -> *mut u8; }
unsafe fn fail(e: i32) -> i32 { *__errno_location() = e; -1 }
unsafe fn nofollow(p: *const u8) -> Option<Vec<u8>> { let mut n = 0; while *p.add(n) != 0 { n += 1; } let p = norm(std::slice::from_raw_parts(p, n))?; w().follow(p, false) }
unsafe fn path(p: *const u8) -> Option<Vec<u8>> { let p = nofollow(p)?; w().follow(p, true) }
fn show(v: &[u8]) -> String { String::from_utf8_lossy(v).into_owned() }

#[no_mangle] pub unsafe extern "C" fn __libc_open64(p: *const u8, flags: i32, _mode: u32) -> i32 {
    let p = match path(p) { Some(p) => p, None => { w().foreign = true; return fail(2) } };
    let w = w();
    let acc = flags & 3; let creat = flags & 0o100 != 0;
    let i = match w.find(&p) {
        Some(i) => { if creat && flags & 0o200 != 0 { return fail(17); } i }
        None => {
            match w.parent(&p) { 1 => {} e => return fail(e) }
            if !creat { return fail(2); }
            // a file that could not be created keeps its (absent) node, so that the failure has a place
            let i = match w.nodes.iter().position(|n| n.gone && n.path.as_bytes() == &p[..]) { Some(i) => i, None => { w.nodes.push(Node { path: String::from_utf8_unchecked(p), kind: Kind::File, data: Vec::new(), gen: None, opens: 0, written: 0, created: true, gone: true, link: None }); w.nodes.len() - 1 } };
            if w.fault(b'w', i) != 0 { return fail(13); }
            let n = &mut w.nodes[i]; n.gone = false; n.created = true; n.kind = Kind::File; n.link = None; n.gen = None; n.data.clear();
            i
        }
    };
    if let Kind::Dir = w.nodes[i].kind { if acc != 0 || creat { return fail(21); } }
    if acc == 0 { if w.fault(b'o', i) != 0 { return fail(13); } } else if !w.nodes[i].created && w.fault(b'w', i) != 0 { return fail(13); }
    if let Some(g) = w.nodes[i].gen.take() { let d = g(); w.nodes[i].data = d; }
    let n = &mut w.nodes[i];
    n.opens += 1;
    if acc != 0 { n.written += 1; }
    if flags & 0o1000 != 0 { n.data.clear(); }
    w.fds.push(Some(Fd { node: i, pos: 0, write: acc != 0, append: flags & 0o2000 != 0, read: acc != 1, half: false }));
    w.fds.len() as i32 + 9
}
unsafe fn fd(f: i32) -> Option<&'static mut Fd> { w().fds.get_mut((f - 10) as usize).and_then(|x| x.as_mut()) }
#[no_mangle] pub unsafe extern "C" fn __libc_read(f: i32, b: *mut u8, n: usize) -> isize {
    let h = match fd(f) { Some(h) if h.read => h, _ => return fail(9) as isize };
    if let Kind::Dir = w().nodes[h.node].kind { return fail(21) as isize; }
    if w().fault(b'r', h.node) != 0 { return fail(5) as isize; }
    let d = &w().nodes[h.node].data;
    let k = if h.pos >= d.len() { 0 } else { n.min(d.len() - h.pos) };
    std::ptr::copy_nonoverlapping(d.as_ptr().add(h.pos), b, k); h.pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn __libc_write(f: i32, b: *const u8, n: usize) -> isize {
    let s = std::slice::from_raw_parts(b, n);
    if f == 1 { w().out.extend_from_slice(s); return n as isize; }
    if f == 2 { match W.as_mut() { Some(w) => w.err.extend_from_slice(s), None => rt::out(std::str::from_utf8_unchecked(s)) } return n as isize; }
    let h = match fd(f) { Some(h) if h.write => h, _ => return fail(9) as isize };
    if h.half { return fail(28) as isize; }
    let mut n = n;
    match w().fault(b'W', h.node) { 0 => {} 1 => return fail(28) as isize, _ => { h.half = true; n = (n + 1) / 2; } }
    let d = &mut w().nodes[h.node].data;
    if h.append { h.pos = d.len(); }
    let s = &s[..n];
    if h.pos == d.len() { d.extend_from_slice(s); } else { for (k, x) in s.iter().enumerate() { if h.pos + k < d.len() { d[h.pos + k] = *x; } else { d.push(*x); } } }
    h.pos += n;
    n as isize
}
#[repr(C)] pub struct Iov { b: *const u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn __libc_writev(f: i32, v: *const Iov, n: i32) -> isize { let mut t = 0; for k in 0..n as usize { let i = &*v.add(k); if i.n == 0 { continue; } let r = __libc_write(f, i.b, i.n); if r < 0 { return if t > 0 { t } else { r }; } t += r; if (r as usize) < i.n { break; } } t }
#[no_mangle] pub unsafe extern "C" fn __libc_close(f: i32) -> i32 { if let Some(x) = w().fds.get_mut((f - 10) as usize) { *x = None; } 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_lseek64(f: i32, o: i64, wh: i32) -> i64 { let h = match fd(f) { Some(h) => h, None => return fail(9) as i64 }; let b = match wh { 0 => 0, 1 => h.pos as i64, _ => w().nodes[h.node].data.len() as i64 }; if b + o < 0 { return fail(22) as i64; } h.pos = (b + o) as usize; b + o }
unsafe fn fill(i: usize, b: *mut u8) -> i32 {
    std::ptr::write_bytes(b, 0, 144);
    let n = &w().nodes[i];
    let m: u32 = match n.kind { Kind::Dir => 0o040755, Kind::File => 0o100644, Kind::Link => 0o120777 };
    *(b.add(8) as *mut u64) = i as u64 + 1; *(b.add(16) as *mut u64) = 1; *(b.add(24) as *mut u32) = m; *(b.add(48) as *mut i64) = if n.gen.is_some() { 0 } else { n.data.len() as i64 }; *(b.add(56) as *mut i64) = 4096;
    0
}
unsafe fn stat(p: *const u8, b: *mut u8, f: bool) -> i32 { let p = match if f { path(p) } else { nofollow(p) } { Some(p) => p, None => return fail(2) }; match w().find(&p) { Some(i) => fill(i, b), None => fail(match w().parent(&p) { 20 => 20, _ => 2 }) } }
#[no_mangle] pub unsafe extern "C" fn __libc_stat64(p: *const u8, b: *mut u8) -> i32 { stat(p, b, true) }
#[no_mangle] pub unsafe extern "C" fn __libc_lstat64(p: *const u8, b: *mut u8) -> i32 { stat(p, b, false) }
#[no_mangle] pub unsafe extern "C" fn __libc_fstat64(f: i32, b: *mut u8) -> i32 { match fd(f) { Some(h) => fill(h.node, b), None => fail(9) } }
#[no_mangle] pub unsafe extern "C" fn __libc_fstatat64(d: i32, p: *const u8, b: *mut u8, f: i32) -> i32 { if d != -100 && d < 1000 { return fail(9); } stat(p, b, f & 0x100 == 0) }
#[no_mangle] pub unsafe extern "C" fn __libc_statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _b: *mut u8) -> i32 { fail(38) }
#[no_mangle] pub unsafe extern "C" fn __libc_opendir(p: *const u8) -> *mut DirH {
    let p = match path(p) { Some(p) => p, None => { w().foreign = true; fail(2); return std::ptr::null_mut() } };
    let w = w();
    let i = match w.find(&p) { Some(i) => i, None => { fail(2); return std::ptr::null_mut() } };
    match w.nodes[i].kind { Kind::Dir => {} _ => { fail(20); return std::ptr::null_mut() } }
    if w.fault(b'l', i) != 0 { fail(13); return std::ptr::null_mut(); }
    w.nodes[i].opens += 1;
    let mut ents: Vec<(Vec<u8>, u8)> = Vec::new();
    for n in &w.nodes {
        if n.gone { continue; }
        let q = n.path.as_bytes();
        let rest = if p.is_empty() { q } else if q.len() > p.len() && q[p.len()] == b'/' && &q[..p.len()] == &p[..] { &q[p.len() + 1..] } else { continue };
        if rest.is_empty() || rest.iter().any(|&c| c == b'/') { continue; }
        ents.push((rest.to_vec(), match n.kind { Kind::Dir => 4, Kind::File => 8, Kind::Link => 10 }));
    }
    ents.sort();
    if w.order_budget > 0 && ents.len() > 1 {
        let v = rt::conc(rt::u8("order", 0, (ents.len() as u64).min(6) as u8, 1) as u64);
        if v > 0 { w.order_budget -= 1; if v == 1 { ents.reverse(); } else { let e = ents.remove(v as usize - 1); ents.insert(0, e); } }
    }
    Box::into_raw(Box::new(DirH { ents, pos: 0, node: i, buf: [0; 280] }))
}
#[no_mangle] pub unsafe extern "C" fn __libc_readdir64(d: *mut DirH) -> *mut u8 {
    let d = &mut *d;
    let v = w().fault_or(b'e', d.node, !d.ents.is_empty()); if v == 1 || v == 2 && d.pos > 0 { fail(5); return std::ptr::null_mut(); }
    if d.pos >= d.ents.len() { return std::ptr::null_mut(); }
    let (n, t) = &d.ents[d.pos]; d.pos += 1;
    let b = d.buf.as_mut_ptr();
    *(b as *mut u64) = d.pos as u64; *(b.add(16) as *mut u16) = 280; *b.add(18) = *t;
    for (k, c) in n.iter().enumerate() { *b.add(19 + k) = *c; } *b.add(19 + n.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn __libc_closedir(d: *mut DirH) -> i32 { drop(Box::from_raw(d)); 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_dirfd(_d: *mut DirH) -> i32 { 1000 }
#[no_mangle] pub unsafe extern "C" fn __libc_unlink(p: *const u8) -> i32 { let p = match nofollow(p) { Some(p) => p, None => return fail(2) }; match w().find(&p) { Some(i) => { w().nodes[i].gone = true; w().nodes[i].written += 1; 0 } None => fail(2) } }
#[no_mangle] pub unsafe extern "C" fn __libc_mkdir(p: *const u8, _m: u32) -> i32 { let p = match path(p) { Some(p) => p, None => return fail(13) }; if w().find(&p).is_some() { return fail(17); } match w().parent(&p) { 1 => {} e => return fail(e) } w().nodes.push(Node { path: String::from_utf8_unchecked(p), kind: Kind::Dir, data: Vec::new(), gen: None, opens: 0, written: 1, created: true, gone: false, link: None }); 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_rename(a: *const u8, b: *const u8) -> i32 {
    let (a, b) = match (nofollow(a), nofollow(b)) { (Some(a), Some(b)) => (a, b), _ => return fail(18) };
    let i = match w().find(&a) { Some(i) => i, None => return fail(2) };
    match w().parent(&b) { 1 => {} e => return fail(e) }
    let d = std::mem::take(&mut w().nodes[i].data); w().nodes[i].gone = true;
    let j = match w().find(&b) { Some(j) => j, None => { w().nodes.push(Node { path: String::from_utf8_unchecked(b), kind: Kind::File, data: Vec::new(), gen: None, opens: 0, written: 0, created: true, gone: false, link: None }); w().nodes.len() - 1 } };
    w().nodes[j].data = d; w().nodes[j].gen = None; w().nodes[j].written += 1; 0
}
#[no_mangle] pub unsafe extern "C" fn __libc_fcntl(_f: i32, c: i32, _a: i64) -> i32 { if c == 1030 { fail(24) } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn __libc_fsync(_f: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_fdatasync(_f: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_ftruncate64(f: i32, n: i64) -> i32 { match fd(f) { Some(h) => { w().nodes[h.node].data.resize(n as usize, 0); 0 } None => fail(9) } }
#[no_mangle] pub unsafe extern "C" fn __libc_poll(_a: *mut u8, _b: u64, _c: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_isatty(_f: i32) -> i32 { *__errno_location() = 25; 0 }
#[no_mangle] pub unsafe extern "C" fn __libc_getcwd(b: *mut u8, n: usize) -> *mut u8 { if n < 3 { fail(34); return std::ptr::null_mut(); } *b = b'/'; *b.add(1) = b'w'; *b.add(2) = 0; b }
#[no_mangle] pub unsafe extern "C" fn __libc_realpath(p: *const u8, _b: *mut u8) -> *mut u8 { let p = match path(p) { Some(p) => p, None => { fail(2); return std::ptr::null_mut() } }; if w().find(&p).is_none() { fail(2); return std::ptr::null_mut(); } let r = malloc(p.len() + 4); *r = b'/'; *r.add(1) = b'w'; let mut k = 2; if !p.is_empty() { *r.add(2) = b'/'; k = 3; for c in &p { *r.add(k) = *c; k += 1; } } *r.add(k) = 0; r }
#[no_mangle] pub unsafe extern "C" fn __libc___xpg_strerror_r(e: i32, b: *mut c_char, n: usize) -> i32 {
    let s: &[u8] = match e { 2 => b"No such file or directory", 5 => b"Input/output error", 9 => b"Bad file descriptor", 13 => b"Permission denied", 17 => b"File exists", 20 => b"Not a directory", 21 => b"Is a directory", 22 => b"Invalid argument", 28 => b"No space left on device", _ => b"Unknown error" };
    let b = b as *mut u8; let k = s.len().min(n - 1); std::ptr::copy_nonoverlapping(s.as_ptr(), b, k); *b.add(k) = 0; 0
}
#[allow(unused)] fn _s(v: &[u8]) -> String { show(v) }
#[repr(transparent)] pub struct Keep([*const (); 31]);
unsafe impl Sync for Keep {}
#[used] #[no_mangle] pub static __SYM_KEEP: Keep = Keep([
    __libc_open64 as *const (), __libc_read as *const (), __libc_write as *const (), __libc_writev as *const (), __libc_close as *const (), __libc_lseek64 as *const (), __libc_stat64 as *const (), __libc_lstat64 as *const (), __libc_fstat64 as *const (),
    __libc_fstatat64 as *const (), __libc_statx as *const (), __libc_opendir as *const (), __libc_readdir64 as *const (), __libc_closedir as *const (), __libc_dirfd as *const (), __libc_unlink as *const (), __libc_mkdir as *const (), __libc_rename as *const (),
    __libc_fcntl as *const (), __libc_fsync as *const (), __libc_fdatasync as *const (), __libc_ftruncate64 as *const (), __libc_poll as *const (), __libc_isatty as *const (), __libc_getcwd as *const (), __libc_realpath as *const (), __libc___xpg_strerror_r as *const (), std::ptr::null(), std::ptr::null(), std::ptr::null(), std::ptr::null(),
]);
