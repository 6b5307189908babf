//! Reader of what the program prints.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Msg { pub level: u8, pub text: String, pub path: Option<String>, pub line: Option<u64>, pub col: Option<u64>, pub quoted: Option<String>, pub quoted_no: Option<u64>, pub caret: Option<u64>, pub help: Option<String> }
pub const ERROR: u8 = 0; pub const WARNING: u8 = 1; pub const PROGRAM: u8 = 2;
#[derive(Default, Debug)]
pub struct Out { pub msgs: Vec<Msg>, pub errors: Option<(u64, bool)>, pub warnings: Option<(u64, bool)>, pub stray: bool }
fn num(s: &[u8]) -> Option<u64> { if s.is_empty() { return None; } let mut v = 0u64; for &c in s { if c < b'0' || c > b'9' || v > 1 << 40 { return None; } v = v * 10 + (c - b'0') as u64; } Some(v) }
fn st(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn head(l: &[u8]) -> Option<(u8, &[u8])> { for (k, p) in [(ERROR, &b"error: "[..]), (WARNING, b"warning: "), (PROGRAM, b"program error: ")] { if l.len() >= p.len() && &l[..p.len()] == p { return Some((k, &l[p.len()..])); } } None }
fn trim(l: &[u8]) -> &[u8] { let mut i = 0; while i < l.len() && l[i] == b' ' { i += 1; } &l[i..] }
/// "N <noun>" with optional plural s, between a prefix and a suffix.
fn summary(t: &[u8], pre: &[u8], noun: &[u8], post: &[u8]) -> Option<(u64, bool)> {
    if t.len() < pre.len() || &t[..pre.len()] != pre { return None; }
    let t = &t[pre.len()..]; let mut k = 0; while k < t.len() && t[k] >= b'0' && t[k] <= b'9' { k += 1; }
    let n = num(&t[..k])?; let t = &t[k..];
    if t.len() < noun.len() || &t[..noun.len()] != noun { return None; }
    let t = &t[noun.len()..];
    let (pl, t) = if !t.is_empty() && t[0] == b's' { (true, &t[1..]) } else { (false, t) };
    if t == post { Some((n, pl)) } else { None }
}
pub fn parse(out: &[u8]) -> Out {
    let mut o = Out::default();
    let mut cur: Option<Msg> = None; let mut state = 0; // 0 text, 1 after -->, 2 after bar, 3 after quoted line, 4 after caret, 5 closed by a blank line
    let mut i = 0;
    while i <= out.len() {
        let mut j = i; while j < out.len() && out[j] != b'\n' { j += 1; }
        let l = &out[i..j]; let last = j >= out.len(); i = j + 1;
        if last && l.is_empty() { break; }
        let quoting = state == 2;
        if !quoting { if let Some((lv, t)) = head(l) {
            if let Some(m) = cur.take() { o.msgs.push(m); }
            if lv == ERROR { if let Some(s) = summary(t, b"failure due to ", b" error", b"") { if o.errors.is_some() { o.stray = true; } o.errors = Some(s); state = 5; continue; } }
            if lv == WARNING { if let Some(s) = summary(t, b"", b" warning", b" emitted") { if o.warnings.is_some() { o.stray = true; } o.warnings = Some(s); state = 5; continue; } }
            if o.errors.is_some() || o.warnings.is_some() { o.stray = true; }
            cur = Some(Msg { level: lv, text: st(t), ..Default::default() }); state = 0; continue;
        } }
        let m = match cur.as_mut() { Some(m) => m, None => { if !l.is_empty() { o.stray = true; } continue } };
        let t = trim(l);
        if state == 0 || state == 5 {
            if t.len() >= 4 && &t[..4] == b"--> " {
                let p = &t[4..];
                // path[:line:col]
                let mut c2 = p.len(); while c2 > 0 && p[c2 - 1] != b':' { c2 -= 1; }
                let mut c1 = c2.saturating_sub(1); while c1 > 0 && p[c1 - 1] != b':' { c1 -= 1; }
                match (if c2 > 0 { num(&p[c2..]) } else { None }, if c1 > 0 && c2 > 0 { num(&p[c1..c2 - 1]) } else { None }) { (Some(c), Some(n)) => { m.path = Some(st(&p[..c1 - 1])); m.line = Some(n); m.col = Some(c); state = 1; } _ => { m.path = Some(st(p)); state = 4; } }
                continue;
            }
            if l.is_empty() { state = 5; } else { m.text.push('\n'); m.text.push_str(&st(l)); }
            continue;
        }
        if state == 1 { if t == b"|" { state = 2 } else { o.stray = true } continue; }
        if state == 2 { let mut k = 0; while k < l.len() && l[k] != b'|' { k += 1; } if k < 2 || k + 1 > l.len() { o.stray = true; state = 3; continue; } m.quoted_no = num(&l[..k - 1]); m.quoted = Some(if k + 2 <= l.len() { st(&l[k + 2..]) } else { String::new() }); state = 3; continue; }
        if state == 3 { let mut k = 0; while k < l.len() && l[k] != b'|' { k += 1; } let mut q = k + 1; while q < l.len() && (l[q] == b' ' || l[q] == b'\t') { q += 1; } if q < l.len() && l[q] == b'^' { m.caret = Some((q - k - 1) as u64); } else { o.stray = true; } state = 4; continue; }
        if state == 4 { if t.len() >= 8 && &t[..8] == b"= help: " { m.help = Some(st(&t[8..])); } else if l.is_empty() { state = 5; } else { match &mut m.help { Some(h) => { h.push('\n'); h.push_str(&st(l)); } None => o.stray = true } } }
    }
    if let Some(m) = cur.take() { o.msgs.push(m); }
    o
}
impl Out {
    pub fn nerr(&self) -> u64 { self.msgs.iter().filter(|m| m.level != WARNING).count() as u64 }
    pub fn nwarn(&self) -> u64 { self.msgs.iter().filter(|m| m.level == WARNING).count() as u64 }
    pub fn errs_at(&self, p: &str) -> u64 { self.msgs.iter().filter(|m| m.level != WARNING && m.path.as_deref() == Some(p)).count() as u64 }
}
