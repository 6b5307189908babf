pub use ::std::thread::*;
use crate::rt;
use ::std::cell::UnsafeCell;
use ::std::marker::PhantomData;
use ::std::sync::Arc;
use ::std::time::Duration;

pub fn sleep(_d: Duration) { rt::yield_(1) }
pub fn sleep_ms(_d: u32) { rt::yield_(1) }
pub fn yield_now() { rt::yield_(1) }
pub fn park_timeout(_d: Duration) { rt::yield_(1) }

struct Packet<T> { v: UnsafeCell<Option<T>>, tid: UnsafeCell<u64> }
unsafe impl<T> Sync for Packet<T> {}
unsafe impl<T> Send for Packet<T> {}

extern "C" fn tramp(p: *mut u8) { let b: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) }; (*b)(); }
fn start<'a>(f: Box<dyn FnOnce() + 'a>) -> u64 {
    let f: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(f) };
    unsafe { rt::SPAWNED += 1; }
    let t = rt::spawn(tramp, Box::into_raw(Box::new(f)) as *mut u8);
    rt::yield_(2);
    t
}
fn launch<'a, F: FnOnce() -> T + 'a, T: 'a>(f: F) -> Arc<Packet<T>> {
    let p = Arc::new(Packet { v: UnsafeCell::new(None), tid: UnsafeCell::new(0) });
    let q = p.clone();
    let t = start(Box::new(move || { let r = f(); unsafe { *q.v.get() = Some(r); } }));
    unsafe { *p.tid.get() = t; }
    p
}
pub struct JoinHandle<T> { p: Arc<Packet<T>> }
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> { unsafe { rt::join(*self.p.tid.get()); Ok((*self.p.v.get()).take().unwrap()) } }
    pub fn is_finished(&self) -> bool { rt::yield_(0); unsafe { (*self.p.v.get()).is_some() } }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { JoinHandle { p: launch(f) } }

pub struct Scope<'scope, 'env: 'scope> { tids: UnsafeCell<Vec<u64>>, scope: PhantomData<&'scope mut &'scope ()>, env: PhantomData<&'env mut &'env ()> }
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> { p: Arc<Packet<T>>, s: PhantomData<&'scope ()> }
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> { unsafe { rt::join(*self.p.tid.get()); Ok((*self.p.v.get()).take().unwrap()) } }
    pub fn is_finished(&self) -> bool { rt::yield_(0); unsafe { (*self.p.v.get()).is_some() } }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        let p = launch(f);
        unsafe { (*self.tids.get()).push(*p.tid.get()); }
        ScopedJoinHandle { p, s: PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    let s = Scope { tids: UnsafeCell::new(Vec::new()), scope: PhantomData, env: PhantomData };
    let r = f(&s);
    let tids: Vec<u64> = unsafe { (*s.tids.get()).clone() };
    for t in tids { rt::join(t); }
    r
}
#[derive(Debug, Default)]
pub struct Builder {}
impl Builder {
    pub fn new() -> Self { Builder {} }
    pub fn name(self, _: String) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> ::std::io::Result<ScopedJoinHandle<'scope, T>> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope { Ok(s.spawn(f)) }
}
