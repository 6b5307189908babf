pub use ::std::sync::*;
use crate::rt;

/// A mutex whose acquisition is a scheduling point.
#[derive(Default, Debug)]
pub struct Mutex<T: ?Sized> { i: ::std::sync::Mutex<T> }
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { i: ::std::sync::Mutex::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.i.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::yield_(2);
        loop { match self.i.try_lock() { Ok(g) => return Ok(g), Err(TryLockError::Poisoned(p)) => return Err(p), Err(TryLockError::WouldBlock) => rt::yield_(1) } }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { rt::yield_(0); self.i.try_lock() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.i.get_mut() }
    pub fn is_poisoned(&self) -> bool { false }
}
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
#[derive(Default, Debug)]
pub struct RwLock<T: ?Sized> { i: ::std::sync::RwLock<T> }
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock { i: ::std::sync::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.i.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { rt::yield_(0); loop { match self.i.try_read() { Ok(g) => return Ok(g), Err(TryLockError::Poisoned(p)) => return Err(p), Err(_) => rt::yield_(1) } } }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { rt::yield_(2); loop { match self.i.try_write() { Ok(g) => return Ok(g), Err(TryLockError::Poisoned(p)) => return Err(p), Err(_) => rt::yield_(1) } } }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.i.get_mut() }
}
/// Condition variables: a wait gives up the lock and the processor until notified (spurious wake-ups allowed by the contract are not produced).
#[derive(Default, Debug)]
pub struct Condvar { k: ::std::sync::atomic::AtomicUsize }
impl Condvar {
    pub const fn new() -> Self { Condvar { k: ::std::sync::atomic::AtomicUsize::new(0) } }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { unsafe {
        // reacquire through the address of the guarded mutex
        let m: &'a ::std::sync::Mutex<T> = guard_lock(&g);
        drop(g); rt::wait(self as *const _ as u64);
        loop { match m.try_lock() { Ok(g) => return Ok(g), Err(TryLockError::Poisoned(p)) => return Err(p), Err(_) => rt::yield_(1) } }
    } }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> { while c(&mut *g) { g = self.wait(g)?; } Ok(g) }
    /// A timeout may strike whenever nobody has notified meanwhile.
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> { unsafe {
        use ::std::sync::atomic::Ordering::SeqCst;
        let m: &'a ::std::sync::Mutex<T> = guard_lock(&g); let k = self.k.load(SeqCst);
        drop(g); rt::yield_(1);
        loop { match m.try_lock() { Ok(g) => return Ok((g, WaitTimeoutResult(self.k.load(SeqCst) == k))), Err(TryLockError::Poisoned(p)) => { let g = p.into_inner(); return Err(PoisonError::new((g, WaitTimeoutResult(false)))) } Err(_) => rt::yield_(1) } }
    } }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, d: ::std::time::Duration, mut c: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> { let mut g = g; if !c(&mut *g) { return Ok((g, WaitTimeoutResult(false))); } let (mut g, _) = self.wait_timeout(g, d)?; let t = c(&mut *g); Ok((g, WaitTimeoutResult(t))) }
    pub fn notify_one(&self) { self.k.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst); rt::notify(self as *const _ as u64); rt::yield_(2) }
    pub fn notify_all(&self) { self.notify_one() }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)] pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
#[derive(Debug)] pub struct Barrier { m: Mutex<(usize, usize)>, c: Condvar, n: usize }
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Self { Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap(); let round = g.1; g.0 += 1;
        if g.0 < self.n { let g = self.c.wait_while(g, |s| s.1 == round).unwrap(); drop(g); BarrierWaitResult(false) } else { g.0 = 0; g.1 += 1; drop(g); self.c.notify_all(); BarrierWaitResult(true) }
    }
}
/// MutexGuard is { lock: &Mutex, poison } : its first word is the reference.
unsafe fn guard_lock<'a, T>(g: &MutexGuard<'a, T>) -> &'a ::std::sync::Mutex<T> { *(g as *const _ as *const &'a ::std::sync::Mutex<T>) }

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::rt;
    macro_rules! at { ($n:ident, $t:ty) => {
        /// Every access is a scheduling point; memory is sequentially consistent.
        #[derive(Default, Debug)]
        pub struct $n { i: ::std::sync::atomic::$n }
        impl $n {
            pub const fn new(v: $t) -> Self { $n { i: ::std::sync::atomic::$n::new(v) } }
            pub fn load(&self, _: Ordering) -> $t { rt::yield_(0); self.i.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, _: Ordering) { rt::yield_(2); self.i.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { rt::yield_(2); self.i.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { rt::yield_(2); self.i.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn into_inner(self) -> $t { self.i.into_inner() }
            pub fn get_mut(&mut self) -> &mut $t { self.i.get_mut() }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> { rt::yield_(2); self.i.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f) }
        }
        impl From<$t> for $n { fn from(v: $t) -> Self { $n::new(v) } }
    } }
    macro_rules! ai { ($n:ident, $t:ty) => { at!($n, $t); impl $n {
        pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_add(v, Ordering::SeqCst) }
        pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_sub(v, Ordering::SeqCst) }
        pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_max(v, Ordering::SeqCst) }
        pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_min(v, Ordering::SeqCst) }
        pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_and(v, Ordering::SeqCst) }
        pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { rt::yield_(2); self.i.fetch_or(v, Ordering::SeqCst) }
    } } }
    ai!(AtomicUsize, usize); ai!(AtomicIsize, isize); ai!(AtomicU32, u32); ai!(AtomicI32, i32); ai!(AtomicU64, u64); ai!(AtomicI64, i64); ai!(AtomicU8, u8); ai!(AtomicU16, u16);
    at!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { rt::yield_(2); self.i.fetch_and(v, Ordering::SeqCst) }
        pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { rt::yield_(2); self.i.fetch_or(v, Ordering::SeqCst) }
    }
}

/// A FIFO queue; every operation is one atomic step preceded by a scheduling point.
pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use crate::rt;
    use ::std::{cell::UnsafeCell, collections::VecDeque, fmt, sync::Arc, time::Duration};
    struct Ch<T> { q: UnsafeCell<VecDeque<T>>, tx: UnsafeCell<usize>, rx: UnsafeCell<usize>, cap: Option<usize> }
    unsafe impl<T: Send> Sync for Ch<T> {}
    unsafe impl<T: Send> Send for Ch<T> {}
    impl<T> Ch<T> {
        fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } }
        fn tx(&self) -> &mut usize { unsafe { &mut *self.tx.get() } }
        fn rx(&self) -> &mut usize { unsafe { &mut *self.rx.get() } }
        fn key(&self) -> u64 { self as *const _ as *const u8 as u64 }
        fn send(&self, v: T) -> Result<(), SendError<T>> {
            rt::yield_(2);
            loop {
                if *self.rx() == 0 { return Err(SendError(v)); }
                if self.cap.map_or(true, |c| self.q().len() < c) { break; }
                rt::wait(self.key());
            }
            self.q().push_back(v); rt::notify(self.key()); Ok(())
        }
    }
    pub struct Sender<T> { c: Arc<Ch<T>> }
    pub struct SyncSender<T> { c: Arc<Ch<T>> }
    pub struct Receiver<T> { c: Arc<Ch<T>>, n: ::std::marker::PhantomData<::std::cell::Cell<()>> }
    unsafe impl<T: Send> Send for Receiver<T> {}
    fn mk<T>(cap: Option<usize>) -> Arc<Ch<T>> { Arc::new(Ch { q: UnsafeCell::new(VecDeque::new()), tx: UnsafeCell::new(1), rx: UnsafeCell::new(1), cap }) }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = mk(None); (Sender { c: c.clone() }, Receiver { c, n: ::std::marker::PhantomData }) }
    /// A bound of 0 is treated as 1.
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = mk(Some(n.max(1))); (SyncSender { c: c.clone() }, Receiver { c, n: ::std::marker::PhantomData }) }
    impl<T> Sender<T> { pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.c.send(v) } }
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.c.send(v) }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            rt::yield_(2);
            if *self.c.rx() == 0 { return Err(TrySendError::Disconnected(v)); }
            if self.c.cap.map_or(false, |c| self.c.q().len() >= c) { return Err(TrySendError::Full(v)); }
            self.c.q().push_back(v); rt::notify(self.c.key()); Ok(())
        }
    }
    impl<T> Receiver<T> {
        fn pop(&self) -> Option<T> { let v = self.c.q().pop_front(); if v.is_some() { rt::notify(self.c.key()); } v }
        pub fn try_recv(&self) -> Result<T, TryRecvError> { rt::yield_(0); self.pop().ok_or_else(|| if *self.c.tx() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
        pub fn recv(&self) -> Result<T, RecvError> { rt::yield_(0); loop { if let Some(v) = self.pop() { return Ok(v); } if *self.c.tx() == 0 { return Err(RecvError); } rt::wait(self.c.key()); } }
        /// A timeout may strike whenever the queue is empty.
        pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
            rt::yield_(0);
            for k in 0..2 {
                if let Some(v) = self.pop() { return Ok(v); }
                if *self.c.tx() == 0 { return Err(RecvTimeoutError::Disconnected); }
                if k == 0 { rt::yield_(1); }
            }
            Err(RecvTimeoutError::Timeout)
        }
        pub fn iter(&self) -> Iter<'_, T> { Iter { r: self } }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { r: self } }
    }
    pub struct Iter<'a, T> { r: &'a Receiver<T> }
    impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
    pub struct TryIter<'a, T> { r: &'a Receiver<T> }
    impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.try_recv().ok() } }
    pub struct IntoIter<T> { r: Receiver<T> }
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { r: self } } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { *self.c.tx() += 1; Sender { c: self.c.clone() } } }
    impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { *self.c.tx() += 1; SyncSender { c: self.c.clone() } } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { *self.c.tx() -= 1; if *self.c.tx() == 0 { rt::notify(self.c.key()); } } }
    impl<T> Drop for SyncSender<T> { fn drop(&mut self) { *self.c.tx() -= 1; if *self.c.tx() == 0 { rt::notify(self.c.key()); } } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { *self.c.rx() -= 1; rt::notify(self.c.key()); } }
    impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
    impl<T> fmt::Debug for SyncSender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SyncSender") } }
    impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
}
