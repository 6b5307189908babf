//! Contract model of crossbeam-channel: an unbounded (or bounded) MPMC queue, FIFO, linearizable.
//! Every operation is one atomic step preceded by a scheduling point.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;
use symstd::rt;

struct Ch<T> { q: UnsafeCell<VecDeque<T>>, tx: UnsafeCell<usize>, rx: UnsafeCell<usize>, cap: Option<usize> }
unsafe impl<T: Send> Sync for Ch<T> {}
unsafe impl<T: Send> Send for Ch<T> {}
impl<T> Ch<T> {
    #[allow(clippy::mut_from_ref)] fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } }
    #[allow(clippy::mut_from_ref)] fn tx(&self) -> &mut usize { unsafe { &mut *self.tx.get() } }
    #[allow(clippy::mut_from_ref)] fn rx(&self) -> &mut usize { unsafe { &mut *self.rx.get() } }
    fn key(&self) -> u64 { self as *const _ as *const u8 as u64 }
}
pub struct Sender<T> { c: Arc<Ch<T>> }
pub struct Receiver<T> { c: Arc<Ch<T>> }
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum TryRecvError { Empty, Disconnected }
impl TryRecvError { pub fn is_empty(&self) -> bool { *self == TryRecvError::Empty } pub fn is_disconnected(&self) -> bool { *self == TryRecvError::Disconnected } }
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum RecvTimeoutError { Timeout, Disconnected }
impl RecvTimeoutError { pub fn is_timeout(&self) -> bool { *self == RecvTimeoutError::Timeout } pub fn is_disconnected(&self) -> bool { !self.is_timeout() } }
#[derive(PartialEq, Eq, Clone, Copy)] pub struct SendError<T>(pub T);
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum TrySendError<T> { Full(T), Disconnected(T) }
impl<T> fmt::Debug for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SendError(..)") } }
impl<T> fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("TrySendError(..)") } }
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("sending on a disconnected channel") } }
impl fmt::Display for TryRecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty channel") } }
impl fmt::Display for RecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty and disconnected channel") } }
impl<T> std::error::Error for SendError<T> {}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvError {}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { mk(None) }
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) { mk(Some(cap.max(1))) }
fn mk<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) { let c = Arc::new(Ch { q: UnsafeCell::new(VecDeque::new()), tx: UnsafeCell::new(1), rx: UnsafeCell::new(1), cap }); (Sender { c: c.clone() }, Receiver { c }) }
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        rt::yield_(2);
        loop {
            if *self.c.rx() == 0 { return Err(SendError(v)); }
            if self.c.cap.map_or(true, |c| self.c.q().len() < c) { break; }
            rt::wait(self.c.key());
        }
        self.c.q().push_back(v); rt::notify(self.c.key()); Ok(())
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        rt::yield_(2);
        if *self.c.rx() == 0 { return Err(TrySendError::Disconnected(v)); }
        if self.c.cap.map_or(false, |c| self.c.q().len() >= c) { return Err(TrySendError::Full(v)); }
        self.c.q().push_back(v); rt::notify(self.c.key()); Ok(())
    }
    pub fn len(&self) -> usize { rt::yield_(0); self.c.q().len() }
    pub fn is_empty(&self) -> bool { rt::yield_(0); self.c.q().is_empty() }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::yield_(0);
        match self.c.q().pop_front() { Some(v) => { rt::notify(self.c.key()); Ok(v) } None => Err(if *self.c.tx() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::yield_(0);
        loop {
            if let Some(v) = self.c.q().pop_front() { rt::notify(self.c.key()); return Ok(v); }
            if *self.c.tx() == 0 { return Err(RecvError); }
            rt::wait(self.c.key());
        }
    }
    /// A timeout may strike whenever the queue is empty.
    pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
        rt::yield_(0);
        if let Some(v) = self.c.q().pop_front() { rt::notify(self.c.key()); return Ok(v); }
        if *self.c.tx() == 0 { return Err(RecvTimeoutError::Disconnected); }
        rt::yield_(1);
        if let Some(v) = self.c.q().pop_front() { rt::notify(self.c.key()); return Ok(v); }
        if *self.c.tx() == 0 { return Err(RecvTimeoutError::Disconnected); }
        Err(RecvTimeoutError::Timeout)
    }
    pub fn len(&self) -> usize { rt::yield_(0); self.c.q().len() }
    pub fn is_empty(&self) -> bool { rt::yield_(0); self.c.q().is_empty() }
    pub fn iter(&self) -> Iter<'_, T> { Iter { r: self } }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { r: self } }
}
pub struct Iter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
pub struct TryIter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.try_recv().ok() } }
pub struct IntoIter<T> { r: Receiver<T> }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { r: self } } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { *self.c.tx() += 1; Sender { c: self.c.clone() } } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { *self.c.rx() += 1; Receiver { c: self.c.clone() } } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { *self.c.tx() -= 1; if *self.c.tx() == 0 { rt::notify(self.c.key()); } } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { *self.c.rx() -= 1; if *self.c.rx() == 0 { rt::notify(self.c.key()); } } }
impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender") } }
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
