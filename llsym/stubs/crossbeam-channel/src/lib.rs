//! A stand-in for crossbeam-channel on the stand-in for rayon: who blocks lets pending tasks run; if none is left, it
//! would block for ever.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;
struct State<T> { q: VecDeque<T>, cap: usize, senders: usize, receivers: usize }
struct Chan<T>(UnsafeCell<State<T>>);
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> { #[allow(clippy::mut_from_ref)] fn s(&self) -> &mut State<T> { unsafe { &mut *self.0.get() } } }
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }
pub struct SendError<T>(pub T);
impl<T> core::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("SendError(..)") } }
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
fn make<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan(UnsafeCell::new(State { q: VecDeque::new(), cap, senders: 1, receivers: 1 })));
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) { make(if cap == 0 { 1 } else { cap }) }
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { make(usize::MAX) }
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        loop {
            let s = self.0.s();
            if s.receivers == 0 { return Err(SendError(v)) }
            if s.q.len() < s.cap { s.q.push_back(v); return Ok(()) }
            if !rayon::run_one() { panic!("deadlock: sending on a full channel for ever") }
        }
    }
    pub fn try_send(&self, v: T) -> Result<(), SendError<T>> { let s = self.0.s(); if s.receivers == 0 || s.q.len() >= s.cap { return Err(SendError(v)) } s.q.push_back(v); Ok(()) }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            let s = self.0.s();
            if let Some(v) = s.q.pop_front() { return Ok(v) }
            if s.senders == 0 { return Err(RecvError) }
            if !rayon::run_one() { panic!("deadlock: waiting for a value that never comes") }
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { let s = self.0.s(); match s.q.pop_front() { Some(v) => Ok(v), None if s.senders == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) } }
    pub fn is_empty(&self) -> bool { self.0.s().q.is_empty() }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.s().senders += 1; Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.s().receivers += 1; Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.s().senders -= 1; } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { let s = self.0.s(); s.receivers -= 1; if s.receivers == 0 { s.q.clear(); } } }
