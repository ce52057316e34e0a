//! A stand-in for rayon whose schedule is chosen by the harness: every task is pending until some choice runs it. Tasks
//! run one at a time (a task is atomic), on a "pool thread"; a scope ends when all of its tasks have run.
use core::cell::{Cell, RefCell};
use core::marker::PhantomData;
extern "Rust" {
    /// Any number below n.
    fn sched_choice(n: u64) -> u64;
    fn sched_threads() -> u64;
}
fn choice(n: usize) -> usize { if n <= 1 { 0 } else { unsafe { sched_choice(n as u64) as usize } } }
type Task = Box<dyn FnOnce() + Send>;
static mut QUEUE: Vec<Task> = Vec::new();
static mut CURRENT: Option<usize> = None;
fn on_pool<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = CURRENT;
        if CURRENT.is_none() { CURRENT = Some(0); }
        let r = f();
        CURRENT = old;
        r
    }
}
pub fn pending() -> usize { unsafe { QUEUE.len() } }
/// Runs some pending task.
pub fn run_one() -> bool {
    let n = pending();
    if n == 0 { return false }
    let i = choice(n);
    let t = unsafe { QUEUE.remove(i) };
    on_pool(t);
    true
}
/// A point at which pool threads may make progress.
fn progress() { if pending() > 0 && choice(2) == 1 { run_one(); } }
pub fn current_num_threads() -> usize { unsafe { sched_threads() as usize } }
pub fn current_thread_index() -> Option<usize> { unsafe { CURRENT } }
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    unsafe { QUEUE.push(Box::new(f)) };
    progress();
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { spawn(f) }
pub struct Scope<'scope> {
    tasks: RefCell<Vec<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>>>,
    marker: PhantomData<Cell<&'scope mut ()>>,
}
unsafe impl<'scope> Sync for Scope<'scope> {}
unsafe impl<'scope> Send for Scope<'scope> {}
impl<'scope> Scope<'scope> {
    fn run_one(&self) -> bool {
        let n = self.tasks.borrow().len();
        if n == 0 { return false }
        let i = choice(n);
        let t = self.tasks.borrow_mut().remove(i);
        t(self);
        true
    }
    pub fn spawn<B: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, b: B) {
        self.tasks.borrow_mut().push(Box::new(b));
        if choice(2) == 1 { self.run_one(); }
    }
}
pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(op: OP) -> R {
    progress();
    on_pool(|| {
        let s = Scope { tasks: RefCell::new(vec![]), marker: PhantomData };
        let r = op(&s);
        while s.run_one() {}
        r
    })
}
pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(op: OP) -> R {
    let s = Scope { tasks: RefCell::new(vec![]), marker: PhantomData };
    let r = op(&s);
    on_pool(|| while s.run_one() {});
    r
}
pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    on_pool(|| if choice(2) == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) })
}
pub mod iter {
    /// Parallel iterators as ordinary ones: their closures are independent of each other in the code under test.
    pub trait IntoParallelIterator { type Iter: Iterator<Item = Self::Item>; type Item; fn into_par_iter(self) -> Self::Iter; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Iter = T::IntoIter; type Item = T::Item; fn into_par_iter(self) -> T::IntoIter { self.into_iter() } }
    pub trait ParallelIterator: Iterator {}
    impl<T: Iterator> ParallelIterator for T {}
    pub trait IndexedParallelIterator: Iterator {}
    impl<T: Iterator> IndexedParallelIterator for T {}
    pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Iter = <&'a T as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Self::Iter { self.into_iter() } }
}
pub mod slice {
    pub trait ParallelSlice<T> { fn par_chunks(&self, n: usize) -> core::slice::Chunks<'_, T>; }
    impl<T> ParallelSlice<T> for [T] { fn par_chunks(&self, n: usize) -> core::slice::Chunks<'_, T> { self.chunks(n) } }
    pub trait ParallelSliceMut<T> { fn par_chunks_mut(&mut self, n: usize) -> core::slice::ChunksMut<'_, T>; }
    impl<T> ParallelSliceMut<T> for [T] { fn par_chunks_mut(&mut self, n: usize) -> core::slice::ChunksMut<'_, T> { self.chunks_mut(n) } }
}
pub mod prelude { pub use crate::iter::*; pub use crate::slice::*; }
