//! C20: the worker of the single-threaded build.
use crate::ext::*;
use bellman::multicore::Worker;
/// C20 without the multicore feature: the worker of a single thread.
#[no_mangle]
pub extern "C" fn h_plain() {
    use bellman::multicore::Waiter;
    use std::cell::Cell;
    let w = if sym_u64(9) & 1 == 1 { Worker::new() } else { Worker::new().clone() };
    check(w.log_num_threads() == 0, "one thread has logarithm 0");
    let runs = std::sync::Arc::new(std::sync::atomic::AtomicU32::new(0));
    let go = |k: u32| { let r = runs.clone(); w.compute(move || { r.fetch_add(1, std::sync::atomic::Ordering::SeqCst); sym_u64(k) }) };
    let (a, b, c) = (go(1), go(2), go(3));
    drop(b);
    check_eq(c.wait(), sym_u64(3), "the waiter gets the value its own task computed");
    check_eq(a.wait(), sym_u64(1), "the waiter gets the value its own task computed");
    check(runs.load(std::sync::atomic::Ordering::SeqCst) == 3, "every task runs exactly once");
    check_eq(Waiter::done(sym_u64(4)).wait(), sym_u64(4), "a finished waiter gives its value");
    let e = sym_u64(5) as usize;
    let (x, y) = (Cell::new(0u32), Cell::new(0u32));
    let r = w.scope(e, |scope, chunk| {
        check(chunk >= 1, "a chunk is never empty");
        check(chunk <= e || e == 0 || chunk == 1, "a chunk is no larger than the whole");
        let (x, y) = (&x, &y);
        scope.spawn(move |scope| { x.set(x.get() + 1); scope.spawn(move |_| y.set(y.get() + 1)) });
        sym_u64(6)
    });
    check_eq(r, sym_u64(6), "the scope returns what its body returns");
    check(x.get() == 1 && y.get() == 1, "every scoped task has run exactly once when the scope returns");
    let n = concretize(sym(7, 4)) as usize;
    let mut data = vec![0u32; n];
    w.scope(data.len(), |scope, chunk| for d in data.chunks_mut(chunk) { scope.spawn(move |_| for x in d { *x += 1 }) });
    let mut ok = true;
    for x in &data { ok &= *x == 1 }
    check(ok, "every element is covered exactly once");
    reach("done");
}
