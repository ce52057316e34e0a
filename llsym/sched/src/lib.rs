//! C20, and C18 with the multicore feature: /repo's worker over stand-ins for rayon and crossbeam-channel whose schedule
//! is made of symbolic choices.
#[path = "../../core/src/ext.rs"]
pub mod ext;
#[path = "../../core/src/int.rs"]
pub mod int;
#[path = "../../core/src/mexp.rs"]
pub mod mexp;
#[path = "../../core/src/rec.rs"]
pub mod rec;
use bellman::multicore::{Waiter, Worker};
use ext::*;
static mut NCHOICES: u32 = 0;
static mut FREE: u32 = 0;
static mut THREADS: u64 = 1;
static mut RUNS: [u32; 64] = [0; 64];
/// The first FREE choices are arbitrary, later ones take the first alternative.
#[no_mangle]
pub fn sched_choice(n: u64) -> u64 {
    unsafe {
        if NCHOICES >= FREE { return 0 }
        NCHOICES += 1;
        let w = 64 - (n - 1).leading_zeros();
        let v = sym(200_000 + NCHOICES, w);
        assume(v < n);
        concretize(v)
    }
}
#[no_mangle]
pub fn sched_threads() -> u64 { unsafe { THREADS } }
fn start(free: u64, threads: u64, max: u64) {
    unsafe {
        NCHOICES = 0;
        FREE = free as u32;
        RUNS = [0; 64];
        // threads 0: any number of threads up to 2^max
        THREADS = if threads == 0 { let t = sym(1, max as u32 + 1); assume(t >= 1 && t <= 1 << max); t } else { threads };
    }
}
fn mark(i: usize) { unsafe { RUNS[i] += 1 } }
fn runs(i: usize) -> u32 { unsafe { RUNS[i] } }
/// n computations. What happens to the waiter of each (base 4 digits of `fate`): 0 waited for in order, 1 waited for in
/// reverse order, 2 dropped at once, 3 dropped at the end. Digit i of `nested` (base 2): computation i starts another one.
#[no_mangle]
pub extern "C" fn h_compute(n: u64, fate: u64, nested: u64, threads: u64, free: u64) {
    start(free, threads, 20);
    let worker = if n % 2 == 0 { Worker::new() } else { Worker::default() };
    let n = n as usize;
    let fate = |i: usize| (fate >> (2 * i)) & 3;
    let mut ws: Vec<Option<Waiter<u64>>> = vec![];
    for i in 0..n {
        let v = sym_u64(100 + i as u32);
        let (w2, sub) = (worker.clone(), (nested >> i) & 1 == 1);
        let w = worker.compute(move || {
            mark(i);
            if sub { drop(w2.compute(move || { mark(32 + i); i })); }
            v
        });
        if fate(i) == 2 { drop(w); ws.push(None) } else { ws.push(Some(w)) }
    }
    for rev in 0..2 {
        for j in 0..n {
            let i = if rev == 1 { n - 1 - j } else { j };
            if fate(i) != rev { continue }
            let v = ws[i].take().unwrap().wait();
            check_eq(v, sym_u64(100 + i as u32), "the waiter gets the value its own task computed");
            check(runs(i) == 1, "the task has run when its value arrives");
        }
    }
    drop(ws);
    while rayon::run_one() {}
    for i in 0..n {
        check(runs(i) == 1, "every task runs exactly once");
        check(runs(32 + i) == ((nested >> i) & 1) as u32, "every task started by a task runs exactly once");
    }
    check(Waiter::done(sym_u64(99)).wait() == sym_u64(99), "a finished waiter gives its value");
    reach("done");
}
/// k tasks in a scope over any number of elements, each starting another one if `nested`.
#[no_mangle]
pub extern "C" fn h_scope(k: u64, nested: u64, threads: u64, free: u64) {
    start(free, threads, 20);
    let elements = sym_u64(2) as usize;
    let k = k as usize;
    let worker = Worker::new();
    let r = worker.scope(elements, |scope, chunk| {
        check(chunk >= 1, "a chunk is never empty");
        check(chunk <= elements || elements == 0 || chunk == 1, "a chunk is no larger than the whole");
        for i in 0..k {
            scope.spawn(move |scope| {
                mark(i);
                if nested == 1 { scope.spawn(move |_| mark(32 + i)); }
            });
        }
        sym_u64(3)
    });
    check_eq(r, sym_u64(3), "the scope returns what its body returns");
    for i in 0..k {
        check(runs(i) == 1, "every scoped task has run exactly once when the scope returns");
        check(runs(32 + i) == nested as u32, "every task started by a scoped task has run when the scope returns");
    }
    reach("done");
}
/// Chunking e elements for a scope, with a task for every chunk.
#[no_mangle]
pub extern "C" fn h_chunks(maxe: u64, maxt: u64, free: u64) {
    let t = 1 + concretize(sym(4, 8)) ;
    assume(t <= maxt);
    start(free, t, 20);
    let e = concretize(sym(5, 8)) as usize;
    assume(e <= maxe as usize);
    let mut data = vec![0u32; e];
    let worker = Worker::new();
    worker.scope(data.len(), |scope, chunk| {
        for d in data.chunks_mut(chunk) {
            scope.spawn(move |_| for x in d { *x += 1 });
        }
    });
    let mut ok = true;
    for x in &data { ok &= *x == 1 }
    check(ok, "every element is covered exactly once");
    reach("done");
}
#[no_mangle]
pub extern "C" fn h_log(max: u64) {
    start(0, 0, max);
    let r = Worker::new().log_num_threads();
    let t = unsafe { THREADS };
    check(r < 64, "the logarithm is that of a machine word");
    check((1u64 << (r & 63)) <= t && (r >= 63 || t < 1u64 << ((r + 1) & 63)), "the logarithm is the floor of the true one");
    reach("done");
}
/// Multi-exponentiation on the pool.
#[no_mangle]
pub extern "C" fn h_multiexp_pool(m: u64, n: u64, free: u64, nb: u64, st: u64, dens: u64, ident: u64) {
    start(6, 0, 10);
    mexp::h_multiexp(m, n, free, nb, st, dens, ident);
}
pub fn call(name: &str, a: &[u64]) -> bool {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    match name {
        "h_compute" => h_compute(g(0), g(1), g(2), g(3), g(4)),
        "h_scope" => h_scope(g(0), g(1), g(2), g(3)),
        "h_chunks" => h_chunks(g(0), g(1), g(2)),
        "h_log" => h_log(g(0)),
        "h_multiexp_pool" => h_multiexp_pool(g(0), g(1), g(2), g(3), g(4), g(5), g(6)),
        _ => return false,
    }
    true
}
