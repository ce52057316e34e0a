//! Interface to the symbolic executor. In the `native` build the same harnesses run on a concrete model,
//! which is how counterexamples are replayed.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn ll_sym(id: u32, w: u32) -> u64;
        fn ll_assume(b: bool);
        fn ll_assert(b: bool, p: *const u8, n: usize);
        fn ll_assert_eq(a: u64, b: u64, p: *const u8, n: usize);
        fn ll_reach(p: *const u8, n: usize);
        fn ll_concretize(x: u64) -> u64;
        fn ll_trace(p: *const u8, n: usize, x: u64);
        fn ll_allow_panic(x: u64);
        fn ll_no_merge(x: u64);
        fn ll_is_symbolic(x: u64) -> u64;
        fn ll_r1cs_reset();
        fn ll_r1cs_var(index: u32, value: u64, input: u32);
        fn ll_r1cs_term(which: u32, index: u32, coeff: *const u8);
        fn ll_r1cs_end();
        fn ll_r1cs_solve(p: *const u8, n: usize);
        fn ll_r1cs_def(index: u32) -> u64;
        fn ll_r1cs_out(index: u32);
        fn ll_unsupported(p: *const u8, n: usize);
    }
    pub fn sym(id: u32, w: u32) -> u64 { unsafe { ll_sym(id, w) } }
    pub fn assume(b: bool) { unsafe { ll_assume(b) } }
    pub fn check(b: bool, t: &str) { unsafe { ll_assert(b, t.as_ptr(), t.len()) } }
    pub fn check_eq(a: u64, b: u64, t: &str) { unsafe { ll_assert_eq(a, b, t.as_ptr(), t.len()) } }
    pub fn reach(t: &str) { unsafe { ll_reach(t.as_ptr(), t.len()) } }
    pub fn concretize(x: u64) -> u64 { unsafe { ll_concretize(x) } }
    pub fn trace(t: &str, x: u64) { unsafe { ll_trace(t.as_ptr(), t.len(), x) } }
    /// Paths stay apart where they meet again.
    pub fn no_merge() { unsafe { ll_no_merge(1) } }
    pub fn allow_panic(b: bool) { unsafe { ll_allow_panic(b as u64) } }
    pub fn is_symbolic(x: u64) -> bool { unsafe { ll_is_symbolic(x) != 0 } }
    /// The harness does not know how to judge what it sees.
    pub fn unsupported(t: &str) { unsafe { ll_unsupported(t.as_ptr(), t.len()) } }
    pub fn r1cs_reset() { unsafe { ll_r1cs_reset() } }
    pub fn r1cs_var(i: u32, v: u64, input: bool) { unsafe { ll_r1cs_var(i, v, input as u32) } }
    pub fn r1cs_term(w: u32, i: u32, c: &[u8; 32]) { unsafe { ll_r1cs_term(w, i, c.as_ptr()) } }
    pub fn r1cs_end() { unsafe { ll_r1cs_end() } }
    /// An output of the statement (must be determined by the inputs).
    pub fn r1cs_out(i: u32) { unsafe { ll_r1cs_out(i) } }
    /// Derives, from the constraints alone, the value of every variable as a function of the input variables.
    pub fn r1cs_solve(t: &str) { unsafe { ll_r1cs_solve(t.as_ptr(), t.len()) } }
    /// The derived value of a variable.
    pub fn r1cs_def(i: u32) -> u64 { unsafe { ll_r1cs_def(i) } }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static MODEL: RefCell<HashMap<u32, u64>> = RefCell::new(HashMap::new());
        pub static DEFS: RefCell<HashMap<u32, u64>> = RefCell::new(HashMap::new());
        pub static ALLOW: RefCell<bool> = RefCell::new(false);
    }
    pub fn sym(id: u32, w: u32) -> u64 {
        let v = MODEL.with(|m| m.borrow().get(&id).copied().unwrap_or(0));
        if w >= 64 { v } else { v & ((1 << w) - 1) }
    }
    pub fn assume(b: bool) { if !b { println!("REPLAY assumption not met"); std::process::exit(3) } }
    pub fn check(b: bool, t: &str) { if !b { println!("REPLAY violated: {}", t); std::process::exit(1) } }
    pub fn check_eq(a: u64, b: u64, t: &str) { if a != b { println!("REPLAY violated: {} ({} != {})", t, a, b); std::process::exit(1) } }
    pub fn reach(_: &str) {}
    pub fn concretize(x: u64) -> u64 { x }
    pub fn trace(t: &str, x: u64) { if std::env::var("LLSYM_TRACE").is_ok() { eprintln!("{} {}", t, x) } }
    pub fn no_merge() {}
    pub fn allow_panic(b: bool) { ALLOW.with(|a| *a.borrow_mut() = b) }
    pub fn is_symbolic(_: u64) -> bool { false }
    pub fn unsupported(t: &str) { println!("REPLAY unsupported: {}", t); std::process::exit(3) }
    pub fn r1cs_reset() { super::native_r1cs::reset() }
    pub fn r1cs_var(i: u32, v: u64, input: bool) { super::native_r1cs::var(i, v, input) }
    pub fn r1cs_term(w: u32, i: u32, c: &[u8; 32]) { super::native_r1cs::term(w, i, c) }
    pub fn r1cs_end() { super::native_r1cs::end() }
    pub fn r1cs_out(i: u32) { super::native_r1cs::out(i) }
    pub fn r1cs_solve(t: &str) { super::native_r1cs::solve(t) }
    pub fn r1cs_def(i: u32) -> u64 { super::native_r1cs::def(i) }
}
pub use imp::*;
pub fn sym_bool(id: u32) -> bool { sym(id, 1) & 1 == 1 }
pub fn sym_u8(id: u32) -> u8 { sym(id, 8) as u8 }
pub fn sym_u32(id: u32) -> u32 { sym(id, 32) as u32 }
pub fn sym_u64(id: u32) -> u64 { sym(id, 64) }

/// Native side of the constraint interface: the system is written out (LL_DUMP) for the replay, which evaluates the
/// honest witness or the adversarial assignment of the counterexample in the field.
#[cfg(feature = "native")]
pub mod native_r1cs {
    use crate::int::I;
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::fmt::Write;
    thread_local! {
        static OUT: RefCell<String> = RefCell::new(String::new());
        static VAL: RefCell<HashMap<u32, u64>> = RefCell::new(HashMap::new());
    }
    fn w(s: String) { OUT.with(|o| writeln!(o.borrow_mut(), "{}", s).unwrap()) }
    pub fn reset() { w("reset".into()); VAL.with(|v| v.borrow_mut().clear()) }
    pub fn var(i: u32, v: u64, input: bool) { VAL.with(|m| { m.borrow_mut().insert(i, v); }); w(format!("var {} {} {}", i, v, input as u8)) }
    pub fn term(k: u32, i: u32, c: &[u8; 32]) { let x = I::from_le(c); w(format!("term {} {} {:016x}{:016x}{:016x}{:016x}", k, i, x.0[3], x.0[2], x.0[1], x.0[0])) }
    pub fn end() { w("end".into()) }
    pub fn out(i: u32) { w(format!("out {}", i)) }
    pub fn solve(t: &str) { w(format!("solve {}", t)); flush() }
    pub fn def(i: u32) -> u64 { VAL.with(|v| v.borrow()[&i]) }
    pub fn flush() { if let Ok(p) = std::env::var("LL_DUMP") { OUT.with(|o| std::fs::write(&p, o.borrow().as_bytes()).unwrap()) } }
}
#[cfg(feature = "native")]
pub fn set_model(i: u32, v: u64) { imp::MODEL.with(|m| { m.borrow_mut().insert(i, v); }) }
#[cfg(feature = "native")]
pub fn panic_allowed() -> bool { imp::ALLOW.with(|a| *a.borrow()) }
#[cfg(feature = "native")]
pub fn flush() { native_r1cs::flush() }
