//! C02: namespaces and wrappers are transparent.
use crate::field::*;
use crate::gad::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::Field;
use std::cell::RefCell;

type C = Bls;
type S = SymF<C>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Alloc,
    AllocErr,
    Input,
    InputErr,
    Enforce,
    Push,
    Pop,
    /// abort with an error
    Fail,
}
/// A constraint system with an unusual `one` and a root of another type than itself is used for the
/// forwarding of `one`.
struct Odd(Rec<S>);
impl ConstraintSystem<S> for Odd {
    type Root = Self;
    fn one() -> Variable {
        Variable::new_unchecked(Index::Input(7))
    }
    fn alloc<F: FnOnce() -> Result<S, SynthesisError>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> {
        self.0.alloc(a, f)
    }
    fn alloc_input<F: FnOnce() -> Result<S, SynthesisError>, A: FnOnce() -> AR, AR: Into<String>>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> {
        self.0.alloc_input(a, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, n: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        self.0.enforce(n, a, b, c)
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.0.pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
#[derive(Default)]
struct Log {
    /// outcome of every allocation
    outs: Vec<Result<String, String>>,
    /// number of times each allocation closure ran
    evals: Vec<u32>,
    /// names in scope and the paths of everything created
    scope: Vec<String>,
    paths: Vec<(char, String)>,
    vars: Vec<Variable>,
}
fn path(l: &Log, n: &str) -> String {
    let mut s = l.scope.clone();
    s.push(n.into());
    s.join("/")
}
/// Interpret tokens from `pos`; returns the position after the matching Pop.
fn exec<CS: ConstraintSystem<S>>(cs: &mut CS, t: &[T], mut pos: usize, log: &RefCell<Log>, ctr: &mut usize) -> Result<usize, SynthesisError> {
    while pos < t.len() {
        let tok = t[pos];
        pos += 1;
        *ctr += 1;
        let id = *ctr;
        match tok {
            T::Alloc | T::AllocErr | T::Input | T::InputErr => {
                let k = log.borrow().evals.len();
                log.borrow_mut().evals.push(0);
                let err = matches!(tok, T::AllocErr | T::InputErr);
                let f = || {
                    log.borrow_mut().evals[k] += 1;
                    if err {
                        Err(SynthesisError::Unsatisfiable)
                    } else {
                        Ok(S::atom(&format!("v{}", id)))
                    }
                };
                let n = || format!("n{}", id);
                let input = matches!(tok, T::Input | T::InputErr);
                let r = if input { cs.alloc_input(n, f) } else { cs.alloc(n, f) };
                let mut l = log.borrow_mut();
                if let Ok(v) = &r {
                    l.vars.push(*v);
                    let p = path(&l, &format!("n{}", id));
                    l.paths.push((if input { 'i' } else { 'a' }, p));
                }
                l.outs.push(r.map(var_name).map_err(|e| format!("{:?}", e)));
            }
            T::Enforce => {
                let v = log.borrow().vars.last().cloned().unwrap_or(Variable::new_unchecked(Index::Input(0)));
                let co = |i: usize| S::atom(&format!("k{}_{}", id, i));
                let (c0, c1, c2, c3) = (co(0), co(1), co(2), co(3));
                cs.enforce(|| format!("n{}", id), |lc| lc + (c0, v), |lc| lc + (c1, CS::one()) + (c3, v), |lc| lc - (c2, v));
                let mut l = log.borrow_mut();
                let p = path(&l, &format!("n{}", id));
                l.paths.push(('e', p));
            }
            T::Push => {
                let n = format!("s{}", id);
                log.borrow_mut().scope.push(n.clone());
                let r = {
                    let mut ns = cs.namespace(|| n);
                    exec(&mut ns, t, pos, log, ctr)
                };
                log.borrow_mut().scope.pop();
                pos = r?;
            }
            T::Pop => return Ok(pos),
            T::Fail => return Err(SynthesisError::DivisionByZero),
        }
    }
    Ok(pos)
}
type Trace = (Vec<Ev>, Vec<Option<S>>, Vec<Option<S>>, Vec<[Vec<(Variable, S)>; 3]>, Vec<Result<String, String>>, Vec<u32>, i64, bool);
fn trace(r: Rec<S>, l: RefCell<Log>, ok: bool) -> Trace {
    let l = l.into_inner();
    (r.events, r.inputs, r.aux, r.cons, l.outs, l.evals, r.depth, ok)
}
fn prog(t: &[T], eval: bool, wrap: u8) -> Trace {
    let log = RefCell::new(Log::default());
    let mut r = Rec::<S>::new(eval);
    r.annot = true;
    let mut n = 0;
    // a namespace prefix of the token list is added by the wrapper
    let ok = match wrap {
        0 => exec(&mut r, t, 0, &log, &mut n).is_ok(),
        1 => exec(&mut &mut r, t, 0, &log, &mut n).is_ok(),
        2 => {
            let mut ns = r.namespace(|| "w");
            exec(&mut ns, t, 0, &log, &mut n).is_ok()
        }
        3 => {
            let mut ns = r.namespace(|| "w");
            let mut ns2 = ns.namespace(|| "x");
            exec(&mut &mut ns2, t, 0, &log, &mut n).is_ok()
        }
        4 => {
            let mut m = MultiEq::new(&mut r);
            exec(&mut m, t, 0, &log, &mut n).is_ok()
        }
        _ => {
            let mut m = MultiEq::new(r.namespace(|| "w"));
            let mut ns = m.namespace(|| "x");
            exec(&mut ns, t, 0, &log, &mut n).is_ok()
        }
    };
    trace(r, log, ok)
}
fn strip(e: &[Ev], k: usize) -> Vec<Ev> {
    e[k..e.len() - k].to_vec()
}
fn odd(t: &[T], wrap: u8) -> Vec<[Vec<(Variable, S)>; 3]> {
    let log = RefCell::new(Log::default());
    let mut o = Odd(Rec::<S>::new(true));
    let mut n = 0;
    let _ = match wrap {
        0 => exec(&mut o, t, 0, &log, &mut n),
        1 => exec(&mut &mut o, t, 0, &log, &mut n),
        2 => exec(&mut o.namespace(|| "w"), t, 0, &log, &mut n),
        3 => exec(&mut MultiEq::new(&mut o), t, 0, &log, &mut n),
        _ => exec(&mut MultiEq::new(o.namespace(|| "w")).namespace(|| "x"), t, 0, &log, &mut n),
    };
    o.0.cons
}
pub fn run(rep: &mut Report) {
    rep.func("impl ConstraintSystem for Namespace, &mut CS, MultiEq; Namespace::drop; ConstraintSystem::namespace; TestConstraintSystem::{push_namespace,pop_namespace,alloc,alloc_input,enforce}, compute_path");
    let len = if Report::thorough() { 6 } else { 5 };
    rep.bound(&format!("all programs of up to {} steps over {{alloc, failing alloc, input, failing input, enforce, enter namespace, leave namespace, abort}} through six wrapper stacks, for backends that do and do not evaluate witnesses; assigned values and coefficients symbolic over the BLS12-381 scalar field", len));
    let toks = [T::Alloc, T::AllocErr, T::Input, T::InputErr, T::Enforce, T::Push, T::Pop, T::Fail];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    let mut progs: Vec<Vec<T>> = vec![vec![]];
    for d in 0..len {
        let mut next = vec![];
        for s in &layer {
            let depth = s.iter().filter(|x| **x == T::Push).count() as i64 - s.iter().filter(|x| **x == T::Pop).count() as i64;
            for t in toks {
                if t == T::Pop && depth == 0 {
                    continue;
                }
                if d + 1 < len && t == T::Fail {
                    continue;
                }
                // long programs: drop some redundant tokens
                if d >= 3 && matches!(t, T::AllocErr | T::Input) {
                    continue;
                }
                if d >= 4 && matches!(t, T::InputErr | T::Push) {
                    continue;
                }
                let mut n = s.clone();
                n.push(t);
                next.push(n);
            }
        }
        progs.extend(next.iter().cloned());
        layer = next;
    }
    for chunk in progs.chunks(200) {
        init_cfg::<C>();
        let mut goals: Vec<(String, G)> = vec![];
        for p in chunk {
            for eval in [true, false] {
                let base = prog(p, eval, 0);
                rep.require(base.6 == 0, "namespaces balanced", || format!("program {:?}: {} namespaces still open at the end", p, base.6));
                for w in 1..6u8 {
                    rep.paths += 1;
                    let t = prog(p, eval, w);
                    let k = match w {
                        2 | 4 | 5 if w == 2 => 1,
                        3 => 2,
                        5 => 2,
                        _ => 0,
                    };
                    let name = ["direct", "&mut", "Namespace", "nested Namespace", "MultiEq", "Namespace of MultiEq of Namespace"][w as usize];
                    let ev = if t.0.len() >= 2 * k { strip(&t.0, k) } else { vec![] };
                    rep.require(ev == base.0 && t.4 == base.4 && t.5 == base.5 && t.6 == 0 && t.7 == base.7, &format!("{} forwards", name), || {
                        format!("program {:?} through {} (witness {}): events {:?} results {:?} closure runs {:?} depth {} ok {}; directly: {:?} {:?} {:?} 0 {}", p, name, eval, ev, t.4, t.5, t.6, t.7, base.0, base.4, base.5, base.7)
                    });
                    // values and coefficients
                    let mut gs = vec![];
                    let mut shape = t.1.len() == base.1.len() && t.2.len() == base.2.len() && t.3.len() == base.3.len();
                    if shape {
                        for (x, y) in t.1.iter().chain(&t.2).zip(base.1.iter().chain(&base.2)) {
                            match (x, y) {
                                (Some(x), Some(y)) => gs.push(G::Zero((*x - *y).0)),
                                (None, None) => {}
                                _ => shape = false,
                            }
                        }
                        for (x, y) in t.3.iter().zip(&base.3) {
                            for s in 0..3 {
                                gs.push(G::Zero((lc_poly::<C>(&x[s]) - lc_poly::<C>(&y[s])).0));
                            }
                        }
                    }
                    rep.require(shape, &format!("{} shape", name), || format!("program {:?} through {}: different variables or constraints", p, name));
                    goals.push((format!("{:?} through {}", p, name), G::All(gs)));
                }
            }
            if p.contains(&T::Enforce) && p.len() <= 3 {
                let base = odd(p, 0);
                for w in 1..5 {
                    let t = odd(p, w);
                    let d = |c: &Vec<[Vec<(Variable, S)>; 3]>| c.iter().map(|c| c.iter().map(|l| l.iter().map(|(v, _)| var_name(*v)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>();
                    rep.require(d(&t) == d(&base), "one() is forwarded", || format!("program {:?}: wrapper {} uses another ONE variable: {:?} instead of {:?}", p, w, d(&t), d(&base)));
                }
            }
        }
        let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
        let all = G::All(goals.iter().map(|g| g.1.clone()).collect());
        decide(rep, "values and constraints equal", &sys, &all, &|m| {
            let bad = goals.iter().find(|g| !eval_goal(&g.1, m)).ok_or("no failing program")?;
            Ok(format!("program {} differs from the direct one at {}", bad.0, show_model(m)))
        });
    }
    // path names in the test constraint system
    for p in progs.iter().filter(|p| p.len() <= 5 && !p.iter().any(|t| matches!(t, T::AllocErr | T::InputErr))) {
        init_cfg::<C>();
        rep.paths += 1;
        let log = RefCell::new(Log::default());
        let mut cs = TestConstraintSystem::<S>::new();
        let mut n = 0;
        let _ = exec(&mut cs, p, 0, &log, &mut n);
        let l = log.into_inner();
        let mut inputs = 1;
        let mut gs = vec![];
        for (k, pt) in &l.paths {
            if *k == 'e' {
                continue;
            }
            let id = pt.rsplit('n').next().unwrap().to_string();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cs.get(pt)));
            match r {
                Ok(v) => gs.push(G::Zero((v - S::atom(&format!("v{}", id))).0)),
                Err(_) => rep.violation("path name", &format!("program {:?}: no variable at path {}", p, pt), &format!("{:?}: get({}) panics", p, pt)),
            }
            if *k == 'i' {
                let ix = inputs;
                inputs += 1;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cs.get_input(ix, pt)));
                rep.require(r.is_ok(), "input path", || format!("program {:?}: input {} is not at path {}", p, ix, pt));
            }
        }
        let first = l.paths.iter().find(|x| x.0 == 'e').map(|x| x.1.clone());
        // generically no constraint holds, so the first one is named
        let w = cs.which_is_unsatisfied().map(|s| s.to_string());
        rep.require(w == first, "constraint path", || format!("program {:?}: failing constraint named {:?}, in scope {:?}", p, w, first));
        let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
        decide(rep, "values at paths", &sys, &G::All(gs), &|m| Ok(format!("program {:?}: a path yields another variable's value at {}", p, show_model(m))));
    }
    let _ = S::ONE;
}
