//! C01: linear combination algebra.
use crate::field::*;
use crate::gad::*;
use crate::poly::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::{Index, LinearCombination, Variable};
use bls12_381::Scalar;
use ff::{Field, PrimeField};

/// one step: operator (0..8), operand choice
#[derive(Clone, Copy, Debug)]
struct Op(u8, u8);
fn var(i: u8) -> Variable {
    Variable::new_unchecked(match i {
        0 => Index::Input(0),
        1 => Index::Input(1),
        2 => Index::Aux(0),
        _ => Index::Aux(1),
    })
}
/// inner linear combinations, built with the public operators
fn inner<S: PrimeField>(kind: u8, c: &dyn Fn(&str) -> S, tag: usize) -> LinearCombination<S> {
    let z = LinearCombination::zero();
    let k = |i: usize| c(&format!("n{}_{}", tag, i));
    match kind {
        0 => z,
        1 => z + (k(0), var(2)),
        2 => z + (k(0), var(2)) + (k(1), var(1)),
        _ => z + (k(0), var(2)) + (k(1), var(0)) + (k(2), var(2)) + (k(3), var(3)),
    }
}
fn build<S: PrimeField>(ops: &[Op], c: &dyn Fn(&str) -> S) -> LinearCombination<S> {
    let mut l = LinearCombination::zero();
    for (t, o) in ops.iter().enumerate() {
        let k = c(&format!("c{}", t));
        let i = inner(o.1, c, t);
        l = match o.0 {
            0 => l + var(o.1),
            1 => l - var(o.1),
            2 => l + (k, var(o.1)),
            3 => l - (k, var(o.1)),
            4 => l + &i,
            5 => l - &i,
            6 => l + (k, &i),
            _ => l - (k, &i),
        };
    }
    l
}
/// the denotation, computed directly
fn spec<S: PrimeField>(ops: &[Op], c: &dyn Fn(&str) -> S, x: &dyn Fn(u8) -> S) -> S {
    let mut s = S::ZERO;
    for (t, o) in ops.iter().enumerate() {
        let k = c(&format!("c{}", t));
        let n = |i: usize| c(&format!("n{}_{}", t, i));
        let iv = match o.1 {
            0 => S::ZERO,
            1 => n(0) * x(2),
            2 => n(0) * x(2) + n(1) * x(1),
            _ => (n(0) + n(2)) * x(2) + n(1) + n(3) * x(3),
        };
        let xv = x(o.1);
        s += match o.0 {
            0 => xv,
            1 => -xv,
            2 => k * xv,
            3 => -(k * xv),
            4 => iv,
            5 => -iv,
            6 => k * iv,
            _ => -(k * iv),
        };
    }
    s
}
pub fn run(rep: &mut Report) {
    rep.func("impl Add/Sub<{Variable, (Scalar, Variable), &LinearCombination, (Scalar, &LinearCombination)}> for LinearCombination, LinearCombination::{zero, as_ref}");
    let depth = if Report::thorough() { 4 } else { 3 };
    rep.bound(&format!("operator sequences of length 0..={} over 8 operators; operands: 4 variables (ONE, input, two auxiliary, with repetition) or inner combinations of 0..4 terms with repeated variables; all coefficients and all variable values symbolic over the BLS12-381 scalar field", depth));
    type C = Bls;
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut layer: Vec<Vec<Op>> = vec![vec![]];
    for d in 0..depth {
        let mut next = vec![];
        for s in &layer {
            for op in 0..8u8 {
                for v in 0..4u8 {
                    // full operand choice for the first two steps, fewer afterwards
                    if d >= 2 && v != (op & 1) * 2 + 1 {
                        continue;
                    }
                    let mut t = s.clone();
                    t.push(Op(op, v));
                    next.push(t);
                }
            }
        }
        seqs.extend(next.iter().cloned());
        layer = next;
    }
    for group in seqs.chunks(64) {
        explore::<C>(rep, "linear combination", |rep, sub| {
            let c = |n: &str| SymF::<C>::atom(&format!("k_{}", n));
            let x = |i: u8| var_poly::<C>(var(i));
            let mut gs = vec![];
            for ops in group {
                rep.paths += 1;
                let l = build::<SymF<C>>(ops, &c);
                let d = lc_poly::<C>(l.as_ref()) - spec::<SymF<C>>(ops, &c, &x);
                gs.push((ops, G::Zero(d.0)));
                rep.ok();
            }
            let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
            let all = G::All(gs.iter().map(|g| g.1.clone()).collect());
            decide(rep, &format!("{:?} ..", group[0]), &sys, &all, &|m| {
                let bad = gs.iter().find(|g| !eval_goal(&g.1, m)).ok_or("no failing sequence")?;
                // native replay
                let m = &close_model(m, sub);
                let c = |n: &str| scalar(m.get(&format!("k_{}", n)).unwrap_or(&[0; 4]));
                let x = |i: u8| match i {
                    0 => Scalar::ONE,
                    i => scalar(m.get(&var_name(var(i))).unwrap_or(&[0; 4])),
                };
                let l = build::<Scalar>(bad.0, &c);
                let mut v = Scalar::ZERO;
                for (vr, co) in l.as_ref() {
                    let i = (0..4).find(|i| var_name(var(*i)) == var_name(*vr)).ok_or("foreign variable")?;
                    v += x(i) * co;
                }
                let w = spec::<Scalar>(bad.0, &c, &x);
                if v == w {
                    return Err("real field agrees".into());
                }
                Ok(format!("operators {:?} at {}: value {} instead of {}", bad.0, show_model(m), scalar_dec(&v), scalar_dec(&w)))
            });
        });
    }
    let _ = H_ZERO;
}
