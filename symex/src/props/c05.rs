//! C05: number gadgets.
use crate::field::*;
use crate::gad::*;
use crate::poly::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::{ConstraintSystem, SynthesisError};
use ff::{Field, PrimeFieldBits};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Alloc,
    Mul,
    MulAlias,
    Square,
    Inputize,
    NonZero,
    Rev(u8),
    RevAlias(u8),
    /// start (0 zero, 1 allocated number), kinds of three added bits
    Num(u8, [u8; 3]),
}
pub struct K(pub Op);
impl Circ for K {
    fn name(&self) -> String {
        format!("{:?}", self.0)
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let num = |n: AllocatedNum<S>| Out::Num(n.get_variable(), n.get_value());
        Ok(match self.0 {
            Op::Alloc => vec![num(env.anum(cs, "a")?)],
            Op::Mul => {
                let a = env.anum(cs, "a")?;
                let b = env.anum(cs, "b")?;
                vec![num(a.mul(cs.namespace(|| "op"), &b)?)]
            }
            Op::MulAlias => {
                let a = env.anum(cs, "a")?;
                vec![num(a.mul(cs.namespace(|| "op"), &a)?)]
            }
            Op::Square => {
                let a = env.anum(cs, "a")?;
                vec![num(a.square(cs.namespace(|| "op"))?)]
            }
            Op::Inputize => {
                let a = env.anum(cs, "a")?;
                a.inputize(cs.namespace(|| "op"))?;
                vec![]
            }
            Op::NonZero => {
                let a = env.anum(cs, "a")?;
                a.assert_nonzero(cs.namespace(|| "op"))?;
                vec![]
            }
            Op::Rev(k) => {
                let a = env.anum(cs, "a")?;
                let b = env.anum(cs, "b")?;
                let c = env.operand(cs, "c", k)?;
                let (x, y) = AllocatedNum::conditionally_reverse(cs.namespace(|| "op"), &a, &b, &c)?;
                vec![num(x), num(y)]
            }
            Op::RevAlias(k) => {
                let a = env.anum(cs, "a")?;
                let c = env.operand(cs, "c", k)?;
                let (x, y) = AllocatedNum::conditionally_reverse(cs.namespace(|| "op"), &a, &a, &c)?;
                vec![num(x), num(y)]
            }
            Op::Num(start, ks) => {
                let mut n = if start == 0 { Num::zero() } else { Num::from(env.anum(cs, "a")?) };
                for (i, nm) in ["p", "q", "r"].into_iter().enumerate() {
                    let b = env.operand(cs, nm, ks[i])?;
                    n = n.add_bool_with_coeff(CS::one(), &b, env.coef(nm));
                }
                let c = env.coef("c");
                vec![Out::Lc(n.lc(c), n.get_value().map(|v| v * c))]
            }
        })
    }
}
fn val<C: Cfg>(o: &Out<SymF<C>>) -> Option<SymF<C>> {
    match o {
        Out::Num(_, v) | Out::Lc(_, v) => *v,
        _ => None,
    }
}
pub fn cases() -> Vec<K> {
    let mut c = vec![K(Op::Alloc), K(Op::Mul), K(Op::MulAlias), K(Op::Square), K(Op::Inputize), K(Op::NonZero)];
    for k in 0..4 {
        c.push(K(Op::Rev(k)));
        c.push(K(Op::RevAlias(k)));
    }
    for s in 0..2 {
        for i in 0..64u8 {
            c.push(K(Op::Num(s, [i & 3, (i >> 2) & 3, (i >> 4) & 3])));
        }
    }
    c
}
pub fn bits_of(op: Op) -> Vec<&'static str> {
    match op {
        Op::Rev(k) | Op::RevAlias(k) if k < 2 => vec!["c"],
        Op::Num(_, ks) => ["p", "q", "r"].into_iter().enumerate().filter(|(i, _)| ks[*i] < 2).map(|x| x.1).collect(),
        _ => vec![],
    }
}
fn kv(kind: u8, v: bool) -> bool {
    match kind {
        0 => v,
        1 => !v,
        k => k == 3,
    }
}
pub fn run(rep: &mut Report) {
    rep.func("AllocatedNum::{alloc,mul,square,inputize,assert_nonzero,conditionally_reverse,get_value}");
    rep.func("Num::{zero,from,add_bool_with_coeff,lc,get_value}");
    rep.bound("numbers, results, coefficients: every value of the BLS12-381 scalar field; condition and added bits: allocated, negated and both constants; running sums of three bits starting at zero or at an allocated number; operands distinct or aliased");
    type C = Bls;
    let z = |p: SymF<C>| G::Zero(p.0);
    for k in cases() {
        soundness::<C, _>(rep, &k, |v| {
            let eqv = |o: usize, x: SymF<C>| ("value".to_string(), G::Zero((v.o(o) - x).0));
            match k.0 {
                Op::Alloc => vec![],
                Op::Mul => vec![eqv(0, v.v("a") * v.v("b"))],
                Op::MulAlias | Op::Square => vec![eqv(0, v.v("a") * v.v("a"))],
                Op::Inputize => vec![("public copy".into(), z(SymF::atom("i1") - v.v("a")))],
                Op::NonZero => vec![("non-zero".into(), G::Not(Box::new(z(v.v("a")))))],
                Op::Rev(c) | Op::RevAlias(c) => {
                    let cond = v.kb("c", c);
                    let a = v.v("a");
                    let b = if matches!(k.0, Op::Rev(_)) { v.v("b") } else { a };
                    let pick = |o: usize, t: SymF<C>, f: SymF<C>| {
                        G::All(vec![
                            G::Any(vec![G::Bool(cond.clone().not()), z(v.o(o) - t)]),
                            G::Any(vec![G::Bool(cond.clone()), z(v.o(o) - f)]),
                        ])
                    };
                    vec![("first".into(), pick(0, b, a)), ("second".into(), pick(1, a, b))]
                }
                Op::Num(s, ks) => {
                    let mut e = if s == 0 { SymF::ZERO } else { v.v("a") };
                    for (i, nm) in ["p", "q", "r"].into_iter().enumerate() {
                        let bit = match ks[i] {
                            0 => v.v(nm),
                            1 => SymF::ONE - v.v(nm),
                            x => SymF::from((x == 3) as u64),
                        };
                        e += v.k(nm) * bit;
                    }
                    vec![eqv(0, e * v.k("c"))]
                }
            }
        });
        satisfiable::<C, _>(rep, &k);
        if k.0 == Op::NonZero {
            continue;
        }
        completeness::<C, _>(rep, &k, &bits_of(k.0), |b, outs, cs| {
            let w = |n: &str| SymF::<C>::atom(&format!("w_{}", n));
            let bit = |n: &str, kind: u8| kv(kind, *b.get(n).unwrap_or(&false));
            let want: Vec<SymF<C>> = match k.0 {
                Op::Alloc => vec![w("a")],
                Op::Mul => vec![w("a") * w("b")],
                Op::MulAlias | Op::Square => vec![w("a") * w("a")],
                Op::Rev(c) => {
                    if bit("c", c) {
                        vec![w("b"), w("a")]
                    } else {
                        vec![w("a"), w("b")]
                    }
                }
                Op::RevAlias(_) => vec![w("a"), w("a")],
                Op::Num(s, ks) => {
                    let mut e = if s == 0 { SymF::ZERO } else { w("a") };
                    for (i, nm) in ["p", "q", "r"].into_iter().enumerate() {
                        if bit(nm, ks[i]) {
                            e += SymF::<C>::atom(&format!("k_{}", nm));
                        }
                    }
                    vec![e * SymF::<C>::atom("k_c")]
                }
                _ => vec![],
            };
            let mut r = vec![];
            if k.0 == Op::Inputize {
                r.push(("input count".to_string(), cs.inputs.len() == 2, cs.inputs.get(1).and_then(|x| *x).map(|x| x - w("a"))));
            }
            for (o, e) in outs.iter().zip(want) {
                let v = val(o);
                r.push(("tracked value present".into(), v.is_some(), v.map(|v| v - e)));
                // the tracked value is also what was assigned in the constraint system
                let a = match o {
                    Out::Num(x, _) => cs.val(*x),
                    Out::Lc(l, _) => cs.eval_lc(l.as_ref()),
                    _ => None,
                };
                r.push(("assigned value".into(), a.is_some(), a.map(|v| v - e)));
            }
            r
        });
    }
    // assert_nonzero: every non-zero number is accepted, zero is rejected with DivisionByZero
    explore::<C>(rep, "assert_nonzero", |rep, sub| {
        rep.paths += 1;
        let k = K(Op::NonZero);
        let src = PathWit { bits: Default::default() };
        let mut cs = Rec::<SymF<C>>::new(true);
        let mut env = Env { src: &src, vars: Default::default() };
        let r = k.build(&mut cs, &mut env);
        let zero = SymF::<C>::atom("w_a").0 == H_ZERO;
        match r {
            Ok(_) => {
                rep.require(!zero, "assert_nonzero accepts zero", || "assert_nonzero succeeded on the witness value zero".into());
                if zero {
                    return;
                }
                let gs = cs.cons.iter().map(|c| G::Zero((cs.eval_lc(&c[0]).unwrap() * cs.eval_lc(&c[1]).unwrap() - cs.eval_lc(&c[2]).unwrap()).0)).collect();
                // the inverse symbol
                let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
                decide(rep, "assert_nonzero honest", &sys, &G::All(gs), &|m| Ok(format!("assert_nonzero: honest witness {} violates its constraint", show_model(m))));
            }
            Err(e) => rep.require(zero && matches!(e, SynthesisError::DivisionByZero), "assert_nonzero error", || format!("assert_nonzero fails with {:?} for witness {:?}", e, sub)),
        }
    });
}
