//! C03: boolean gadgets.
use crate::field::*;
use crate::gad::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::{ConstraintSystem, SynthesisError};
use ff::{Field, PrimeField, PrimeFieldBits};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    AAlloc,
    AXor,
    AAnd,
    AAndNot,
    ANor,
    Xor,
    And,
    Ch,
    Maj,
    Not,
}
pub struct K(pub Op, pub [u8; 3]);
const N: [&str; 3] = ["a", "b", "c"];
impl K {
    pub fn arity(&self) -> usize {
        match self.0 {
            Op::Ch | Op::Maj => 3,
            Op::Not | Op::AAlloc => 1,
            _ => 2,
        }
    }
    fn spec(&self, v: &[B]) -> B {
        let c = |i: usize| v[i].clone();
        match self.0 {
            Op::AXor | Op::Xor => B::Xor(vec![c(0), c(1)]),
            Op::AAnd | Op::And => B::And(vec![c(0), c(1)]),
            Op::AAndNot => B::And(vec![c(0), c(1).not()]),
            Op::ANor => B::Or(vec![c(0), c(1)]).not(),
            Op::Ch => B::ite(c(0), c(1), c(2)),
            Op::Maj => B::Or(vec![B::And(vec![c(0), c(1)]), B::And(vec![c(0), c(2)]), B::And(vec![c(1), c(2)])]),
            Op::Not => c(0).not(),
            Op::AAlloc => c(0),
        }
    }
}
impl Circ for K {
    fn name(&self) -> String {
        format!("{:?}{:?}", self.0, &self.1[..self.arity()])
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let mut o = vec![];
        for i in 0..self.arity() {
            o.push(env.operand(cs, N[i], self.1[i])?);
        }
        let ab = |b: &Boolean| match b {
            Boolean::Is(a) => a.clone(),
            _ => unreachable!(),
        };
        let cs = cs.namespace(|| "op");
        Ok(vec![match self.0 {
            Op::AAlloc => ab(&o[0]).into(),
            Op::AXor => AllocatedBit::xor(cs, &ab(&o[0]), &ab(&o[1]))?.into(),
            Op::AAnd => AllocatedBit::and(cs, &ab(&o[0]), &ab(&o[1]))?.into(),
            Op::AAndNot => AllocatedBit::and_not(cs, &ab(&o[0]), &ab(&o[1]))?.into(),
            Op::ANor => AllocatedBit::nor(cs, &ab(&o[0]), &ab(&o[1]))?.into(),
            Op::Xor => Out::Bit(Boolean::xor(cs, &o[0], &o[1])?),
            Op::And => Out::Bit(Boolean::and(cs, &o[0], &o[1])?),
            Op::Ch => Out::Bit(Boolean::sha256_ch(cs, &o[0], &o[1], &o[2])?),
            Op::Maj => Out::Bit(Boolean::sha256_maj(cs, &o[0], &o[1], &o[2])?),
            Op::Not => Out::Bit(o[0].not()),
        }])
    }
}
/// Same gadget with aliased operands (the same variable used several times).
struct Alias(Op, [u8; 3], [usize; 3]);
impl Circ for Alias {
    fn name(&self) -> String {
        format!("alias {:?}{:?}{:?}", self.0, self.1, self.2)
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let v = [env.abit(cs, "a")?, env.abit(cs, "b")?];
        let o: Vec<Boolean> = (0..3).map(|i| if self.1[i] == 0 { Boolean::Is(v[self.2[i]].clone()) } else { Boolean::Not(v[self.2[i]].clone()) }).collect();
        Ok(vec![match self.0 {
            Op::Xor => Out::Bit(Boolean::xor(cs, &o[0], &o[1])?),
            Op::And => Out::Bit(Boolean::and(cs, &o[0], &o[1])?),
            Op::Ch => Out::Bit(Boolean::sha256_ch(cs, &o[0], &o[1], &o[2])?),
            Op::Maj => Out::Bit(Boolean::sha256_maj(cs, &o[0], &o[1], &o[2])?),
            _ => unreachable!(),
        }])
    }
}
struct EnfEq([u8; 2]);
impl Circ for EnfEq {
    fn name(&self) -> String {
        format!("enforce_equal{:?}", self.0)
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let a = env.operand(cs, "a", self.0[0])?;
        let b = env.operand(cs, "b", self.0[1])?;
        Boolean::enforce_equal(cs.namespace(|| "eq"), &a, &b)?;
        Ok(vec![])
    }
}
/// Boolean::lc with a symbolic coefficient.
struct Lc(u8);
impl Circ for Lc {
    fn name(&self) -> String {
        format!("lc[{}]", self.0)
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let a = env.operand(cs, "a", self.0)?;
        let c = env.coef("c");
        Ok(vec![Out::Lc(a.lc(CS::one(), c), None)])
    }
}
fn ev(b: &B) -> bool {
    b.eval(&|_| false)
}
fn kv(kind: u8, v: bool) -> B {
    B::C(match kind {
        0 => v,
        1 => !v,
        k => k == 3,
    })
}

pub fn run(rep: &mut Report) {
    rep.func("AllocatedBit::{alloc,xor,and,and_not,nor}");
    rep.func("Boolean::{xor,and,not,sha256_ch,sha256_maj,enforce_equal,lc,get_value}");
    rep.bound("operand kinds: allocated, negated, constant false, constant true for every operand; aliased operands over two variables; field: BLS12-381 scalar field (255 bit); result and operand variables range over the whole field");
    rep.assume("operands are AllocatedBit values produced by alloc (their own boolean constraints are part of the query)");
    type C = Bls;
    let mut cases = vec![];
    for op in [Op::AXor, Op::AAnd, Op::AAndNot, Op::ANor] {
        cases.push(K(op, [0; 3]));
    }
    cases.push(K(Op::AAlloc, [0; 3]));
    for a in 0..4 {
        cases.push(K(Op::Not, [a, 0, 0]));
        for b in 0..4 {
            cases.push(K(Op::Xor, [a, b, 0]));
            cases.push(K(Op::And, [a, b, 0]));
            for c in 0..4 {
                cases.push(K(Op::Ch, [a, b, c]));
                cases.push(K(Op::Maj, [a, b, c]));
            }
        }
    }
    for k in &cases {
        let n = k.arity();
        soundness::<C, _>(rep, k, |v| {
            let ops: Vec<B> = (0..n).map(|i| v.kb(N[i], k.1[i])).collect();
            vec![("result".into(), G::IsBool(v.o(0).0, k.spec(&ops)))]
        });
        let names: Vec<&str> = (0..n).filter(|i| k.1[*i] < 2).map(|i| N[i]).collect();
        completeness::<C, _>(rep, k, &names, |b, outs, _| {
            let ops: Vec<B> = (0..n).map(|i| kv(k.1[i], *b.get(N[i]).unwrap_or(&false))).collect();
            let want = ev(&k.spec(&ops));
            vec![("witness value".into(), outs[0].bit_value() == Some(want), None)]
        });
        satisfiable::<C, _>(rep, k);
    }
    for op in [Op::Xor, Op::And, Op::Ch, Op::Maj] {
        let ar = if matches!(op, Op::Ch | Op::Maj) { 3 } else { 2 };
        for idx in 0..8usize {
            for neg in 0..8u8 {
                let ix = [idx & 1, (idx >> 1) & 1, (idx >> 2) & 1];
                let ng = [neg & 1, (neg >> 1) & 1, (neg >> 2) & 1];
                if ar == 2 && (idx >= 4 || neg >= 4) {
                    continue;
                }
                if ix.iter().all(|x| *x == 1) || (ar == 3 && ix == [0, 0, 0] && !Report::thorough()) {
                    continue;
                }
                let k = Alias(op, ng, ix);
                let spec = K(op, [0; 3]);
                soundness::<C, _>(rep, &k, |v| {
                    let ops: Vec<B> = (0..3).map(|i| v.kb(N[ix[i]], ng[i])).collect();
                    vec![("result".into(), G::IsBool(v.o(0).0, spec.spec(&ops)))]
                });
            }
        }
    }
    for a in 0..4u8 {
        for b in 0..4u8 {
            let k = EnfEq([a, b]);
            // constants that differ cannot be equal: must be rejected
            if a >= 2 && b >= 2 {
                init_cfg::<C>();
                let mut cs = Rec::<SymF<C>>::new(false);
                let mut env = Env { src: &NoWit, vars: Default::default() };
                let r = k.build(&mut cs, &mut env);
                rep.paths += 1;
                let sat = match r {
                    Err(_) => false,
                    Ok(_) => {
                        let mut s = Sys::from_rec(&cs);
                        !matches!(s.check("constants", &G::Bool(B::C(false))), Outcome::Holds)
                    }
                };
                rep.require(sat == (a == b), &k.name(), || format!("{}: equality of constants: accepted = {}", k.name(), sat));
                continue;
            }
            soundness::<C, _>(rep, &k, |v| vec![("equal".into(), G::Bool(B::Xor(vec![v.kb("a", a), v.kb("b", b)]).not()))]);
            satisfiable::<C, _>(rep, &k);
            // conversely every equal pair is accepted
            init_cfg::<C>();
            let mut names = vec![];
            if a < 2 {
                names.push("a");
            }
            if b < 2 {
                names.push("b");
            }
            for mask in 0..(1 << names.len()) {
                init_cfg::<C>();
                let bits: std::collections::BTreeMap<String, bool> = names.iter().enumerate().map(|(i, n)| (n.to_string(), (mask >> i) & 1 == 1)).collect();
                let val = |k: u8, n: &str| ev(&kv(k, *bits.get(n).unwrap_or(&false)));
                let eq = val(a, "a") == val(b, "b");
                let src = PathWit { bits: bits.clone() };
                let mut cs = Rec::<SymF<C>>::new(true);
                let mut env = Env { src: &src, vars: Default::default() };
                rep.paths += 1;
                let ok = k.build(&mut cs, &mut env).is_ok() && cs.violated().is_empty();
                rep.require(ok == eq, &k.name(), || format!("{}: honest witness {:?} accepted = {}", k.name(), bits, ok));
            }
        }
    }
    for a in 0..4u8 {
        let k = Lc(a);
        soundness::<C, _>(rep, &k, |v| {
            // lc == coefficient * bit, for both values of the bit and every coefficient
            let c = v.k("c");
            let bit: SymF<C> = match a {
                0 => v.v("a"),
                1 => SymF::ONE - v.v("a"),
                x => SymF::from((x == 3) as u64),
            };
            vec![("value".into(), G::Zero((v.o(0) - c * bit).0))]
        });
    }
    let _ = <bls12_381::Scalar as PrimeField>::NUM_BITS;
}
