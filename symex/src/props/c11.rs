//! C11: window lookups.
use crate::field::*;
use crate::gad::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::boolean::Boolean;
use bellman::gadgets::lookup::{lookup3_xy, lookup3_xy_with_conditional_negation};
use bellman::{ConstraintSystem, SynthesisError};
use ff::{Field, PrimeFieldBits};

/// variant, kinds of the three bits, indices of the bit variables (aliases)
pub struct K(pub bool, pub [u8; 3], pub [usize; 3]);
const N: [&str; 3] = ["a", "b", "c"];
impl Circ for K {
    fn name(&self) -> String {
        format!("lookup3_xy{}{:?}{:?}", if self.0 { "_with_conditional_negation" } else { "" }, self.1, self.2)
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let mut bits: Vec<Boolean> = vec![];
        for i in 0..3 {
            let j = self.2[i];
            if j < i {
                let neg = self.1[i] == 1;
                let b = bits[j].clone();
                let b = match b {
                    Boolean::Is(x) | Boolean::Not(x) => {
                        if neg {
                            Boolean::Not(x)
                        } else {
                            Boolean::Is(x)
                        }
                    }
                    k => k,
                };
                bits.push(b);
            } else {
                bits.push(env.operand(cs, N[i], self.1[i])?);
            }
        }
        let n = if self.0 { 4 } else { 8 };
        let coords: Vec<(S, S)> = (0..n).map(|i| (env.coef(&format!("x{}", i)), env.coef(&format!("y{}", i)))).collect();
        if self.0 {
            let (x, y) = lookup3_xy_with_conditional_negation(cs.namespace(|| "op"), &bits, &coords)?;
            let o = S::ONE;
            Ok(vec![Out::Lc(x.lc(o), x.get_value()), Out::Lc(y.lc(o), y.get_value())])
        } else {
            let (x, y) = lookup3_xy(cs.namespace(|| "op"), &bits, &coords)?;
            Ok(vec![Out::Num(x.get_variable(), x.get_value()), Out::Num(y.get_variable(), y.get_value())])
        }
    }
}
pub fn cases() -> Vec<K> {
    let mut v = vec![];
    for neg in [false, true] {
        for i in 0..64u8 {
            v.push(K(neg, [i & 3, (i >> 2) & 3, (i >> 4) & 3], [0, 1, 2]));
        }
        for al in [[0, 0, 2], [0, 1, 0], [0, 1, 1], [0, 0, 0]] {
            for k in [[0, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0]] {
                v.push(K(neg, k, al));
            }
        }
    }
    v
}
pub fn bits_of(k: &K) -> Vec<&'static str> {
    (0..3).filter(|i| k.1[*i] < 2 && k.2[*i] == *i).map(|i| N[i]).collect()
}
pub fn run(rep: &mut Report) {
    rep.func("lookup3_xy, lookup3_xy_with_conditional_negation, synth");
    rep.bound("table: all 8 (4) coordinate pairs arbitrary elements of the BLS12-381 scalar field; index bits: every combination of allocated, negated, constant false, constant true (64), and aliased bits; outputs range over the whole field");
    type C = Bls;
    for k in cases() {
        soundness::<C, _>(rep, &k, |v| {
            let ks: Vec<B> = (0..3).map(|i| v.kb(N[k.2[i]], k.1[i])).collect();
            let idx = if k.0 { 2 } else { 3 };
            let mut gs = vec![];
            for i in 0..1usize << idx {
                let sel: Vec<B> = (0..idx).map(|j| if (i >> j) & 1 == 1 { ks[j].clone() } else { ks[j].clone().not() }).collect();
                let not_sel = G::Bool(B::And(sel).not());
                let x = v.k(&format!("x{}", i));
                let y = v.k(&format!("y{}", i));
                gs.push((format!("x entry {}", i), G::Any(vec![not_sel.clone(), G::Zero((v.o(0) - x).0)])));
                if k.0 {
                    gs.push((format!("y entry {}", i), G::Any(vec![not_sel.clone(), G::Bool(ks[2].clone()), G::Zero((v.o(1) - y).0)])));
                    gs.push((format!("-y entry {}", i), G::Any(vec![not_sel, G::Bool(ks[2].clone().not()), G::Zero((v.o(1) + y).0)])));
                } else {
                    gs.push((format!("y entry {}", i), G::Any(vec![not_sel, G::Zero((v.o(1) - y).0)])));
                }
            }
            vec![("entries".into(), G::All(gs.into_iter().map(|x| x.1).collect()))]
        });
        satisfiable::<C, _>(rep, &k);
        completeness::<C, _>(rep, &k, &bits_of(&k), |b, outs, cs| {
            let bit = |i: usize| {
                let v = *b.get(N[k.2[i]]).unwrap_or(&false);
                match k.1[i] {
                    0 => v,
                    1 => !v,
                    x => x == 3,
                }
            };
            let i = bit(0) as usize + 2 * bit(1) as usize + if k.0 { 0 } else { 4 * bit(2) as usize };
            let at = |n: String| SymF::<C>::atom(&format!("k_{}", n));
            let x = at(format!("x{}", i));
            let mut y = at(format!("y{}", i));
            if k.0 && bit(2) {
                y = -y;
            }
            let mut r = vec![];
            for (o, e) in outs.iter().zip([x, y]) {
                let (v, a) = match o {
                    Out::Num(x, v) => (*v, cs.val(*x)),
                    Out::Lc(l, v) => (*v, cs.eval_lc(l.as_ref())),
                    _ => (None, None),
                };
                r.push(("tracked value".to_string(), v.is_some(), v.map(|v| v - e)));
                r.push(("assigned value".to_string(), a.is_some(), a.map(|v| v - e)));
            }
            r
        });
    }
    let _ = SymF::<C>::ZERO;
}
