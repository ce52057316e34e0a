//! C08: batched equality checks.
use crate::big::*;
use crate::field::*;
use crate::gad::*;
use crate::poly::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::multieq::MultiEq;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField, PrimeFieldBits};
use std::collections::BTreeMap;

/// widths of the successive equalities; `Some(i)`: the i-th side is over a single variable
#[derive(Clone)]
pub struct K(pub Vec<usize>, pub bool);
impl Circ for K {
    fn name(&self) -> String {
        format!("MultiEq{:?}{}", self.0, if self.1 { " interleaved" } else { "" })
    }
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError> {
        let mut l = vec![];
        for i in 0..self.0.len() {
            let a = env.anum(cs, &format!("l{}", i))?.get_variable();
            let b = env.anum(cs, &format!("r{}", i))?.get_variable();
            l.push((a, b));
        }
        let mut me = MultiEq::new(cs.namespace(|| "me"));
        for (i, w) in self.0.iter().enumerate() {
            let z = LinearCombination::<S>::zero;
            me.enforce_equal(*w, &(z() + l[i].0), &(z() + l[i].1));
            if self.1 {
                // an unrelated constraint emitted through the wrapper
                let v: Variable = l[i].0;
                me.enforce(|| format!("x{}", i), |lc| lc + v, |lc| lc, |lc| lc);
            }
        }
        drop(me);
        Ok(vec![])
    }
}
/// Constraints extracted over the integers: the claim is decided with integer variables of the declared widths.
fn check<C: Cfg>(rep: &mut Report, k: &K) {
    init_cfg::<C>();
    let mut cs = Rec::<SymF<C>>::new(false);
    let mut env = Env { src: &NoWit, vars: BTreeMap::new() };
    rep.paths += 1;
    if let Err(e) = k.build(&mut cs, &mut env) {
        let d = format!("{}: {:?}", k.name(), e);
        rep.violation(&k.name(), &d, &d);
        return;
    }
    let p = from_dec(C::MODULUS);
    // names of the variables
    let mut width: BTreeMap<String, usize> = BTreeMap::new();
    for (i, w) in k.0.iter().enumerate() {
        width.insert(var_name(env.vars[&format!("l{}", i)]), *w);
        width.insert(var_name(env.vars[&format!("r{}", i)]), *w);
    }
    let mut q = crate::smt::Query::new(&k.name());
    for (n, w) in &width {
        q.line(&format!("(declare-fun {} () Int)", n));
        q.line(&format!("(assert (and (<= 0 {}) (< {} {})))", n, n, pow2(*w)));
        q.want.push(n.clone());
    }
    // every constraint must be linear: one side constant
    let a = arena();
    let side = |l: &[(Variable, SymF<C>)]| -> (U256, BTreeMap<String, U256>) {
        let mut cst = [0u64; 4];
        let mut m: BTreeMap<String, U256> = BTreeMap::new();
        for (v, c) in l {
            let c = a.as_const(c.0).expect("SYMEX: MultiEq coefficient is not constant");
            let n = var_name(*v);
            if n == "i0" {
                cst = a.m.add(&cst, &c);
            } else {
                let e = m.entry(n).or_insert([0; 4]);
                *e = a.m.add(e, &c);
            }
        }
        (cst, m)
    };
    let mut cons = vec![];
    for c in &cs.cons {
        let (x, y, z) = (side(&c[0]), side(&c[1]), side(&c[2]));
        let (cst, lin) = if y.1.is_empty() { (y.0, x) } else if x.1.is_empty() { (x.0, y) } else { panic!("SYMEX: non-linear MultiEq constraint") };
        // cst*lin - z = 0
        let mut t: BTreeMap<String, U256> = BTreeMap::new();
        for (n, v) in &lin.1 {
            let e = t.entry(n.clone()).or_insert([0; 4]);
            *e = a.m.add(e, &a.m.mul(v, &cst));
        }
        for (n, v) in &z.1 {
            let e = t.entry(n.clone()).or_insert([0; 4]);
            *e = a.m.sub(e, v);
        }
        let c0 = a.m.sub(&a.m.mul(&lin.0, &cst), &z.0);
        let mut s = vec![signed(&a, &c0, &p)];
        for (n, v) in &t {
            if !is_zero(v) {
                s.push(format!("(* {} {})", signed(&a, v, &p), n));
            }
        }
        cons.push(format!("(= (mod (+ 0 {}) {}) 0)", s.join(" "), dec(&p)));
    }
    drop(a);
    let eqs: Vec<String> = (0..k.0.len()).map(|i| format!("(= {} {})", var_name(env.vars[&format!("l{}", i)]), var_name(env.vars[&format!("r{}", i)]))).collect();
    q.line(&format!("(assert (not (= (and true {}) (and true {}))))", cons.join(" "), eqs.join(" ")));
    match q.solve() {
        crate::smt::Res::Unsat => rep.ok(),
        crate::smt::Res::Unknown(w) => rep.error(&format!("{}: {}", k.name(), w)),
        crate::smt::Res::Sat(m) => {
            // confirm on the constraints with the recorded coefficients
            let mut vals: BTreeMap<String, U256> = BTreeMap::new();
            for (n, v) in &m {
                vals.insert(n.clone(), from_dec(v));
            }
            let alleq = (0..k.0.len()).all(|i| vals.get(&var_name(env.vars[&format!("l{}", i)])) == vals.get(&var_name(env.vars[&format!("r{}", i)])));
            let mut c2 = Rec::<SymF<C>>::new(false);
            let mut e2 = Env { src: &NoWit, vars: BTreeMap::new() };
            let _ = k.build(&mut c2, &mut e2);
            for (i, x) in c2.aux.iter_mut().enumerate() {
                *x = Some(SymF::int(vals.get(&format!("a{}", i)).unwrap_or(&[0; 4])));
            }
            let sat = c2.violated().is_empty();
            rep.replays += 1;
            if sat != alleq {
                let t = format!("{} (field {}): values {}: constraints satisfied = {}, all equalities hold = {}", k.name(), C::MODULUS, show_model(&vals), sat, alleq);
                rep.violation(&k.name(), &t, &t);
            } else {
                rep.error(&format!("{}: counterexample does not reproduce", k.name()));
            }
        }
    }
}
fn signed(a: &Arena, v: &U256, p: &U256) -> String {
    let x = a.m.from(v);
    let n = sub(p, &x).0;
    if cmp(&n, &x) == std::cmp::Ordering::Less {
        format!("(- {})", dec(&n))
    } else {
        dec(&x)
    }
}
fn pow2(w: usize) -> String {
    let mut v = [0u64; 4];
    v[w / 64] = 1 << (w % 64);
    dec(&v)
}
pub fn run(rep: &mut Report) {
    rep.func("MultiEq::{new, enforce_equal, accumulate, drop, enforce}");
    rep.bound("BLS12-381 (capacity 254): width sequences of up to 6 equalities of widths 1..253 at and around the capacity boundary, every offset 1..252 of a second equality, plus runs of 35- and 33-bit sums as emitted by UInt32::addmany; capacity-6 and capacity-13 fields: every width sequence of up to 3 (quick) or 4 (thorough) equalities; operands are integers of the declared width on both sides");
    rep.assume("both sides of an equality are within the declared width (the gadget's documented contract); widths below the capacity (larger ones are rejected by an assertion in the code)");
    // BLS: interesting sequences
    let mut seqs: Vec<Vec<usize>> = vec![vec![], vec![1], vec![253], vec![252, 1], vec![253, 1], vec![1, 253], vec![252, 1, 1], vec![1, 252, 1], vec![126, 127, 1], vec![126, 127], vec![127, 127], vec![128, 126, 3], vec![200, 53], vec![200, 54], vec![200, 55, 253, 1]];
    seqs.push(vec![35; 6]);
    seqs.push(vec![36; 6]);
    seqs.push(vec![36, 36, 36, 36, 36, 36, 37]);
    seqs.push(vec![36; 8]);
    seqs.push(vec![33, 34, 35, 36, 34, 35, 36, 33]);
    if Report::thorough() {
        seqs.push(vec![32; 16]);
        seqs.push(vec![64, 64, 63, 62, 1, 200]);
    }
    // every bit offset at which a second equality can start
    for w in 1..253 {
        seqs.push(vec![w, 1]);
    }
    for s in &seqs {
        check::<Bls>(rep, &K(s.clone(), false));
    }
    check::<Bls>(rep, &K(vec![100, 100, 53, 54, 100], true));
    // small fields, exhaustively
    let n = if Report::thorough() { 4 } else { 3 };
    fn all<C: Cfg>(rep: &mut Report, n: usize, cap: usize, step: usize) {
        let mut layer = vec![vec![]];
        for _ in 0..n {
            let mut next: Vec<Vec<usize>> = vec![];
            for s in &layer {
                for w in (1..cap).step_by(step) {
                    let mut t: Vec<usize> = s.clone();
                    t.push(w);
                    next.push(t);
                }
            }
            for s in &next {
                check::<C>(rep, &K(s.clone(), s.len() == 2));
            }
            layer = next;
        }
    }
    all::<P97>(rep, n, <SymF<P97> as PrimeField>::CAPACITY as usize, 1);
    all::<P12289>(rep, 2, <SymF<P12289> as PrimeField>::CAPACITY as usize, 1);
    let _ = SymF::<Bls>::ZERO;
}
