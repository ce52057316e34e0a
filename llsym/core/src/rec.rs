//! Constraint system that records what a gadget emits, and derives from the constraints alone which values every
//! allocated variable can take.
use crate::ext::*;
use crate::int::{IM, MODULI};
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
pub const INPUT: u32 = 1_000_000;
pub type Lf<const M: usize> = Vec<(u32, IM<M>)>;
pub struct Rec<const M: usize> {
    pub aux: Vec<IM<M>>,
    pub inputs: Vec<IM<M>>,
    pub cons: Vec<[Lf<M>; 3]>,
    /// 0: values required, 1: closures are called but may fail, 2: closures are not called
    pub mode: u8,
    /// the order in which variables (0 private, 1 public) and constraints (2) came
    pub order: Vec<u8>,
}
pub fn ix(v: &Variable) -> u32 { match v.get_unchecked() { Index::Input(i) => INPUT + i as u32, Index::Aux(i) => i as u32 } }
#[inline(never)]
fn get<const M: usize, F: FnOnce() -> Result<IM<M>, SynthesisError>>(f: F) -> Result<IM<M>, SynthesisError> { f() }
impl<const M: usize> Rec<M> {
    pub fn new(mode: u8) -> Self { Rec { aux: Vec::with_capacity(64), inputs: vec![IM::ONE], cons: vec![], mode, order: vec![] } }
    fn val<F: FnOnce() -> Result<IM<M>, SynthesisError>>(&self, f: F) -> Result<IM<M>, SynthesisError> {
        match self.mode { 0 => get(f), 1 => Ok(get(f).unwrap_or(IM::ZERO)), _ => Ok(IM::ZERO) }
    }
    pub fn eval(&self, l: &Lf<M>, aux: &[IM<M>], inputs: &[IM<M>]) -> IM<M> {
        let mut r = IM::ZERO;
        for (v, c) in l { r = r + scale(c, if *v >= INPUT { &inputs[(*v - INPUT) as usize] } else { &aux[*v as usize] }) }
        r
    }
    /// The terms with positive and those with negative coefficients, summed apart: no term is negative.
    fn parts(&self, l: &Lf<M>) -> (IM<M>, IM<M>) {
        sums(norm(l), |v| if v >= INPUT { self.inputs[(v - INPUT) as usize] } else { self.aux[v as usize] })
    }
    /// Every constraint holds for the recorded witness, over the integers.
    pub fn honest(&self) {
        for c in &self.cons {
            let z = [self.parts(&c[0]), self.parts(&c[1]), self.parts(&c[2])];
            // (p0 - n0)(p1 - n1) = p2 - n2
            let l = plus(plus(times(z[0].0, z[1].0), times(z[0].1, z[1].1)), z[2].1);
            let r = plus(plus(times(z[0].0, z[1].1), times(z[0].1, z[1].0)), z[2].0);
            let mut ok = true;
            for i in 0..4 { ok &= l.0[i] == r.0[i]; }
            check(ok, "the honest witness satisfies every constraint");
        }
    }
    pub fn same_shape(&self, o: &Self, t: &str) {
        let mut ok = self.aux.len() == o.aux.len() && self.inputs.len() == o.inputs.len() && self.cons.len() == o.cons.len() && self.order == o.order;
        if ok {
            for (a, b) in self.cons.iter().zip(&o.cons) {
                for k in 0..3 {
                    if a[k].len() != b[k].len() { ok = false; break }
                    for (x, y) in a[k].iter().zip(&b[k]) { ok &= x.0 == y.0 && x.1 == y.1; }
                }
            }
        }
        check(ok, t);
    }
}
pub fn sums<const M: usize>(l: Lf<M>, val: impl Fn(u32) -> IM<M>) -> (IM<M>, IM<M>) {
    let (mut s, mut used) = ([IM::ZERO; 2], [[0u64; 4]; 2]);
    for (v, c) in l {
        let x = val(v);
        let (k, c) = if neg(&c) { (1, -c) } else { (0, c) };
        let t = scale(&c, &x);
        let one = is_bit(&x) && (0..4).all(|i| used[k][i] & c.0[i] == 0) && c.0.iter().map(|w| w.count_ones()).sum::<u32>() == 1;
        if one {
            for i in 0..4 { s[k].0[i] |= t.0[i]; used[k][i] |= c.0[i]; }
        } else { s[k] = plus(s[k], t); used[k] = [!0; 4]; }
    }
    (s[0], s[1])
}
fn is<const M: usize>(x: &IM<M>, k: u64) -> bool { (0..4).all(|i| !is_symbolic(x.0[i]) && x.0[i] == if i == 0 { k } else { 0 }) }
fn is_bit<const M: usize>(x: &IM<M>) -> bool { let b = x.0[0] < 2; (1..4).all(|i| !is_symbolic(x.0[i]) && x.0[i] == 0) && !is_symbolic(b as u64) && b }
pub fn plus<const M: usize>(a: IM<M>, b: IM<M>) -> IM<M> { if is(&a, 0) { b } else if is(&b, 0) { a } else { a + b } }
pub fn times<const M: usize>(a: IM<M>, b: IM<M>) -> IM<M> {
    if is(&a, 0) || is(&b, 0) { IM::ZERO } else if is(&a, 1) { b } else if is(&b, 1) { a } else { a * b }
}
/// c * x for a value x of one bit is written down without multiplying.
fn scale<const M: usize>(c: &IM<M>, x: &IM<M>) -> IM<M> {
    if *c == IM::ONE { return *x }
    if *c == -IM::<M>::ONE { return -*x }
    if x.0[1] == 0 && x.0[2] == 0 && x.0[3] == 0 && is_symbolic(x.0[0]) && is_bit(x) && !neg(c) { let m = 0u64.wrapping_sub(x.0[0]); return IM([c.0[0] & m, c.0[1] & m, c.0[2] & m, c.0[3] & m]) }
    *c * *x
}
pub fn neg<const M: usize>(c: &IM<M>) -> bool { c.0[3] >> 63 == 1 }
impl<const M: usize> ConstraintSystem<IM<M>> for Rec<M> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<IM<M>, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = self.val(f)?;
        self.aux.push(v);
        self.order.push(0);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<IM<M>, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = self.val(f)?;
        self.inputs.push(v);
        self.order.push(1);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<IM<M>>) -> LinearCombination<IM<M>>,
          LB: FnOnce(LinearCombination<IM<M>>) -> LinearCombination<IM<M>>, LC: FnOnce(LinearCombination<IM<M>>) -> LinearCombination<IM<M>> {
        let l = [a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero())];
        self.order.push(2);
        self.cons.push(l.map(|x| x.as_ref().iter().map(|(v, q)| (ix(v), *q)).collect()));
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
}
/// Like terms summed, zero coefficients dropped.
pub fn norm<const M: usize>(l: &Lf<M>) -> Lf<M> {
    let mut r: Lf<M> = vec![];
    for (v, c) in l {
        match r.iter_mut().find(|x| x.0 == *v) { Some(x) => x.1 = x.1 + *c, None => r.push((*v, *c)) }
    }
    r.retain(|x| x.1 != IM::ZERO);
    r
}
/// An arbitrary assignment satisfying the constraints (except those listed in `skip`): a variable that a constraint
/// confines to two values is either of them, by a fresh symbol; one that a constraint determines has that value.
/// All values that appear must be zero or one.
pub struct Any<const M: usize> { pub aux: Vec<Option<IM<M>>>, pub inputs: Vec<Option<IM<M>>> }
fn unit<const M: usize>(c: &IM<M>) -> bool { *c == IM::ONE || *c == -IM::<M>::ONE }
impl<const M: usize> Any<M> {
    pub fn new(r: &Rec<M>) -> Self {
        let mut inputs = vec![None; r.inputs.len()];
        inputs[0] = Some(IM::ONE);
        Any { aux: vec![None; r.aux.len()], inputs }
    }
    pub fn get(&self, v: u32) -> Option<IM<M>> { if v >= INPUT { self.inputs[(v - INPUT) as usize] } else { self.aux[v as usize] } }
    fn set(&mut self, v: u32, x: IM<M>) { if v >= INPUT { self.inputs[(v - INPUT) as usize] = Some(x) } else { self.aux[v as usize] = Some(x) } }
    /// Known part and the unknown variables with their coefficients.
    pub fn split(&self, l: &Lf<M>) -> (IM<M>, Lf<M>) {
        let (mut k, mut u) = (IM::ZERO, vec![]);
        for (v, c) in norm(l) { match self.get(v) { Some(x) => k = k + scale(&c, &x), None => u.push((v, c)) } }
        (k, u)
    }
    /// The known terms with positive and those with negative coefficients, and the unknown terms.
    pub fn split2(&self, l: &Lf<M>) -> (IM<M>, IM<M>, Lf<M>) {
        let (k, u): (Lf<M>, Lf<M>) = norm(l).into_iter().partition(|t| self.get(t.0).is_some());
        let (p, n) = sums(k, |v| self.get(v).unwrap());
        (p, n, u)
    }
    pub fn solve(&mut self, r: &Rec<M>, skip: &[usize]) {
        let mut todo: Vec<usize> = (0..r.cons.len()).filter(|i| !skip.contains(i)).collect();
        loop {
            let n = todo.len();
            let mut rest = vec![];
            for i in todo { if !self.step(&r.cons[i]) { rest.push(i) } }
            todo = rest;
            if todo.is_empty() { return }
            if todo.len() == n { unsupported("a constraint of unknown form") }
        }
    }
    fn bit(&mut self, v: u32, x: IM<M>) {
        check(x.0[0] < 2 && x.0[1] == 0 && x.0[2] == 0 && x.0[3] == 0, "every bit is zero or one in every assignment satisfying the constraints");
        // from here on the value is known to be a bit
        self.set(v, IM([x.0[0] & 1, 0, 0, 0]));
    }
    fn step(&mut self, c: &[Lf<M>; 3]) -> bool {
        let (a, ua) = self.split(&c[0]);
        let (b, ub) = self.split(&c[1]);
        let (k, uk) = self.split(&c[2]);
        if ua.is_empty() && ub.is_empty() && uk.is_empty() { assume(a * b == k); return true }
        if ua.is_empty() && ub.is_empty() && uk.len() == 1 && unit(&uk[0].1) {
            let x = a * b - k;
            self.bit(uk[0].0, if uk[0].1 == IM::ONE { x } else { -x });
            return true;
        }
        if uk.is_empty() && k == IM::ZERO && ua.len() == 1 && ub.len() == 1 && ua[0].0 == ub[0].0 && unit(&ua[0].1) && unit(&ub[0].1) {
            // a product of two factors is zero: either root
            let p = if ua[0].1 == IM::ONE { -a } else { a };
            let q = if ub[0].1 == IM::ONE { -b } else { b };
            let m = 0u64.wrapping_sub(sym(100_000 + ua[0].0, 1) & 1);
            let x = IM([(p.0[0] & m) | (q.0[0] & !m), (p.0[1] & m) | (q.0[1] & !m), (p.0[2] & m) | (q.0[2] & !m), (p.0[3] & m) | (q.0[3] & !m)]);
            self.bit(ua[0].0, x);
            return true;
        }
        false
    }
}
pub fn lt(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut r = false;
    for i in 0..4 { r = (a[i] < b[i]) | ((a[i] == b[i]) & r); }
    r
}
/// An element of the field: any integer below the modulus.
pub fn element<const M: usize>(id: u32) -> IM<M> {
    let nb = <IM<M> as PrimeField>::NUM_BITS;
    let mut w = [0u64; 4];
    for i in 0..4 {
        let left = nb.saturating_sub(64 * i);
        if left > 0 { w[i as usize] = sym(id + i, left.min(64)); }
    }
    assume(lt(&w, &MODULI[M]));
    IM(w)
}
