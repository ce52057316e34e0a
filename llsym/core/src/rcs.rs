//! Constraint system that hands every allocation and constraint to the executor, and evaluates the witness.
use crate::ext;
use crate::int::I;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::Field;
pub struct Rcs {
    pub aux: Vec<I>,
    pub inputs: Vec<I>,
    /// hand constraints to the executor
    pub export: bool,
    /// evaluate the witness in every constraint
    pub eval: bool,
    /// variables allocated from now on are inputs of the statement
    pub as_input: bool,
    /// tolerate absent values (shape only)
    pub absent: bool,
    pub n: usize,
    pub hash: Vec<u64>,
}
fn ix(v: &Variable) -> u32 { match v.get_unchecked() { Index::Input(i) => 1_000_000 + i as u32, Index::Aux(i) => i as u32 } }
/// Kept as a call of its own: the executor joins the paths of the closure at its return.
#[inline(never)]
fn get<F: FnOnce() -> Result<I, SynthesisError>>(f: F) -> Result<I, SynthesisError> { f() }
impl Rcs {
    pub fn new(export: bool, eval: bool) -> Rcs {
        if export { ext::r1cs_reset(); ext::r1cs_var(1_000_000, 1, true); }
        Rcs { aux: Vec::with_capacity(1024), inputs: vec![I::ONE], export, eval, as_input: false, absent: false, n: 0, hash: vec![] }
    }
    fn put(&self, i: u32, v: &I) { if self.export { ext::r1cs_var(i, v.low(), self.as_input); } }
    fn value(&self, l: &LinearCombination<I>) -> I {
        let mut a = I::ZERO;
        for (v, c) in l.as_ref().iter() { let x = match v.get_unchecked() { Index::Input(i) => self.inputs[i], Index::Aux(i) => self.aux[i] }; a += *c * x; }
        a
    }
    pub fn index(v: &Variable) -> u32 { ix(v) }
}
impl ConstraintSystem<I> for Rcs {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<I, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.absent { get(f).unwrap_or(I::ZERO) } else { get(f)? };
        self.put(self.aux.len() as u32, &v);
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<I, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.absent { get(f).unwrap_or(I::ZERO) } else { get(f)? };
        self.put(1_000_000 + self.inputs.len() as u32, &v);
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(LinearCombination<I>) -> LinearCombination<I>,
          LB: FnOnce(LinearCombination<I>) -> LinearCombination<I>, LC: FnOnce(LinearCombination<I>) -> LinearCombination<I> {
        let l = [a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero())];
        self.n += 1;
        if self.eval { ext::check(self.value(&l[0]) * self.value(&l[1]) == self.value(&l[2]), "honest witness satisfies the constraint"); }
        if self.export {
            for k in 0..3 { for (v, q) in l[k].as_ref().iter() { ext::r1cs_term(k as u32, ix(v), &q.to_le()); } }
            ext::r1cs_end();
        }
        if self.absent {
            for k in 0..3 { self.hash.push(u64::MAX - k as u64); for (v, q) in l[k].as_ref().iter() { self.hash.push(ix(v) as u64); for w in q.0 { self.hash.push(w) } } }
        }
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self { self }
}
