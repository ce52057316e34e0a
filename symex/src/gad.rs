//! Shared machinery for gadget properties: one circuit description run with the symbolic field
//! (to extract constraints and symbolic witnesses) and with the real BLS12-381 scalars (to replay).
use crate::big::*;
use crate::field::*;
use crate::poly::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::num::AllocatedNum;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use bls12_381::Scalar;
use ff::{PrimeField, PrimeFieldBits};
use std::collections::BTreeMap;

pub trait Src<S> {
    fn bit(&self, n: &str) -> Option<bool>;
    fn num(&self, n: &str) -> Option<S>;
    fn coef(&self, n: &str) -> S;
}
pub struct Env<'a, S> {
    pub src: &'a dyn Src<S>,
    pub vars: BTreeMap<String, Variable>,
}
impl<'a, S: PrimeField> Env<'a, S> {
    pub fn bit(&self, n: &str) -> Option<bool> {
        self.src.bit(n)
    }
    pub fn num(&self, n: &str) -> Option<S> {
        self.src.num(n)
    }
    pub fn coef(&self, n: &str) -> S {
        self.src.coef(n)
    }
    pub fn abit<CS: ConstraintSystem<S>>(&mut self, cs: &mut CS, n: &str) -> Result<AllocatedBit, SynthesisError> {
        let b = AllocatedBit::alloc(cs.namespace(|| n.to_string()), self.bit(n))?;
        self.vars.insert(n.into(), b.get_variable());
        Ok(b)
    }
    pub fn anum<CS: ConstraintSystem<S>>(&mut self, cs: &mut CS, n: &str) -> Result<AllocatedNum<S>, SynthesisError> {
        let v = self.num(n);
        let b = AllocatedNum::alloc(cs.namespace(|| n.to_string()), || v.ok_or(SynthesisError::AssignmentMissing))?;
        self.vars.insert(n.into(), b.get_variable());
        Ok(b)
    }
    /// kinds: 0 allocated, 1 negated, 2 constant false, 3 constant true
    pub fn operand<CS: ConstraintSystem<S>>(&mut self, cs: &mut CS, n: &str, kind: u8) -> Result<Boolean, SynthesisError> {
        Ok(match kind {
            0 => Boolean::Is(self.abit(cs, n)?),
            1 => Boolean::Not(self.abit(cs, n)?),
            k => Boolean::Constant(k == 3),
        })
    }
}
pub enum Out<S: PrimeField> {
    Bit(Boolean),
    Num(Variable, Option<S>),
    Lc(LinearCombination<S>, Option<S>),
}
impl<S: PrimeField> From<AllocatedBit> for Out<S> {
    fn from(b: AllocatedBit) -> Self {
        Out::Bit(Boolean::Is(b))
    }
}
impl<S: PrimeField> Out<S> {
    pub fn bit_value(&self) -> Option<bool> {
        match self {
            Out::Bit(b) => b.get_value(),
            _ => None,
        }
    }
}
pub trait Circ {
    fn name(&self) -> String;
    fn build<S: PrimeFieldBits, CS: ConstraintSystem<S>>(&self, cs: &mut CS, env: &mut Env<S>) -> Result<Vec<Out<S>>, SynthesisError>;
}

/// No witness; coefficients symbolic.
pub struct NoWit;
impl<C: Cfg> Src<SymF<C>> for NoWit {
    fn bit(&self, _: &str) -> Option<bool> {
        None
    }
    fn num(&self, _: &str) -> Option<SymF<C>> {
        None
    }
    fn coef(&self, n: &str) -> SymF<C> {
        SymF::atom(&format!("k_{}", n))
    }
}
/// Bits of the path, numbers symbolic.
pub struct PathWit {
    pub bits: BTreeMap<String, bool>,
}
impl<C: Cfg> Src<SymF<C>> for PathWit {
    fn bit(&self, n: &str) -> Option<bool> {
        Some(*self.bits.get(n).unwrap_or(&false))
    }
    fn num(&self, n: &str) -> Option<SymF<C>> {
        Some(SymF::atom(&format!("w_{}", n)))
    }
    fn coef(&self, n: &str) -> SymF<C> {
        SymF::atom(&format!("k_{}", n))
    }
}
/// Real scalars from a model; no witness evaluation.
pub struct ModelSrc<'m> {
    pub m: &'m BTreeMap<String, U256>,
    pub bits: Option<BTreeMap<String, bool>>,
}
pub fn scalar(v: &U256) -> Scalar {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&v[i].to_le_bytes());
    }
    Option::from(Scalar::from_repr(b)).expect("canonical")
}
pub fn scalar_dec(s: &Scalar) -> String {
    let b = s.to_repr();
    let mut v = [0u64; 4];
    for i in 0..4 {
        v[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    dec(&v)
}
impl<'m> Src<Scalar> for ModelSrc<'m> {
    fn bit(&self, n: &str) -> Option<bool> {
        self.bits.as_ref().map(|b| *b.get(n).unwrap_or(&false))
    }
    fn num(&self, n: &str) -> Option<Scalar> {
        self.bits.as_ref()?;
        Some(scalar(self.m.get(&format!("w_{}", n)).unwrap_or(&[0; 4])))
    }
    fn coef(&self, n: &str) -> Scalar {
        scalar(self.m.get(&format!("k_{}", n)).unwrap_or(&[0; 4]))
    }
}

/// The polynomial of an output given the R1CS variables.
pub fn out_poly<C: Cfg>(o: &Out<SymF<C>>) -> SymF<C> {
    use ff::Field;
    match o {
        Out::Bit(Boolean::Is(b)) => var_poly(b.get_variable()),
        Out::Bit(Boolean::Not(b)) => SymF::ONE - var_poly::<C>(b.get_variable()),
        Out::Bit(Boolean::Constant(c)) => SymF::from(*c as u64),
        Out::Num(v, _) => var_poly(*v),
        Out::Lc(l, _) => lc_poly(l.as_ref()),
    }
}
pub struct View<'r, C: Cfg> {
    pub vars: &'r BTreeMap<String, Variable>,
    pub outs: &'r [Out<SymF<C>>],
}
impl<'r, C: Cfg> View<'r, C> {
    /// boolean spec variable for an allocated input bit
    pub fn b(&self, n: &str) -> B {
        let v = self.vars[n];
        let name = var_name(v);
        arena().atom(&name, Kind::Any);
        let id = arena().atom_id(&name).unwrap();
        B::V(id)
    }
    pub fn kb(&self, n: &str, kind: u8) -> B {
        match kind {
            0 => self.b(n),
            1 => self.b(n).not(),
            k => B::C(k == 3),
        }
    }
    pub fn v(&self, n: &str) -> SymF<C> {
        var_poly(self.vars[n])
    }
    pub fn k(&self, n: &str) -> SymF<C> {
        SymF::atom(&format!("k_{}", n))
    }
    pub fn o(&self, i: usize) -> SymF<C> {
        out_poly(&self.outs[i])
    }
}

/// In every assignment satisfying the emitted constraints the goals hold.
pub fn soundness<C: Cfg, K: Circ>(rep: &mut Report, k: &K, goals: impl FnOnce(&View<C>) -> Vec<(String, G)>) {
    init_cfg::<C>();
    crate::report::now(&k.name());
    let mut cs = Rec::<SymF<C>>::new(false);
    let mut env = Env { src: &NoWit, vars: BTreeMap::new() };
    let outs = match k.build(&mut cs, &mut env) {
        Ok(o) => o,
        Err(e) => {
            let d = format!("{}: synthesis without witness fails: {:?}", k.name(), e);
            rep.violation(&k.name(), &d, &d);
            return;
        }
    };
    let gs = goals(&View { vars: &env.vars, outs: &outs });
    let mut sys = Sys::from_rec(&cs);
    sys.infer_bools();
    sys.eliminate();
    for (l, g) in gs {
        decide(rep, &format!("{} {}", k.name(), l), &sys, &g, &|m| replay_assignment(k, m));
    }
}
/// Solve one obligation; confirm a counterexample before reporting it.
pub fn decide(rep: &mut Report, label: &str, sys: &Sys, g: &G, replay: &dyn Fn(&BTreeMap<String, U256>) -> Result<String, String>) {
    if std::env::var("SYMEX_TRACE").is_ok() {
        eprintln!("query {}", label);
    }
    match sys.check_prepared(label, g) {
        Outcome::Holds => rep.ok(),
        Outcome::Unknown(w) => match random_cex(sys, g) {
            Some(m) => confirm(rep, label, &m, replay),
            None => rep.error(&format!("no verdict: {}", w)),
        },
        Outcome::Fails(m) => {
            let bad = eval_goal(g, &m) || sys.hyp.iter().any(|h| !eval_goal(h, &m));
            match if bad { random_cex(sys, g) } else { Some(m.clone()) } {
                Some(m) => confirm(rep, label, &m, replay),
                None => rep.error(&format!("{}: spurious counterexample {}", label, show_model(&m))),
            }
        }
    }
}
/// The solver treats products as opaque; when its model is not a real one, look for a point at which
/// the (constraint-free) claim fails.
fn random_cex(sys: &Sys, g: &G) -> Option<BTreeMap<String, U256>> {
    if !sys.cons.is_empty() {
        return None;
    }
    let names: Vec<(String, Kind)> = arena().atoms.iter().map(|a| (a.name.clone(), a.kind)).collect();
    let mut s = 0x9e3779b97f4a7c15u64;
    let mut rnd = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    for _ in 0..60 {
        let m: BTreeMap<String, U256> = names
            .iter()
            .map(|(n, k)| {
                let v = match k {
                    Kind::Bit => rnd() & 1,
                    _ => 1 + (rnd() >> 40),
                };
                (n.clone(), [v, 0, 0, 0])
            })
            .collect();
        if !eval_goal(g, &m) && sys.hyp.iter().all(|h| eval_goal(h, &m)) {
            return Some(m);
        }
    }
    None
}
fn confirm(rep: &mut Report, label: &str, m: &BTreeMap<String, U256>, replay: &dyn Fn(&BTreeMap<String, U256>) -> Result<String, String>) {
    rep.replays += 1;
    match replay(m) {
        Ok(r) => rep.violation(label, &format!("{}: the claim is false at {}", label, show_model(m)), &r),
        Err(e) => rep.error(&format!("{}: counterexample does not reproduce: {}", label, e)),
    }
}
pub fn show_model(m: &BTreeMap<String, U256>) -> String {
    let v: Vec<String> = m.iter().filter(|(_, v)| !is_zero(v)).take(40).map(|(k, v)| format!("{}={}", k, dec(v))).collect();
    format!("{{{}}} (others 0)", v.join(" "))
}
/// Build the circuit with the real scalar field and evaluate every constraint at the assignment.
pub fn replay_assignment<K: Circ>(k: &K, m: &BTreeMap<String, U256>) -> Result<String, String> {
    let mut cs = Rec::<Scalar>::new(false);
    let src = ModelSrc { m, bits: None };
    let mut env = Env { src: &src, vars: BTreeMap::new() };
    k.build(&mut cs, &mut env).map_err(|e| format!("{:?}", e))?;
    for i in 1..cs.inputs.len() {
        cs.inputs[i] = Some(scalar(m.get(&format!("i{}", i)).unwrap_or(&[0; 4])));
    }
    for i in 0..cs.aux.len() {
        cs.aux[i] = Some(scalar(m.get(&format!("a{}", i)).unwrap_or(&[0; 4])));
    }
    let v = cs.violated();
    if !v.is_empty() {
        return Err(format!("real scalar field: constraint {} is not satisfied", v[0]));
    }
    Ok(format!("{}\nwith the real BLS12-381 scalar field all {} constraints hold for assignment {}", k.name(), cs.cons.len(), show_model(m)))
}

/// Run `f` once per region of the input space: generically (every decided polynomial non-zero) and
/// again under the assumption that the i-th decided polynomial is zero, recursively.
pub fn explore<C: Cfg>(rep: &mut Report, what: &str, mut f: impl FnMut(&mut Report, &BTreeMap<String, Poly>)) {
    let mut work: Vec<BTreeMap<String, Poly>> = vec![BTreeMap::new()];
    let mut done: std::collections::BTreeSet<Vec<(String, Vec<(Mono, U256)>)>> = Default::default();
    let mut runs = 0;
    crate::report::now(what);
    while let Some(sub) = work.pop() {
        let key: Vec<_> = sub.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        if !done.insert(key) {
            continue;
        }
        runs += 1;
        if runs > 400 {
            rep.error(&format!("{}: more than 400 branch regions", what));
            return;
        }
        init_cfg::<C>();
        arena().subst = sub.clone();
        f(rep, &sub);
        let a = arena();
        for q in a.asked.clone() {
            let p = a.get(q).clone();
            let mut new: Vec<(u32, Poly)> = vec![];
            if p.0.len() == 1 {
                // a product is zero iff a factor is
                for (x, _) in &p.0[0].0 {
                    if a.atoms[*x as usize].kind != Kind::Unit {
                        new.push((*x, Poly(vec![])));
                    }
                }
            } else if let Some((x, r)) = solve_linear(&a, &p) {
                new.push((x, r));
            } else if let Some(bits) = all_bits(&a, &p) {
                // at least one of the bits is set or clear: split on the first one
                for v in [Poly(vec![]), Poly(vec![(vec![], a.m.one)])] {
                    new.push((bits[0], v));
                }
            } else {
                drop(a);
                rep.error(&format!("{}: cannot follow the branch where {} is zero", what, arena().show_poly(&p)));
                return;
            }
            for (x, r) in new {
                let mut s2 = sub.clone();
                // keep earlier substitutions fully reduced
                for v in s2.values_mut() {
                    *v = subst_poly(&a, v, x, &r);
                }
                s2.insert(a.atoms[x as usize].name.clone(), r);
                work.push(s2);
            }
        }
    }
}
pub fn subst_poly(a: &Arena, p: &Poly, x: u32, r: &Poly) -> Poly {
    // p is affine in x for the substitutions generated here
    let mut acc: BTreeMap<Mono, U256> = BTreeMap::new();
    let mut add = |m: Mono, c: U256| {
        let e = acc.entry(m).or_insert([0; 4]);
        *e = a.m.add(e, &c);
    };
    for (m, c) in &p.0 {
        match m.iter().position(|t| t.0 == x) {
            None => add(m.clone(), *c),
            Some(i) => {
                assert!(m[i].1 == 1, "SYMEX: non-linear substitution");
                let mut rest = m.clone();
                rest.remove(i);
                for (m2, c2) in &r.0 {
                    let mut mm: BTreeMap<u32, i32> = rest.iter().cloned().collect();
                    for (v, e) in m2 {
                        *mm.entry(*v).or_insert(0) += e;
                    }
                    add(mm.into_iter().filter(|t| t.1 != 0).collect(), a.m.mul(c, c2));
                }
            }
        }
    }
    Poly(acc.into_iter().filter(|(_, c)| !is_zero(c)).collect())
}
fn all_bits(a: &Arena, p: &Poly) -> Option<Vec<u32>> {
    let v: Vec<u32> = p.0.iter().flat_map(|(m, _)| m.iter().map(|t| t.0)).collect();
    if !v.is_empty() && v.iter().all(|x| a.atoms[*x as usize].kind == Kind::Bit) {
        Some(v)
    } else {
        None
    }
}
/// `p = c*m*x + rest` with x an unrestricted atom not in rest, c constant and m a unit monomial.
pub fn solve_linear(a: &Arena, p: &Poly) -> Option<(u32, Poly)> {
    let vars: Vec<u32> = p.0.iter().flat_map(|(m, _)| m.iter().map(|t| t.0)).collect();
    for x in vars.into_iter().rev() {
        if a.atoms[x as usize].kind != Kind::Any {
            continue;
        }
        let occ: Vec<_> = p.0.iter().filter(|(m, _)| m.iter().any(|t| t.0 == x)).collect();
        if occ.len() != 1 {
            continue;
        }
        let (m, c) = occ[0];
        if !m.iter().all(|t| (t.0 == x && t.1 == 1) || a.atoms[t.0 as usize].kind == Kind::Unit) {
            continue;
        }
        let ci = a.m.neg(&a.m.inv(c));
        let mut acc: Vec<(Mono, U256)> = vec![];
        for (m2, c2) in &p.0 {
            if m2 == m {
                continue;
            }
            let mut mm: BTreeMap<u32, i32> = m2.iter().cloned().collect();
            for (v, e) in m {
                if *v != x {
                    *mm.entry(*v).or_insert(0) -= e;
                }
            }
            acc.push((mm.into_iter().filter(|t| t.1 != 0).collect(), a.m.mul(c2, &ci)));
        }
        acc.sort();
        return Some((x, Poly(acc)));
    }
    None
}
/// hypotheses of the current region: every decided polynomial is non-zero
pub fn region_hyp() -> Vec<G> {
    arena().asked.clone().into_iter().map(|q| G::Not(Box::new(G::Zero(q)))).collect()
}

/// The model extended to the symbols that the region replaces by polynomials in the others.
pub fn close_model(m: &BTreeMap<String, U256>, sub: &BTreeMap<String, Poly>) -> BTreeMap<String, U256> {
    let a = arena();
    let mut r = m.clone();
    for (n, p) in sub {
        let mut s = [0u64; 4];
        for (mo, c) in &p.0 {
            let mut t = *c;
            for (x, e) in mo {
                let xv = a.m.to(m.get(&a.atoms[*x as usize].name).unwrap_or(&[0; 4]));
                let xv = if *e < 0 { a.m.inv(&xv) } else { xv };
                for _ in 0..e.abs() {
                    t = a.m.mul(&t, &xv);
                }
            }
            s = a.m.add(&s, &t);
        }
        r.insert(n.clone(), a.m.from(&s));
    }
    r
}

/// Honest witnesses: for every value of the named bits (one path each) and all symbolic numbers, the
/// constraints hold and `values` (claims about witness values) hold.
pub fn completeness<C: Cfg, K: Circ>(
    rep: &mut Report,
    k: &K,
    bits: &[&str],
    expect: impl Fn(&BTreeMap<String, bool>, &[Out<SymF<C>>], &Rec<SymF<C>>) -> Vec<(String, bool, Option<SymF<C>>)>,
) {
    for mask in 0..(1u64 << bits.len()) {
        let b: BTreeMap<String, bool> = bits.iter().enumerate().map(|(i, n)| (n.to_string(), (mask >> i) & 1 == 1)).collect();
        explore::<C>(rep, &k.name(), |rep, sub| honest_run::<C, K>(rep, k, &b, sub, &expect));
    }
}
fn honest_run<C: Cfg, K: Circ>(
    rep: &mut Report,
    k: &K,
    b: &BTreeMap<String, bool>,
    sub: &BTreeMap<String, Poly>,
    expect: &impl Fn(&BTreeMap<String, bool>, &[Out<SymF<C>>], &Rec<SymF<C>>) -> Vec<(String, bool, Option<SymF<C>>)>,
) {
    let src = PathWit { bits: b.clone() };
    let mut cs = Rec::<SymF<C>>::new(true);
    let mut env = Env { src: &src, vars: BTreeMap::new() };
    rep.paths += 1;
    let outs = match k.build(&mut cs, &mut env) {
        Ok(o) => o,
        Err(e) => {
            let d = format!("{}: honest synthesis fails with {:?} for {:?}", k.name(), e, b);
            rep.violation(&k.name(), &d, &d);
            return;
        }
    };
    let mut gs = vec![];
    for c in &cs.cons {
        let x = cs.eval_lc(&c[0]).unwrap() * cs.eval_lc(&c[1]).unwrap() - cs.eval_lc(&c[2]).unwrap();
        gs.push(G::Zero(x.0));
    }
    for (l, ok, z) in expect(b, &outs, &cs) {
        rep.require(ok, &format!("{} {}", k.name(), l), || format!("{}: {} fails on honest witness {:?}", k.name(), l, b));
        if let Some(z) = z {
            gs.push(G::Zero(z.0));
        }
    }
    let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
    let g = G::All(gs);
    decide(rep, &format!("{} honest {:?}", k.name(), b.values().collect::<Vec<_>>()), &sys, &g, &|m| {
        // replay with the real field and the concrete numbers
        let m = &close_model(m, sub);
        let src = ModelSrc { m, bits: Some(b.clone()) };
        let mut cs = Rec::<Scalar>::new(true);
        let mut env = Env { src: &src, vars: BTreeMap::new() };
        k.build(&mut cs, &mut env).map_err(|e| format!("{:?}", e))?;
        let v = cs.violated();
        if v.is_empty() {
            Ok(format!("{}: honest witness value differs from the specification for {:?} {}", k.name(), b, show_model(m)))
        } else {
            Ok(format!("{}: honest witness violates constraint {} for {:?} {}", k.name(), v[0], b, show_model(m)))
        }
    });
}
/// A satisfying assignment exists (guards against vacuous soundness).
pub fn satisfiable<C: Cfg, K: Circ>(rep: &mut Report, k: &K) {
    init_cfg::<C>();
    let mut cs = Rec::<SymF<C>>::new(false);
    let mut env = Env { src: &NoWit, vars: BTreeMap::new() };
    if k.build(&mut cs, &mut env).is_err() {
        return;
    }
    let mut sys = Sys::from_rec(&cs);
    sys.infer_bools();
    sys.eliminate();
    match sys.check_prepared(&format!("{} witness", k.name()), &G::Bool(B::C(false))) {
        Outcome::Fails(_) => {
            rep.witnesses += 1;
            rep.ok()
        }
        Outcome::Holds => rep.violation(&k.name(), &format!("{}: constraints are unsatisfiable", k.name()), "no assignment satisfies the constraints"),
        Outcome::Unknown(w) => rep.error(&w),
    }
}
