//! Circuits with symbolic coefficients and witnesses, the QAP oracle and the Groth16 oracle.
use crate::eng::*;
use crate::gad::*;
use crate::poly::*;
use crate::r1cs::Sys;
use crate::report::Report;
use bellman::{Circuit, ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use rand_core::{CryptoRng, RngCore};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    /// input; 0 is the constant one
    I(usize),
    A(usize),
}
pub type Lc = Vec<(V, F)>;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step {
    In,
    Aux,
    Con,
}
#[derive(Clone, Default)]
pub struct Inst {
    /// without the constant one
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<[Lc; 3]>,
    pub steps: Vec<Step>,
    /// fail instead of performing this step; the closure of an allocation fails if `in_closure`
    pub fail: Option<(usize, bool)>,
    pub no_witness: bool,
}
pub fn steps(i: usize, a: usize, c: usize) -> Vec<Step> {
    let mut s = vec![Step::In; i];
    s.extend(vec![Step::Aux; a]);
    s.extend(vec![Step::Con; c]);
    s
}
impl Circuit<F> for Inst {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let (mut i, mut a, mut c) = (0, 0, 0);
        let mut vi: Vec<Variable> = vec![CS::one()];
        let mut va: Vec<Variable> = vec![];
        for (n, s) in self.steps.iter().enumerate() {
            let mut bad = false;
            if let Some((k, inside)) = self.fail {
                if k == n {
                    if !inside {
                        return Err(SynthesisError::DivisionByZero);
                    }
                    bad = true;
                }
            }
            let get = |v: F| {
                move || {
                    if bad {
                        Err(SynthesisError::DivisionByZero)
                    } else {
                        Ok(v)
                    }
                }
            };
            match s {
                Step::In => {
                    let v = self.inputs[i];
                    let nw = self.no_witness;
                    vi.push(cs.alloc_input(|| format!("in{}", i), || if nw { Err(SynthesisError::AssignmentMissing) } else { get(v)() })?);
                    i += 1;
                }
                Step::Aux => {
                    let v = self.aux[a];
                    let nw = self.no_witness;
                    va.push(cs.alloc(|| format!("aux{}", a), || if nw { Err(SynthesisError::AssignmentMissing) } else { get(v)() })?);
                    a += 1;
                }
                Step::Con => {
                    let mk = |l: &Lc| {
                        let mut r = LinearCombination::zero();
                        for (v, k) in l {
                            let var = match v {
                                V::I(i) => vi[*i],
                                V::A(i) => va[*i],
                            };
                            r = r + (*k, var);
                        }
                        r
                    };
                    let t = &self.cons[c];
                    let (x, y, z) = (mk(&t[0]), mk(&t[1]), mk(&t[2]));
                    let mut ns = cs.namespace(|| format!("ns{}", c));
                    ns.enforce(|| "c", |l| l + &x, |l| l + &y, |l| l + &z);
                    c += 1;
                }
            }
        }
        Ok(())
    }
}
/// The rank-1 system as matrices; rows for the inputs appended (x * 0 = 0).
pub struct Qap {
    pub d: usize,
    pub rows: usize,
    pub ncons: usize,
    pub nin: usize,
    pub naux: usize,
    /// [matrix][row][variable]
    pub m: [Vec<Vec<F>>; 3],
    pub w: Vec<F>,
}
impl Inst {
    pub fn qap(&self) -> Qap {
        let nin = self.inputs.len() + 1;
        let naux = self.aux.len();
        let ncons = self.cons.len();
        let rows = ncons + nin;
        let mut d = 1;
        while d < rows {
            d *= 2;
        }
        let mut m: [Vec<Vec<F>>; 3] = [vec![], vec![], vec![]];
        for c in &self.cons {
            for k in 0..3 {
                let mut row = vec![F::ZERO; nin + naux];
                for (v, co) in &c[k] {
                    let i = match v {
                        V::I(i) => *i,
                        V::A(i) => nin + i,
                    };
                    row[i] = row[i] + *co;
                }
                m[k].push(row);
            }
        }
        for i in 0..nin {
            for k in 0..3 {
                let mut row = vec![F::ZERO; nin + naux];
                if k == 0 {
                    row[i] = F::ONE;
                }
                m[k].push(row);
            }
        }
        let mut w = vec![F::ONE];
        w.extend(self.inputs.iter());
        w.extend(self.aux.iter());
        Qap { d, rows, ncons, nin, naux, m, w }
    }
    /// residual a*b - c of every constraint at the witness
    pub fn residuals(&self) -> Vec<F> {
        let q = self.qap();
        let ev = |row: &Vec<F>| row.iter().zip(&q.w).fold(F::ZERO, |s, (x, y)| s + *x * *y);
        (0..q.ncons).map(|j| ev(&q.m[0][j]) * ev(&q.m[1][j]) - ev(&q.m[2][j])).collect()
    }
}
pub fn omega(d: usize) -> F {
    let mut w = F::ROOT_OF_UNITY;
    let mut n = F::S;
    let mut e = 0;
    while (1usize << e) < d {
        e += 1;
    }
    while n > e {
        w = w * w;
        n -= 1;
    }
    w
}
pub fn powv(x: F, n: usize) -> Vec<F> {
    let mut r = vec![F::ONE];
    for _ in 1..n {
        r.push(*r.last().unwrap() * x);
    }
    r.truncate(n);
    r
}
fn inv_int(n: usize) -> F {
    F::from(n as u64).invert().unwrap()
}
impl Qap {
    pub fn lagrange(&self, tau: F) -> Vec<F> {
        let d = self.d;
        let wi = if d == 1 { F::ONE } else { omega(d).invert().unwrap() };
        let di = inv_int(d);
        let tp = powv(tau, d);
        let wp = powv(wi, d);
        (0..d)
            .map(|j| {
                let mut s = F::ZERO;
                for k in 0..d {
                    s = s + tp[k] * wp[(j * k) % d];
                }
                s * di
            })
            .collect()
    }
    /// u, v, w of every variable at tau
    pub fn at(&self, tau: F) -> [Vec<F>; 3] {
        let l = self.lagrange(tau);
        let mut r: [Vec<F>; 3] = Default::default();
        for k in 0..3 {
            for i in 0..self.nin + self.naux {
                let mut s = F::ZERO;
                for j in 0..self.rows {
                    if self.m[k][j][i].0 != H_ZERO {
                        s = s + self.m[k][j][i] * l[j];
                    }
                }
                r[k].push(s);
            }
        }
        r
    }
    /// is variable i in the query of matrix k (its polynomial is not identically zero)
    pub fn dense(&self, k: usize, i: usize) -> bool {
        (0..self.rows).any(|j| self.m[k][j][i].0 != H_ZERO)
    }
    pub fn evals(&self, k: usize) -> Vec<F> {
        let mut v: Vec<F> = self.m[k].iter().map(|row| row.iter().zip(&self.w).fold(F::ZERO, |s, (x, y)| s + *x * *y)).collect();
        v.resize(self.d, F::ZERO);
        v
    }
    /// coefficients of the interpolation
    pub fn interp(&self, e: &[F]) -> Vec<F> {
        let d = self.d;
        let wi = if d == 1 { F::ONE } else { omega(d).invert().unwrap() };
        let wp = powv(wi, d);
        let di = inv_int(d);
        (0..d).map(|k| (0..d).fold(F::ZERO, |s, j| s + e[j] * wp[(j * k) % d]) * di).collect()
    }
    /// quotient (d - 1 coefficients) and remainder (d coefficients) of A*B - C by Z
    pub fn quotient(&self) -> (Vec<F>, Vec<F>) {
        let d = self.d;
        let a = self.interp(&self.evals(0));
        let b = self.interp(&self.evals(1));
        let c = self.interp(&self.evals(2));
        let mut p = vec![F::ZERO; 2 * d];
        for i in 0..d {
            for j in 0..d {
                p[i + j] = p[i + j] + a[i] * b[j];
            }
        }
        for i in 0..d {
            p[i] = p[i] - c[i];
        }
        let q: Vec<F> = (0..d - 1).map(|k| p[d + k]).collect();
        let r = (0..d).map(|k| if k < d - 1 { p[k] + p[d + k] } else { p[k] }).collect();
        (q, r)
    }
}

/// A randomness source whose outputs are 1, 2, 3, ...; F::random names its symbol after the output.
pub struct SymRng(pub u64);
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for SymRng {}

pub struct Trap {
    pub g1: F,
    pub g2: F,
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub delta: F,
    pub tau: F,
}
pub fn trap() -> Trap {
    Trap {
        g1: F::unit("t_g1"),
        g2: F::unit("t_g2"),
        alpha: F::atom("t_alpha"),
        beta: F::atom("t_beta"),
        gamma: F::unit("t_gamma"),
        delta: F::unit("t_delta"),
        tau: F::atom("t_tau"),
    }
}
pub fn gen(c: Inst, t: &Trap) -> Result<groth16::Parameters<E>, SynthesisError> {
    groth16::generate_parameters::<E, Inst>(c, G::from_dlog(t.g1), G::from_dlog(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau)
}

/// A named family member: builds the instance from the atoms of the current arena.
pub struct Shape {
    pub name: String,
    pub f: Box<dyn Fn() -> Inst>,
}
pub fn shape(name: &str, f: impl Fn() -> Inst + 'static) -> Shape {
    Shape { name: name.into(), f: Box::new(f) }
}
fn k(n: i64) -> F {
    if n < 0 {
        -F::from((-n) as u64)
    } else {
        F::from(n as u64)
    }
}
pub fn at(n: &str) -> F {
    F::atom(n)
}
fn lc_val(l: &Lc, i: &[F], a: &[F]) -> F {
    l.iter().fold(F::ZERO, |s, (v, c)| {
        s + *c
            * match v {
                V::I(0) => F::ONE,
                V::I(j) => i[*j - 1],
                V::A(j) => a[*j],
            }
    })
}
/// Forward computation: every constraint j is A_j * B_j = k_j out_j + C_j with A_j, B_j, C_j over all
/// earlier variables, all coefficients symbolic; residual symbol e_j is added when `err`.
pub fn forward(ni: usize, free: usize, outs: usize, with_c: bool, err: bool) -> Inst {
    let inputs: Vec<F> = (0..ni).map(|i| at(&format!("x{}", i + 1))).collect();
    let mut aux: Vec<F> = (0..free).map(|i| at(&format!("w{}", i))).collect();
    let mut cons = vec![];
    for j in 0..outs {
        let vars: Vec<V> = (0..=ni).map(V::I).chain((0..aux.len()).map(V::A)).collect();
        let l = |t: &str| -> Lc { vars.iter().enumerate().map(|(n, v)| (*v, at(&format!("c{}{}_{}", t, j, n)))).collect() };
        let (a, b) = (l("a"), l("b"));
        let mut c = if with_c { l("c") } else { vec![] };
        let (av, bv, cv) = (lc_val(&a, &inputs, &aux), lc_val(&b, &inputs, &aux), lc_val(&c, &inputs, &aux));
        let kk = F::unit(&format!("k{}", j));
        let mut r = av * bv - cv;
        if err {
            r = r - at(&format!("e{}", j));
        }
        let o = r * kk.invert().unwrap();
        c.push((V::A(aux.len()), kk));
        aux.push(o);
        cons.push([a, b, c]);
    }
    let s = steps(ni, free + outs, outs);
    Inst { inputs, aux, cons, steps: s, ..Default::default() }
}
/// x * w = z with constants, variants of structure that the density bookkeeping distinguishes
fn special(which: usize, err: bool) -> Inst {
    let x = at("x1");
    let w = at("w0");
    let e = |n: &str| if err { at(n) } else { F::ZERO };
    let i = V::I;
    let a = V::A;
    let (inputs, aux, cons): (Vec<F>, Vec<F>, Vec<[Lc; 3]>) = match which {
        // no auxiliary variables, no constraints of its own
        0 => (vec![x], vec![], vec![]),
        // nothing at all
        1 => (vec![], vec![], vec![]),
        // inputs only: x*x = y
        2 => (vec![x, x * x - e("e0")], vec![], vec![[vec![(i(1), k(1))], vec![(i(1), k(1))], vec![(i(2), k(1))]]]),
        // unused input
        3 => (vec![x, at("x2")], vec![x * x - e("e0")], vec![[vec![(i(1), k(1))], vec![(i(1), k(1))], vec![(a(0), k(1))]]]),
        // auxiliary variables in A only, B only, C only
        4 => (vec![x], vec![w, at("w1"), w * at("w1") - e("e0")], vec![[vec![(a(0), k(1))], vec![(a(1), k(1))], vec![(a(2), k(1))]]]),
        // coefficients that cancel in A, B and C
        5 => (
            vec![x],
            vec![w, at("w1"), w * at("w1") - e("e0")],
            vec![[
                vec![(a(0), k(1)), (a(1), k(2)), (i(1), k(1)), (a(1), k(-2)), (i(1), k(-1))],
                vec![(i(1), k(3)), (a(0), k(5)), (a(1), k(1)), (a(0), k(-5)), (i(1), k(-3))],
                vec![(a(2), k(2)), (a(0), k(1)), (a(0), k(-1)), (a(2), k(-1))],
            ]],
        ),
        // explicit zero coefficients
        6 => (
            vec![x],
            vec![w, at("w1"), w * at("w1") - e("e0")],
            vec![[
                vec![(a(0), k(1)), (a(1), k(0)), (i(0), k(0)), (i(1), k(0))],
                vec![(i(1), k(0)), (i(0), k(0)), (a(0), k(0)), (a(1), k(1))],
                vec![(a(2), k(1)), (a(0), k(0)), (a(1), k(0))],
            ]],
        ),
        // only the constant one in B, repeated variables, empty C
        7 => (
            vec![x],
            vec![w, w + w + w - e("e0")],
            vec![[vec![(a(0), k(1)), (a(0), k(2)), (a(1), k(-1))], vec![(i(0), k(1))], vec![]]],
        ),
        // same variable in A, B and C: w boolean
        8 => (
            vec![],
            vec![at("w0")],
            vec![[vec![(a(0), k(1))], vec![(i(0), k(1)), (a(0), k(-1))], vec![]], [vec![(a(0), k(1))], vec![(a(0), k(1))], vec![(a(0), k(1))]]],
        ),
        // a cancelling pair whose variable is otherwise used only in C
        9 => (
            vec![x],
            vec![w, w * x - e("e0")],
            vec![[vec![(a(0), k(1)), (a(1), k(1)), (a(1), k(-1))], vec![(i(1), k(1)), (a(1), k(7)), (a(1), k(-7))], vec![(a(1), k(1))]]],
        ),
        // five constraints: domain of eight; twelve: domain of sixteen (chunks that do not divide it)
        _ => {
            let rows = if which == 10 { 5usize } else { 12 };
            let mut aux = vec![w];
            let mut cons = vec![];
            for j in 0..rows {
                let prev = *aux.last().unwrap();
                let v = prev * (prev + x) - e(&format!("e{}", j.min(1)));
                cons.push([vec![(a(j), k(1))], vec![(a(j), k(1)), (i(1), k(1))], vec![(a(j + 1), k(1))]]);
                aux.push(if j < 2 { v } else { F::ZERO });
                if j >= 2 {
                    // keep the degree low: later rows are linear in fresh variables
                    let w2 = at(&format!("w{}", j));
                    let n = aux.len() - 1;
                    aux[n] = w2;
                    cons[j] = [vec![(a(j + 1), k(1))], vec![(i(0), k(2))], vec![(a(j + 1), k(1)), (a(j + 1), k(1))]];
                }
            }
            (vec![x], aux, cons)
        }
    };
    let s = steps(inputs.len(), aux.len(), cons.len());
    Inst { inputs, aux, cons, steps: s, ..Default::default() }
}
pub const SPECIALS: usize = 12;
/// Structured incidence: in which of A, B, C (bit mask) each variable occurs, one constraint row per
/// matrix entry, coefficients symbolic; witness values arbitrary (not satisfying).
pub fn incidence(ni: usize, masks: &[u8], rows: usize) -> Inst {
    let naux = masks.len() - ni - 1;
    let inputs: Vec<F> = (0..ni).map(|i| at(&format!("x{}", i + 1))).collect();
    let aux: Vec<F> = (0..naux).map(|i| at(&format!("w{}", i))).collect();
    let mut cons = vec![];
    for j in 0..rows {
        let mut c: [Lc; 3] = Default::default();
        for (n, m) in masks.iter().enumerate() {
            let v = if n <= ni { V::I(n) } else { V::A(n - ni - 1) };
            for t in 0..3 {
                if (m >> t) & 1 == 1 {
                    c[t].push((v, at(&format!("c{}{}_{}", ["a", "b", "c"][t], j, n))));
                }
            }
        }
        cons.push(c);
    }
    let s = steps(ni, naux, rows);
    Inst { inputs, aux, cons, steps: s, ..Default::default() }
}
/// Circuits with a witness that satisfies them (up to residual symbols when `err`).
pub fn satisfied(err: bool) -> Vec<Shape> {
    let mut v = vec![];
    for (ni, free, outs, c) in [(0, 1, 1, false), (1, 0, 1, true), (1, 1, 1, true), (1, 1, 2, false), (2, 1, 1, true)] {
        v.push(shape(&format!("forward inputs={} free={} constraints={} dense-c={}", ni, free, outs, c), move || forward(ni, free, outs, c, err)));
    }
    for w in 0..SPECIALS {
        if w == 8 {
            continue;
        }
        v.push(shape(&format!("special {}", w), move || special(w, err)));
    }
    // interleaved allocation order
    v.push(shape("interleaved", move || {
        let mut c = special(3, err);
        c.steps = vec![Step::Aux, Step::In, Step::In, Step::Con];
        c
    }));
    v.push(shape("constraints before inputs", move || {
        let mut c = special(4, err);
        c.steps = vec![Step::Aux, Step::Aux, Step::Aux, Step::Con, Step::In];
        c
    }));
    v
}
/// Region exploration up to a depth, over the decided polynomials in circuit symbols only.
pub fn explore_d(rep: &mut Report, what: &str, depth: usize, mut f: impl FnMut(&mut Report, &BTreeMap<String, Poly>)) {
    let mut work: Vec<(BTreeMap<String, Poly>, usize)> = vec![(BTreeMap::new(), 0)];
    let mut done: std::collections::BTreeSet<Vec<(String, Vec<(Mono, crate::big::U256)>)>> = Default::default();
    let mut skipped = 0u64;
    crate::report::now(what);
    while let Some((sub, dep)) = work.pop() {
        let key: Vec<_> = sub.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        if !done.insert(key) {
            continue;
        }
        crate::field::init_cfg::<crate::field::BlsT>();
        arena().subst = sub.clone();
        rep.paths += 1;
        f(rep, &sub);
        if dep >= depth {
            continue;
        }
        let a = arena();
        for q in a.asked.clone() {
            let p = a.get(q).clone();
            let circuit = p.0.iter().all(|(m, _)| m.iter().all(|t| a.atoms[t.0 as usize].name.starts_with(['c', 'w', 'x', 'e', 'k'])));
            if !circuit {
                continue;
            }
            let mut new: Vec<(u32, Poly)> = vec![];
            if p.0.len() == 1 {
                for (x, _) in &p.0[0].0 {
                    if a.atoms[*x as usize].kind != Kind::Unit {
                        new.push((*x, Poly(vec![])));
                    }
                }
            } else if let Some((x, r)) = solve_linear(&a, &p) {
                new.push((x, r));
            } else {
                skipped += 1;
            }
            for (x, r) in new {
                if sub.values().any(|v| v.0.iter().any(|(m, _)| m.iter().any(|t| t.0 == x && t.1 != 1))) {
                    skipped += 1;
                    continue;
                }
                let mut s2 = sub.clone();
                for v in s2.values_mut() {
                    *v = subst_poly(&a, v, x, &r);
                }
                s2.insert(a.atoms[x as usize].name.clone(), r);
                work.push((s2, dep + 1));
            }
        }
    }
    let _ = (what, skipped);
}
/// All differences must be the zero polynomial (generic region).
pub fn same(rep: &mut Report, label: &str, sub: &BTreeMap<String, Poly>, diffs: Vec<(String, F, F)>, rerun: &dyn Fn() -> Result<Vec<(String, F, F)>, String>) {
    let gs: Vec<G2> = diffs.iter().map(|(_, x, y)| G2::Zero((*x - *y).0)).collect();
    let bad: Vec<String> = diffs.iter().filter(|(_, x, y)| (*x - *y).0 != H_ZERO).map(|(n, x, y)| format!("{}: is {} expected {}", n, cut(&x.show()), cut(&y.show()))).collect();
    let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
    let sys = if bad.is_empty() { Sys { hyp: vec![], ..sys } } else { sys };
    let sub = sub.clone();
    decide(rep, label, &sys, &G2::All(gs), &|m| {
        // run again with every symbol replaced by its value in the counterexample
        let names: Vec<String> = arena().atoms.iter().map(|a| a.name.clone()).collect();
        let mut s: BTreeMap<String, Poly> = BTreeMap::new();
        {
            let a = arena();
            for n in names {
                let mut v = *m.get(&n).unwrap_or(&[0; 4]);
                if let Some(p) = sub.get(&n) {
                    let mut r = [0u64; 4];
                    for (mo, c) in &p.0 {
                        let mut t = *c;
                        for (x, e) in mo {
                            let xv = a.m.to(m.get(&a.atoms[*x as usize].name).unwrap_or(&[0; 4]));
                            let xv = if *e < 0 { a.m.inv(&xv) } else { xv };
                            for _ in 0..e.abs() {
                                t = a.m.mul(&t, &xv);
                            }
                        }
                        r = a.m.add(&r, &t);
                    }
                    v = a.m.from(&r);
                }
                let c = a.m.to(&v);
                s.insert(n, Poly(if crate::big::is_zero(&c) { vec![] } else { vec![(vec![], c)] }));
            }
        }
        crate::field::init_cfg::<crate::field::BlsT>();
        arena().subst = s;
        let d = rerun()?;
        let w: Vec<String> = d.iter().filter(|(_, x, y)| x.0 != y.0).map(|(n, x, y)| format!("{}: got {}, expected {}", n, x.show(), y.show())).collect();
        if w.is_empty() {
            Err("the concrete run agrees with the specification".into())
        } else {
            Ok(format!("{}\nconcrete run of the real code at {}\n{}\nsymbolic: {}", label, show_model(m), w.join("\n"), bad.join("\n")))
        }
    });
}
pub type G2 = crate::r1cs::G;
pub fn cut(s: &str) -> String {
    if s.len() > 300 {
        format!("{}...", &s[..300])
    } else {
        s.into()
    }
}
pub fn show_sub(sub: &BTreeMap<String, Poly>) -> String {
    let a = arena();
    sub.iter().map(|(k, v)| format!("{}={}", k, a.show_poly(v))).collect::<Vec<_>>().join(",")
}
/// Run real code, turning a panic into an error string.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}
