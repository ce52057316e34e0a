//! C21-C26, C29: Groth16 generator, prover, verifier, batch verifier.
use crate::eng::*;
use crate::gad::*;
use crate::groth::*;
use crate::poly::*;
use crate::r1cs::Sys;
use crate::report::Report;
use bellman::{SynthesisError, VerificationError};
use ff::Field;
use groth16::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Diff = Vec<(String, F, F)>;
fn n(x: usize) -> F {
    F::from(x as u64)
}
fn threads(rep: &mut Report) {
    let t = rayon::current_num_threads();
    rep.bound(&format!("worker pool of {} threads", t));
}
/// Run `f` (fresh arena, substitution active); report panics of the real code; compare.
fn judge(rep: &mut Report, label: &str, sub: &BTreeMap<String, Poly>, f: &dyn Fn() -> Result<Diff, String>) {
    crate::report::now(label);
    let run = || match guarded(|| f()) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    match run() {
        Ok(d) => same(rep, label, sub, d, &run),
        Err(e) if e.contains("SYMEX") => rep.error(&format!("{}: {}", label, e)),
        Err(e) => {
            let t = format!("{}: {} [{}]", label, e, show_sub(sub));
            rep.violation(label, &t, &t)
        }
    }
}
fn generic(rep: &mut Report) {
    rep.assume("trapdoors, generators and blinding scalars are generic: polynomials in them that the code compares with zero are taken as non-zero (the excluded set has density at most degree/2^255); special values are run explicitly where stated");
    rep.assume("group elements are represented by their discrete logarithms; the pairing is multiplication of logarithms, the scalar field has the BLS12-381 modulus and two-adicity");
    rep.assume("a symbolic scalar hands out its bits as the integer 2^(32 t) in its own slot t, so multi-exponentiation and wNAF are checked for being the exact integer-linear map of the bits");
}
fn err_name(e: &SynthesisError) -> String {
    match e {
        SynthesisError::IoError(e) => format!("IoError({:?})", e.kind()),
        e => format!("{:?}", e),
    }
}

/// prescribed CRS
fn crs_diff(c: &Inst, t: &Trap, p: &Parameters<E>) -> Diff {
    let q = c.qap();
    let [u, v, w] = q.at(t.tau);
    let gi = t.gamma.invert().unwrap();
    let di = t.delta.invert().unwrap();
    let mut d: Diff = vec![];
    let vk = &p.vk;
    d.push(("alpha_g1".into(), vk.alpha_g1.dlog(), t.g1 * t.alpha));
    d.push(("beta_g1".into(), vk.beta_g1.dlog(), t.g1 * t.beta));
    d.push(("beta_g2".into(), vk.beta_g2.dlog(), t.g2 * t.beta));
    d.push(("gamma_g2".into(), vk.gamma_g2.dlog(), t.g2 * t.gamma));
    d.push(("delta_g1".into(), vk.delta_g1.dlog(), t.g1 * t.delta));
    d.push(("delta_g2".into(), vk.delta_g2.dlog(), t.g2 * t.delta));
    let mut list = |name: &str, got: Vec<F>, want: Vec<F>| {
        d.push((format!("{} length", name), n(got.len()), n(want.len())));
        for (i, (g, w)) in got.into_iter().zip(want).enumerate() {
            d.push((format!("{}[{}]", name, i), g, w));
        }
    };
    let ext = |i: usize| (t.beta * u[i] + t.alpha * v[i] + w[i]) * t.g1;
    list("ic", vk.ic.iter().map(|x| x.dlog()).collect(), (0..q.nin).map(|i| ext(i) * gi).collect());
    list("l", p.l.iter().map(|x| x.dlog()).collect(), (q.nin..q.nin + q.naux).map(|i| ext(i) * di).collect());
    let tp = powv(t.tau, q.d + 1);
    let z = (tp[q.d] - F::ONE) * di * t.g1;
    list("h", p.h.iter().map(|x| x.dlog()).collect(), (0..q.d - 1).map(|k| tp[k] * z).collect());
    let nz = |s: &Vec<F>, g: F| -> Vec<F> { s.iter().map(|x| *x * g).filter(|x| x.0 != H_ZERO).collect() };
    list("a", p.a.iter().map(|x| x.dlog()).collect(), nz(&u, t.g1));
    list("b_g1", p.b_g1.iter().map(|x| x.dlog()).collect(), nz(&v, t.g1));
    list("b_g2", p.b_g2.iter().map(|x| x.dlog()).collect(), nz(&v, t.g2));
    d
}
fn gen_case(c: Inst, t: &Trap) -> Result<Diff, String> {
    let q = c.qap();
    let mut gc = c.clone();
    gc.no_witness = true;
    let [u, v, w] = q.at(t.tau);
    // an auxiliary variable none of whose polynomials is non-zero at tau
    let un = (q.nin..q.nin + q.naux).any(|i| (t.beta * u[i] + t.alpha * v[i] + w[i]).0 == H_ZERO);
    match gen(gc, t) {
        Ok(p) => {
            if un {
                return Err("parameters were generated although an auxiliary variable is unconstrained".into());
            }
            Ok(crs_diff(&c, t, &p))
        }
        Err(SynthesisError::UnconstrainedVariable) if un => Ok(vec![("rejected".into(), F::ONE, F::ONE)]),
        Err(e) => Err(format!("generation fails with {:?}", e)),
    }
}
pub fn run21(rep: &mut Report) {
    rep.func("groth16::generate_parameters, KeypairAssembly (alloc, alloc_input, enforce), eval, group::Wnaf with the real window code, EvaluationDomain::{from_coeffs,z,ifft}, Worker::scope, batch_normalize");
    rep.bound("circuits: every one-constraint circuit over one, one input and one auxiliary variable and over one and two auxiliary variables (all 512 + 512 occurrence patterns, symbolic coefficients), forward circuits with up to two dense constraints and two inputs, structural specials (no auxiliary variables, no constraints, unused inputs, cancelling and zero coefficients, interleaved allocation, eight-row domain)");
    rep.bound("trapdoors and both generators: symbolic; additionally tau = 0, 1, roots of unity of the domain, alpha = 0, beta = 0, alpha = beta = 0 explicitly");
    generic(rep);
    threads(rep);
    let depth = if Report::thorough() { 2 } else { 1 };
    for s in satisfied(false) {
        let label = format!("CRS of {}", s.name);
        explore_d(rep, &label, depth, |rep, sub| {
            judge(rep, &label, sub, &|| gen_case((s.f)(), &trap()));
        });
    }
    for (ni, nv, rows) in [(1usize, 3usize, 1usize), (0, 3, 1), (0, 2, 2), (1, 2, 2)] {
        for m in 0..8u32.pow(nv as u32) {
            let masks: Vec<u8> = (0..nv).map(|i| ((m >> (3 * i)) & 7) as u8).collect();
            let label = format!("CRS of incidence inputs={} rows={} {:?}", ni, rows, masks);
            explore_d(rep, &label, 0, |rep, sub| {
                judge(rep, &label, sub, &|| gen_case(incidence(ni, &masks, rows), &trap()));
            });
        }
    }
    // explicit special trapdoors
    for sp in ["tau=0", "tau=1", "tau=w", "tau=w^3", "alpha=0", "beta=0", "alpha=beta=0", "g1=1"] {
        for s in satisfied(false) {
            let label = format!("CRS of {} at {}", s.name, sp);
            explore_d(rep, &label, 0, |rep, sub| {
                judge(rep, &label, sub, &|| {
                    let c = (s.f)();
                    let mut t = trap();
                    let w = omega(c.qap().d);
                    match sp {
                        "tau=0" => t.tau = F::ZERO,
                        "tau=1" => t.tau = F::ONE,
                        "tau=w" => t.tau = w,
                        "tau=w^3" => t.tau = w * w * w,
                        "alpha=0" => t.alpha = F::ZERO,
                        "beta=0" => t.beta = F::ZERO,
                        "g1=1" => {
                            t.g1 = F::ONE;
                            t.g2 = F::ONE
                        }
                        _ => {
                            t.alpha = F::ZERO;
                            t.beta = F::ZERO
                        }
                    }
                    gen_case(c, &t)
                });
            });
        }
    }
}

fn expect_err<T>(rep: &mut Report, label: &str, r: Result<Result<T, SynthesisError>, String>, want: &str) {
    let got = match &r {
        Ok(Ok(_)) => "success".to_string(),
        Ok(Err(e)) => err_name(e),
        Err(p) => format!("panic: {}", p),
    };
    if got.contains("SYMEX") {
        rep.error(&format!("{}: {}", label, got));
        return;
    }
    rep.require(got == want, label, || format!("{}: expected {}, got {}", label, want, got));
}
fn atoms_of(f: F) -> Option<BTreeMap<String, i32>> {
    // monomial with coefficient one
    let a = arena();
    let p = a.get(f.0);
    if p.0.len() != 1 || p.0[0].1 != a.m.one {
        return None;
    }
    Some(p.0[0].0.iter().map(|(x, e)| (a.atoms[*x as usize].name.clone(), *e)).collect())
}
fn all_atoms(f: F) -> BTreeSet<String> {
    let a = arena();
    a.get(f.0).0.iter().flat_map(|(m, _)| m.iter().map(|t| a.atoms[t.0 as usize].name.clone())).collect()
}
pub fn run22(rep: &mut Report) {
    rep.func("groth16::{generate_parameters, generate_random_parameters}, KeypairAssembly");
    rep.bound("unconstrained auxiliary variable: all occurrence patterns of two auxiliary variables in one constraint and cancelling/zero coefficients; gamma, delta zero with everything else symbolic; too-large circuits over a field of two-adicity 3 with every size up to 12; synthesis errors at every step of three circuits, in and outside allocation closures");
    rep.bound("randomness: a source whose outputs are all distinct symbols; every draw is tied to the source output that produced it");
    generic(rep);
    threads(rep);
    // unconstrained variables
    for m in 0..64u32 {
        let masks = [7u8, (m & 7) as u8, ((m >> 3) & 7) as u8];
        let label = format!("unconstrained pattern {:?}", masks);
        explore_d(rep, &label, 0, |rep, sub| {
            judge(rep, &label, sub, &|| gen_case(incidence(0, &masks, 1), &trap()));
        });
    }
    for (i, (co, bad)) in [(vec![0i64], true), (vec![3, -3], true), (vec![1, 1, -2], true), (vec![1, 1], false), (vec![0, 1], false), (vec![], true)].into_iter().enumerate() {
        for t in 0..3 {
            explore_d(rep, "coefficients", 0, |rep, _| {
                let mut c = incidence(1, &[7, 7, 7], 1);
                c.aux.push(at("w9"));
                c.steps = steps(1, 2, 1);
                for k in &co {
                    let f = if *k < 0 { -F::from((-k) as u64) } else { F::from(*k as u64) };
                    c.cons[0][t].push((V::A(1), f));
                }
                let label = format!("unconstrained coefficients {} in matrix {}", i, t);
                let r = guarded(|| gen(c, &trap()));
                if bad {
                    expect_err(rep, &label, r, "UnconstrainedVariable");
                } else {
                    expect_err(rep, &label, r, "success");
                }
            });
        }
    }
    // zero gamma / delta
    for s in satisfied(false) {
        for which in 0..3 {
            explore_d(rep, "zero", 0, |rep, _| {
                let mut t = trap();
                if which != 1 {
                    t.gamma = F::ZERO;
                }
                if which != 0 {
                    t.delta = F::ZERO;
                }
                let c = (s.f)();
                let r = guarded(|| gen(c, &t));
                expect_err(rep, &format!("zero {} for {}", ["gamma", "delta", "gamma and delta"][which], s.name), r, "UnexpectedIdentity");
            });
        }
    }
    // random parameters
    for s in satisfied(false) {
        let label = format!("random parameters of {}", s.name);
        explore_d(rep, &label, 0, |rep, sub| {
            judge(rep, &label, sub, &|| {
                let c = (s.f)();
                let mut rng = SymRng(0);
                let p = generate_random_parameters::<E, Inst, SymRng>(c.clone(), &mut rng).map_err(|e| format!("{:?}", e))?;
                if sub.is_empty() && arena().subst.is_empty() {
                    let rnd = |i: u64| F::unit(&format!("rnd{}", i));
                    // identify the draws from the fixed elements
                    let find = |f: F| -> Result<BTreeSet<String>, String> { atoms_of(f).map(|m| m.keys().cloned().collect()).ok_or_else(|| format!("element is not a product of draws: {:?}", f)) };
                    let (aa, b1, b2, gg, d1, d2) = (find(p.vk.alpha_g1.dlog())?, find(p.vk.beta_g1.dlog())?, find(p.vk.beta_g2.dlog())?, find(p.vk.gamma_g2.dlog())?, find(p.vk.delta_g1.dlog())?, find(p.vk.delta_g2.dlog())?);
                    let one = |s: BTreeSet<String>, w: &str| -> Result<String, String> {
                        if s.len() == 1 {
                            Ok(s.into_iter().next().unwrap())
                        } else {
                            Err(format!("{} is not a single independent draw: {:?}", w, s))
                        }
                    };
                    let and = |x: &BTreeSet<String>, y: &BTreeSet<String>| x.intersection(y).cloned().collect::<BTreeSet<_>>();
                    let sub1 = |x: &BTreeSet<String>, y: &str| x.iter().filter(|z| *z != y).cloned().collect::<BTreeSet<_>>();
                    let g1 = one(and(&aa, &b1), "g1")?;
                    let g2 = one(and(&b2, &gg), "g2")?;
                    let alpha = one(sub1(&aa, &g1), "alpha")?;
                    let beta = one(sub1(&b1, &g1), "beta")?;
                    let gamma = one(sub1(&gg, &g2), "gamma")?;
                    let delta = one(sub1(&d1, &g1), "delta")?;
                    let delta2 = one(sub1(&d2, &g2), "delta (second group)")?;
                    if delta != delta2 {
                        return Err("delta differs between the groups".into());
                    }
                    let mut used: BTreeSet<String> = [g1.clone(), g2.clone(), alpha.clone(), beta.clone(), gamma.clone(), delta.clone()].into_iter().collect();
                    if used.len() != 6 {
                        return Err(format!("draws are shared between trapdoors: {:?}", used));
                    }
                    let mut rest = BTreeSet::new();
                    for x in p.h.iter().chain(p.a.iter()).chain(p.vk.ic.iter()) {
                        rest.extend(all_atoms(x.dlog()).into_iter().filter(|n| n.starts_with("rnd") && !used.contains(n)));
                    }
                    // with a domain of size one tau does not occur in any element
                    let tau = if rest.is_empty() && c.qap().d == 1 { F::ONE } else { F::unit(&one(rest, "tau")?) };
                    used.extend(all_atoms(tau));
                    let t = Trap { g1: F::unit(&g1), g2: F::unit(&g2), alpha: F::unit(&alpha), beta: F::unit(&beta), gamma: F::unit(&gamma), delta: F::unit(&delta), tau };
                    if !used.iter().all(|u| u.starts_with("rnd") && u[3..].parse::<u64>().map(|v| v >= 1 && v <= rng.0).unwrap_or(false)) {
                        return Err(format!("trapdoors do not come from the supplied randomness: {:?}", used));
                    }
                    let _ = rnd;
                    Ok(crs_diff(&c, &t, &p))
                } else {
                    Ok(vec![])
                }
            });
        });
    }
    // synthesis errors
    for w in [3usize, 4, 5] {
        let len = {
            crate::field::init_cfg::<crate::field::BlsT>();
            (satisfied(false)[w].f)().steps.len()
        };
        for i in 0..len {
            explore_d(rep, "errors", 0, |rep, _| {
                let mut c = (satisfied(false)[w].f)();
                c.fail = Some((i, false));
                expect_err(rep, &format!("synthesis error at step {} of circuit {}", i, w), guarded(|| gen(c, &trap())), "DivisionByZero");
            });
        }
    }
    // too large
    for nc in 0..=12usize {
        use crate::eng3 as e3;
        crate::field::init_cfg::<crate::field::BlsT3>();
        struct C3(usize);
        impl bellman::Circuit<e3::F> for C3 {
            fn synthesize<CS: bellman::ConstraintSystem<e3::F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
                let v = cs.alloc(|| "v", || Ok(e3::F::ONE))?;
                for _ in 0..self.0.max(1) {
                    cs.enforce(|| "c", |l| l + v, |l| l + CS::one(), |l| l + v);
                }
                Ok(())
            }
        }
        let rows = nc.max(1) + 1;
        let mut d = 1;
        while d < rows {
            d *= 2;
        }
        let u = |s: &str| e3::F::unit(s);
        let r = guarded(|| groth16::generate_parameters::<e3::E, _>(C3(nc), e3::G::from_dlog(u("g1")), e3::G::from_dlog(u("g2")), u("al"), u("be"), u("ga"), u("de"), u("ta")));
        expect_err(rep, &format!("circuit of {} rows, two-adicity 3", rows), r, if d >= 8 { "PolynomialDegreeTooLarge" } else { "success" });
    }
}

/// Arbitrary parameters of the right shape for a circuit.
fn arb_params(q: &Qap) -> Parameters<E> {
    let g1 = |s: String| A::<1>::unit(&s);
    let g2 = |s: String| A::<2>::unit(&s);
    let va: Vec<usize> = (0..q.nin + q.naux).filter(|i| q.dense(0, *i)).collect();
    let vb: Vec<usize> = (0..q.nin + q.naux).filter(|i| q.dense(1, *i)).collect();
    Parameters {
        vk: VerifyingKey {
            alpha_g1: A::from_dlog(F::atom("p_alpha1")),
            beta_g1: A::from_dlog(F::atom("p_beta1")),
            beta_g2: A::from_dlog(F::atom("p_beta2")),
            gamma_g2: A::from_dlog(F::atom("p_gamma2")),
            delta_g1: g1("p_delta1".into()),
            delta_g2: g2("p_delta2".into()),
            ic: (0..q.nin).map(|i| A::from_dlog(F::atom(&format!("p_ic{}", i)))).collect(),
        },
        h: Arc::new((0..q.d - 1).map(|i| g1(format!("p_h{}", i))).collect()),
        l: Arc::new((0..q.naux).map(|i| g1(format!("p_l{}", i))).collect()),
        a: Arc::new(va.iter().map(|i| g1(format!("p_a{}", i))).collect()),
        b_g1: Arc::new(vb.iter().map(|i| g1(format!("p_b{}", i))).collect()),
        b_g2: Arc::new(vb.iter().map(|i| g2(format!("p_bb{}", i))).collect()),
    }
}
/// Groth16 proof elements over those parameters (a, b, c); `c` needs a satisfying assignment
fn proof_spec(q: &Qap, p: &Parameters<E>, r: F, s: F) -> (F, F, F, bool) {
    let mut a = F::ZERO;
    let mut ia = 0;
    let (mut b1, mut b2, mut ib) = (F::ZERO, F::ZERO, 0);
    for i in 0..q.nin + q.naux {
        if q.dense(0, i) {
            a = a + q.w[i] * p.a[ia].dlog();
            ia += 1;
        }
        if q.dense(1, i) {
            b1 = b1 + q.w[i] * p.b_g1[ib].dlog();
            b2 = b2 + q.w[i] * p.b_g2[ib].dlog();
            ib += 1;
        }
    }
    let aa = p.vk.alpha_g1.dlog() + a + r * p.vk.delta_g1.dlog();
    let bb1 = p.vk.beta_g1.dlog() + b1 + s * p.vk.delta_g1.dlog();
    let bb2 = p.vk.beta_g2.dlog() + b2 + s * p.vk.delta_g2.dlog();
    let (h, rem) = q.quotient();
    let sat = rem.iter().all(|x| x.0 == H_ZERO);
    let mut c = s * aa + r * bb1 - r * s * p.vk.delta_g1.dlog();
    for i in 0..q.naux {
        c = c + q.w[q.nin + i] * p.l[i].dlog();
    }
    for (k, x) in h.iter().enumerate() {
        c = c + *x * p.h[k].dlog();
    }
    (aa, bb2, c, sat)
}
fn proof_diff(q: &Qap, p: &Parameters<E>, r: F, s: F, pr: &Proof<E>) -> Diff {
    let (a, b, c, sat) = proof_spec(q, p, r, s);
    let mut d = vec![("A".to_string(), pr.a.dlog(), a), ("B".to_string(), pr.b.dlog(), b)];
    if sat {
        d.push(("C".into(), pr.c.dlog(), c));
    }
    d
}
/// Source that hands out separate query parts and insists on the true counts.
struct Counting<'a> {
    p: &'a Parameters<E>,
    q: &'a Qap,
    log: &'a std::sync::Mutex<Vec<String>>,
}
type B1 = (Arc<Vec<A<1>>>, usize);
type B2 = (Arc<Vec<A<2>>>, usize);
impl<'a> Counting<'a> {
    fn cnt(&self, k: usize) -> (usize, usize) {
        let q = self.q;
        ((0..q.nin).filter(|i| q.dense(k, *i)).count(), (q.nin..q.nin + q.naux).filter(|i| q.dense(k, *i)).count())
    }
    fn chk(&self, what: &str, got: (usize, usize), want: (usize, usize)) {
        if got != want {
            self.log.lock().unwrap().push(format!("{} asked for {:?} elements, the query has {:?}", what, got, want));
        }
    }
}
impl<'a> ParameterSource<E> for Counting<'a> {
    type G1Builder = B1;
    type G2Builder = B2;
    fn get_vk(&mut self, k: usize) -> Result<VerifyingKey<E>, SynthesisError> {
        self.chk("get_vk", (k, 0), (self.q.nin, 0));
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, k: usize) -> Result<B1, SynthesisError> {
        self.chk("get_h", (k, 0), (self.q.d - 1, 0));
        Ok((self.p.h.clone(), 0))
    }
    fn get_l(&mut self, k: usize) -> Result<B1, SynthesisError> {
        self.chk("get_l", (k, 0), (self.q.naux, 0));
        Ok((self.p.l.clone(), 0))
    }
    fn get_a(&mut self, i: usize, x: usize) -> Result<(B1, B1), SynthesisError> {
        self.chk("get_a", (i, x), self.cnt(0));
        let n = self.cnt(0).0;
        Ok(((Arc::new(self.p.a[..n].to_vec()), 0), (Arc::new(self.p.a[n..].to_vec()), 0)))
    }
    fn get_b_g1(&mut self, i: usize, x: usize) -> Result<(B1, B1), SynthesisError> {
        self.chk("get_b_g1", (i, x), self.cnt(1));
        let n = self.cnt(1).0;
        Ok(((Arc::new(self.p.b_g1[..n].to_vec()), 0), (Arc::new(self.p.b_g1[n..].to_vec()), 0)))
    }
    fn get_b_g2(&mut self, i: usize, x: usize) -> Result<(B2, B2), SynthesisError> {
        self.chk("get_b_g2", (i, x), self.cnt(1));
        let n = self.cnt(1).0;
        Ok(((Arc::new(self.p.b_g2[..n].to_vec()), 0), (Arc::new(self.p.b_g2[n..].to_vec()), 0)))
    }
}
fn prove_case(c: Inst, counting: bool) -> Result<Diff, String> {
    let q = c.qap();
    let p = arb_params(&q);
    let (r, s) = (F::atom("r_r"), F::atom("r_s"));
    let log = std::sync::Mutex::new(vec![]);
    let pr = if counting {
        let x = create_proof::<E, Inst, _>(c, Counting { p: &p, q: &q, log: &log }, r, s);
        if x.is_err() {
            std::thread::sleep(std::time::Duration::from_millis(300));
        }
        x
    } else {
        prove_on(c, &p, r, s)
    };
    if let Some(l) = log.lock().unwrap().first() {
        return Err(l.clone());
    }
    let pr = pr.map_err(|e| format!("proving fails with {}", err_name(&e)))?;
    Ok(proof_diff(&q, &p, r, s, &pr))
}
pub fn run23(rep: &mut Report) {
    rep.func("groth16::{create_proof, ProvingAssignment, eval}, ParameterSource for &Parameters, multiexp, DensityTracker, EvaluationDomain pipeline, Worker");
    rep.bound("circuits: forward circuits with up to two dense constraints with symbolic coefficients and two inputs, structural specials (see C24), all 512 one-constraint occurrence patterns over one, an input and an auxiliary variable with arbitrary witness; every witness value symbolic, with each zero and one of a coefficient, witness value or quotient coefficient the code tests explored one at a time (two at a time in the thorough tier)");
    rep.bound("parameters: every element an independent symbol; blinding scalars symbolic and explicitly zero and one; third proof element only for satisfying assignments");
    generic(rep);
    threads(rep);
    let depth = if Report::thorough() { 2 } else { 1 };
    for s in satisfied(false) {
        for counting in [false, true] {
            let label = format!("proof elements of {}{}", s.name, if counting { " (separate query parts)" } else { "" });
            explore_d(rep, &label, if counting { 0 } else { depth }, |rep, sub| {
                judge(rep, &label, sub, &|| prove_case((s.f)(), counting));
            });
        }
    }
    for m in 0..512u32 {
        let masks: Vec<u8> = (0..3).map(|i| ((m >> (3 * i)) & 7) as u8).collect();
        let label = format!("proof elements of incidence {:?}", masks);
        explore_d(rep, &label, 0, |rep, sub| {
            judge(rep, &label, sub, &|| prove_case(incidence(1, &masks, 1), m & 1 == 0));
        });
    }
    // explicit blinding scalars
    for (r, s) in [(0u64, 0u64), (0, 1), (1, 0), (1, 1), (2, 0)] {
        for sh in satisfied(false) {
            let label = format!("proof elements of {} with r={} s={}", sh.name, r, s);
            explore_d(rep, &label, 0, |rep, sub| {
                judge(rep, &label, sub, &|| {
                    let c = (sh.f)();
                    let q = c.qap();
                    let p = arb_params(&q);
                    let pr = prove_on(c, &p, F::from(r), F::from(s)).map_err(|e| err_name(&e))?;
                    Ok(proof_diff(&q, &p, F::from(r), F::from(s), &pr))
                });
            });
        }
    }
    let (r, s) = ("r_r", "r_s");
    for (w, sh) in satisfied(false).into_iter().enumerate() {
        // identities in the verifying key's blinding elements
        for which in 0..3 {
            explore_d(rep, "identity", 0, |rep, _| {
                let c = (sh.f)();
                let mut p = arb_params(&c.qap());
                if which != 1 {
                    p.vk.delta_g1 = A::from_dlog(F::ZERO);
                }
                if which != 0 {
                    p.vk.delta_g2 = A::from_dlog(F::ZERO);
                }
                expect_err(rep, &format!("identity delta ({}) for {}", which, sh.name), guarded(|| prove_on(c, &p, F::atom(r), F::atom(s))), "UnexpectedIdentity");
            });
        }
        // identities in alpha, beta, gamma are accepted
        explore_d(rep, "identity", 0, |rep, sub| {
            judge(rep, &format!("identity alpha and beta for {}", sh.name), sub, &|| {
                let c = (sh.f)();
                let q = c.qap();
                let mut p = arb_params(&q);
                p.vk.alpha_g1 = A::from_dlog(F::ZERO);
                p.vk.beta_g1 = A::from_dlog(F::ZERO);
                p.vk.beta_g2 = A::from_dlog(F::ZERO);
                let pr = prove_on(c, &p, F::atom(r), F::atom(s)).map_err(|e| err_name(&e))?;
                Ok(proof_diff(&q, &p, F::atom(r), F::atom(s), &pr))
            });
        });
        // queries that are one element short, or that hold an identity
        for which in 0..5 {
            for ident in [false, true] {
                explore_d(rep, "short", 0, |rep, _| {
                    let c = (sh.f)();
                    let q = c.qap();
                    let mut p = arb_params(&q);
                    fn cutv<T: Clone>(v: &mut Arc<Vec<T>>, id: Option<T>) -> bool {
                        let mut x = (**v).clone();
                        if x.pop().is_none() {
                            return false;
                        }
                        if let Some(i) = id {
                            x.push(i);
                        }
                        *v = Arc::new(x);
                        true
                    }
                    let i1 = if ident { Some(A::<1>::from_dlog(F::ZERO)) } else { None };
                    let i2 = if ident { Some(A::<2>::from_dlog(F::ZERO)) } else { None };
                    let any = match which {
                        0 => cutv(&mut p.h, i1),
                        1 => cutv(&mut p.l, i1),
                        2 => cutv(&mut p.a, i1),
                        3 => cutv(&mut p.b_g1, i1),
                        _ => cutv(&mut p.b_g2, i2),
                    };
                    if !any {
                        return;
                    }
                    // with exponent zero the element is not needed
                    let last_used = match which {
                        0 => *q.quotient().0.last().unwrap(),
                        1 => *q.w.last().unwrap(),
                        k => {
                            let m = if k == 2 { 0 } else { 1 };
                            let i = (0..q.nin + q.naux).filter(|i| q.dense(m, *i)).last().unwrap();
                            q.w[i]
                        }
                    };
                    if ident && last_used.0 == H_ZERO {
                        return;
                    }
                    let name = ["h", "l", "a", "b_g1", "b_g2"][which];
                    let r = guarded(|| prove_on(c, &p, F::atom(r), F::atom(s)));
                    let want = if ident { "UnexpectedIdentity" } else { "IoError(UnexpectedEof)" };
                    expect_err(rep, &format!("{} in query {} for {}", if ident { "identity" } else { "missing element" }, name, sh.name), r, want);
                });
            }
        }
        // synthesis errors
        if w < 6 {
            let len = {
                crate::field::init_cfg::<crate::field::BlsT>();
                (sh.f)().steps.clone()
            };
            for (i, st) in len.iter().enumerate() {
                for inside in [false, true] {
                    if inside && *st == Step::Con {
                        continue;
                    }
                    explore_d(rep, "errors", 0, |rep, _| {
                        let mut c = (sh.f)();
                        let p = arb_params(&c.qap());
                        c.fail = Some((i, inside));
                        expect_err(rep, &format!("synthesis error at step {} (closure {}) of {}", i, inside, sh.name), guarded(|| prove_on(c, &p, F::atom(r), F::atom(s))), "DivisionByZero");
                    });
                }
            }
            explore_d(rep, "errors", 0, |rep, _| {
                let mut c = (sh.f)();
                if c.steps.is_empty() || c.steps == vec![Step::Con] {
                    return;
                }
                let p = arb_params(&c.qap());
                c.no_witness = true;
                expect_err(rep, &format!("missing witness of {}", sh.name), guarded(|| prove_on(c, &p, F::atom(r), F::atom(s))), "AssignmentMissing");
            });
        }
    }
}

/// residual of the verification equation
fn residual(vk: &VerifyingKey<E>, p: &Proof<E>, x: &[F]) -> F {
    let mut ic = vk.ic[0].dlog();
    for (i, v) in x.iter().enumerate() {
        ic = ic + vk.ic[i + 1].dlog() * *v;
    }
    p.a.dlog() * p.b.dlog() - vk.alpha_g1.dlog() * vk.beta_g2.dlog() - ic * vk.gamma_g2.dlog() - p.c.dlog() * vk.delta_g2.dlog()
}
/// coefficients of f as a polynomial in the symbols selected by `main`
fn coeffs(f: F, main: &dyn Fn(&str) -> bool) -> Vec<F> {
    let mut a = arena();
    let p = a.get(f.0).clone();
    let mut by: BTreeMap<Mono, Vec<(Mono, crate::big::U256)>> = BTreeMap::new();
    for (m, c) in p.0 {
        let (x, y): (Mono, Mono) = m.into_iter().partition(|t| main(&a.atoms[t.0 as usize].name));
        by.entry(x).or_default().push((y, c));
    }
    by.into_values()
        .map(|mut v| {
            v.sort();
            F::h(a.intern(Poly(v)))
        })
        .collect()
}
/// An equivalent system of equations: Gaussian elimination over the monomials (highest degree first).
fn row_reduce(v: &[F]) -> Vec<F> {
    let mut a = arena();
    let deg = |m: &Mono| m.iter().map(|t| t.1.abs()).sum::<i32>();
    let key = |m: &Mono| (-deg(m), m.clone());
    let mut rows: Vec<BTreeMap<(i32, Mono), crate::big::U256>> = vec![];
    for f in v {
        let mut r: BTreeMap<(i32, Mono), crate::big::U256> = a.get(f.0).0.iter().map(|(m, c)| (key(m), *c)).collect();
        let axpy = |m: &crate::big::Mont, r: &mut BTreeMap<(i32, Mono), crate::big::U256>, q: &BTreeMap<(i32, Mono), crate::big::U256>, k: crate::big::U256| {
            for (mo, c) in q {
                let e = r.entry(mo.clone()).or_insert([0; 4]);
                *e = m.sub(e, &m.mul(c, &k));
                if crate::big::is_zero(e) {
                    r.remove(mo);
                }
            }
        };
        for q in &rows {
            let lead = q.keys().next().unwrap().clone();
            if let Some(k) = r.get(&lead).cloned() {
                axpy(&a.m, &mut r, q, k);
            }
        }
        let lead = match r.keys().next() {
            None => continue,
            Some(l) => l.clone(),
        };
        let inv = a.m.inv(&r[&lead]);
        for c in r.values_mut() {
            *c = a.m.mul(c, &inv);
        }
        for q in rows.iter_mut() {
            if let Some(k) = q.get(&lead).cloned() {
                axpy(&a.m, q, &r, k);
            }
        }
        rows.push(r);
    }
    rows.into_iter()
        .map(|r| {
            let mut t: Vec<(Mono, crate::big::U256)> = r.into_iter().map(|((_, m), c)| (m, c)).collect();
            t.sort();
            F::h(a.intern(Poly(t)))
        })
        .collect()
}
/// Wait until no worker task uses the parameters any more (after an early error return).
fn settle(p: &Parameters<E>) {
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_millis() < 3000 {
        let busy = [&p.h, &p.l, &p.a, &p.b_g1].iter().any(|x| Arc::strong_count(x) > 1) || Arc::strong_count(&p.b_g2) > 1;
        if !busy {
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}
/// create_proof on the real code; returns only when the pool no longer works on it
fn prove_on(c: Inst, p: &Parameters<E>, r: F, s: F) -> Result<Proof<E>, SynthesisError> {
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| create_proof::<E, Inst, _>(c, p, r, s)));
    settle(p);
    match x {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn trapdoor(n: &str) -> bool {
    n.starts_with("t_") || n.starts_with("r_")
}
pub fn run24(rep: &mut Report) {
    rep.func("groth16::{generate_parameters, create_proof, prepare_verifying_key, verify_proof} end to end");
    rep.bound("circuits: forward circuits with up to two dense constraints (three in the thorough tier) with symbolic coefficients, up to two inputs; structural specials: no auxiliary variables, no constraints, empty circuit, unused inputs, variables in only one matrix, cancelling and zero coefficients, repeated variables, interleaved allocation, eight-row domain; real gadget circuits: aliased and ordinary conditional reversal, products, inputize");
    rep.bound("completeness: all coefficients, witness values, trapdoors and blinding scalars symbolic, the regions where a tested coefficient or witness value is zero or one explored one at a time (two in the thorough tier)");
    rep.bound("soundness: for an arbitrary residual vector of the constraints and arbitrary claimed inputs, the equation vanishes identically in the trapdoors only if all residuals are zero / the inputs agree (SMT)");
    generic(rep);
    threads(rep);
    let depth = if Report::thorough() { 2 } else { 1 };
    let mut shapes = satisfied(false);
    if Report::thorough() {
        shapes.push(shape("forward inputs=1 free=0 constraints=3", || forward(1, 0, 3, false, false)));
    }
    let prove = |c: &Inst| -> Result<(Parameters<E>, Proof<E>), String> {
        let t = trap();
        let mut g = c.clone();
        g.no_witness = true;
        let p = gen(g, &t).map_err(|e| format!("parameter generation fails with {}", err_name(&e)))?;
        let pr = prove_on(c.clone(), &p, F::atom("r_r"), F::atom("r_s")).map_err(|e| format!("proving fails with {}", err_name(&e)))?;
        Ok((p, pr))
    };
    for s in shapes {
        let label = format!("honest proof of {}", s.name);
        explore_d(rep, &label, depth, |rep, sub| {
            judge(rep, &label, sub, &|| {
                let c = (s.f)();
                // a zero coefficient may leave an auxiliary variable unconstrained
                let q = c.qap();
                if (q.nin..q.nin + q.naux).any(|i| (0..3).all(|k| !q.dense(k, i))) {
                    return Ok(vec![]);
                }
                let (p, pr) = prove(&c)?;
                let pvk = prepare_verifying_key(&p.vk);
                let asked = arena().asked.len();
                let v = verify_proof(&pvk, &pr, &c.inputs);
                let r = residual(&p.vk, &pr, &c.inputs);
                let _ = asked;
                Ok(vec![("verification equation".into(), r, F::ZERO), ("verifier accepts".into(), n(v.is_ok() as usize), F::ONE)])
            });
        });
    }
    // soundness
    for s in satisfied(true) {
        let label = format!("unsatisfied {}", s.name);
        explore_d(rep, &label, 0, |rep, sub| {
            let c = (s.f)();
            let res: Vec<F> = c.residuals();
            let (p, pr) = match guarded(|| prove(&c)) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) | Err(e) => {
                    let t = format!("{}: {}", label, e);
                    rep.violation(&label, &t, &t);
                    return;
                }
            };
            let cs = row_reduce(&coeffs(residual(&p.vk, &pr, &c.inputs), &trapdoor));
            let all0 = |v: &[F]| crate::r1cs::G::All(v.iter().map(|x| crate::r1cs::G::Zero(x.0)).collect());
            let mut sys = Sys { cons: vec![], hyp: vec![all0(&cs)], bools: Default::default(), elim: vec![], no_elim: true };
            soundness_q(rep, &label, &sys, &all0(&res), sub);
            // claimed inputs that differ
            if c.inputs.is_empty() {
                return;
            }
            crate::field::init_cfg::<crate::field::BlsT>();
            arena().subst = (0..2).map(|i| (format!("e{}", i), Poly(vec![]))).collect();
            let c = (s.f)();
            if let Ok(Ok((p, pr))) = guarded(|| prove(&c)) {
                let claim: Vec<F> = (0..c.inputs.len()).map(|i| c.inputs[i] + F::atom(&format!("y{}", i))).collect();
                let cs = row_reduce(&coeffs(residual(&p.vk, &pr, &claim), &trapdoor));
                let d: Vec<F> = claim.iter().zip(&c.inputs).map(|(x, y)| *x - *y).collect();
                sys.hyp = vec![all0(&cs)];
                soundness_q(rep, &format!("wrong inputs {}", s.name), &sys, &all0(&d), sub);
            }
        });
    }
    gadget_circuits(rep);
}
/// unsat = the implication holds; a model is evidence of an accepting false statement
fn soundness_q(rep: &mut Report, label: &str, sys: &Sys, goal: &crate::r1cs::G, _sub: &BTreeMap<String, Poly>) {
    decide(rep, label, sys, goal, &|m| Ok(format!("{}: the verification equation is an identity in the trapdoors although the statement is false, e.g. at {}", label, show_model(m))));
}
fn gadget_circuits(rep: &mut Report) {
    use bellman::gadgets::boolean::{AllocatedBit, Boolean};
    use bellman::gadgets::num::AllocatedNum;
    use bellman::{Circuit, ConstraintSystem};
    #[derive(Clone)]
    struct Gc(usize, bool, Option<(F, F)>);
    impl Circuit<F> for Gc {
        fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
            let Gc(which, bit, w) = self;
            let g = |i: usize| move || w.map(|p| if i == 0 { p.0 } else { p.1 }).ok_or(SynthesisError::AssignmentMissing);
            let a = AllocatedNum::alloc(cs.namespace(|| "a"), g(0))?;
            let b = AllocatedNum::alloc(cs.namespace(|| "b"), g(1))?;
            let c = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "c"), w.map(|_| bit))?);
            let (x, y) = match which {
                0 => AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &a, &c)?,
                1 => AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &c)?,
                2 => AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &c.not())?,
                3 => AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &a, &b, &Boolean::constant(bit))?,
                _ => {
                    let z = Boolean::and(cs.namespace(|| "and"), &c, &c)?;
                    AllocatedNum::conditionally_reverse(cs.namespace(|| "r"), &b, &b, &z)?
                }
            };
            let p = x.mul(cs.namespace(|| "p"), &y)?;
            let q = p.square(cs.namespace(|| "q"))?;
            let q = q.mul(cs.namespace(|| "q2"), &b)?;
            let q = q.mul(cs.namespace(|| "q3"), &a)?;
            q.inputize(cs.namespace(|| "i"))
        }
    }
    for which in 0..5 {
        for bit in [false, true] {
            let label = format!("honest proof of gadget circuit {} bit {}", which, bit);
            explore_d(rep, &label, 1, |rep, sub| {
                judge(rep, &label, sub, &|| {
                    let t = trap();
                    let p = generate_parameters::<E, _>(Gc(which, bit, None), G::from_dlog(t.g1), G::from_dlog(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau).map_err(|e| format!("generation: {}", err_name(&e)))?;
                    let (a, b) = (at("w0"), at("w1"));
                    let pr = create_proof::<E, _, _>(Gc(which, bit, Some((a, b))), &p, F::atom("r_r"), F::atom("r_s"));
                    settle(&p);
                    let pr = pr.map_err(|e| format!("proving: {}", err_name(&e)))?;
                    let xy = match which {
                        0 => a * a,
                        4 => b * b,
                        _ => a * b,
                    };
                    let x = [xy * xy * a * b];
                    let v = verify_proof(&prepare_verifying_key(&p.vk), &pr, &x);
                    Ok(vec![("verification equation".into(), residual(&p.vk, &pr, &x), F::ZERO), ("verifier accepts".into(), n(v.is_ok() as usize), F::ONE)])
                });
            });
        }
    }
}

fn arb_vk(k: usize) -> VerifyingKey<E> {
    let a1 = |s: &str| A::<1>::from_dlog(F::atom(s));
    let a2 = |s: &str| A::<2>::from_dlog(F::atom(s));
    VerifyingKey {
        alpha_g1: a1("v_alpha1"),
        beta_g1: a1("v_beta1"),
        beta_g2: a2("v_beta2"),
        gamma_g2: a2("v_gamma2"),
        delta_g1: a1("v_delta1"),
        delta_g2: a2("v_delta2"),
        ic: (0..k).map(|i| a1(&format!("v_ic{}", i))).collect(),
    }
}
fn arb_proof(i: usize) -> Proof<E> {
    Proof { a: A::from_dlog(F::atom(&format!("pa{}", i))), b: A::from_dlog(F::atom(&format!("pb{}", i))), c: A::from_dlog(F::atom(&format!("pc{}", i))) }
}
fn vname(r: &Result<(), VerificationError>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => format!("{:?}", e),
    }
}
/// The verdict in every branch region: the code's decision must be equivalent to `zero` = 0.
fn verdicts(rep: &mut Report, label: &str, f: &dyn Fn() -> (Result<(), VerificationError>, F)) {
    explore_d(rep, label, 0, |rep, _| {
        let (r, z) = match guarded(|| f()) {
            Ok(x) => x,
            Err(e) => {
                rep.require(false, label, || format!("{}: panic {}", label, e));
                return;
            }
        };
        let asked = arena().asked.clone();
        // generic region: every decided polynomial non-zero
        let hyp = region_hyp();
        let zg = crate::r1cs::G::Zero(z.0);
        let sys = Sys { cons: vec![], hyp, bools: Default::default(), elim: vec![], no_elim: true };
        let ok = r.is_ok();
        let goal = if ok { zg.clone() } else { crate::r1cs::G::Not(Box::new(zg.clone())) };
        decide(rep, &format!("{}: verdict {} in the generic region", label, vname(&r)), &sys, &goal, &|m| verdict_replay(m, f));
        rep.require(ok || matches!(r, Err(VerificationError::InvalidProof)), label, || format!("{}: false equation reported as {}", label, vname(&r)));
        // the decision set must be exactly the vanishing of the equation
        if asked.len() != 1 {
            rep.error(&format!("{}: {} decisions on group elements (expected one)", label, asked.len()));
            return;
        }
        let sys = Sys { cons: vec![], hyp: vec![crate::r1cs::G::Zero(asked[0])], bools: Default::default(), elim: vec![], no_elim: true };
        decide(rep, &format!("{}: equation holds whenever the code's test does", label), &sys, &zg, &|m| verdict_replay(m, f));
        let sys = Sys { cons: vec![], hyp: vec![zg], bools: Default::default(), elim: vec![], no_elim: true };
        decide(rep, &format!("{}: code's test holds whenever the equation does", label), &sys, &crate::r1cs::G::Zero(asked[0]), &|m| verdict_replay(m, f));
        // and in that region the answer flips: substitute a solution
        let sol = {
            let a = arena();
            let p = a.get(z.0).clone();
            solve_for(&a, &p)
        };
        match sol {
            None => rep.error(&format!("{}: cannot solve the equation for a symbol", label)),
            Some((x, v)) => {
                crate::field::init_cfg::<crate::field::BlsT>();
                arena().subst = v;
                rep.paths += 1;
                match guarded(|| f()) {
                    Ok((r, z)) => {
                        rep.require(r.is_ok() && z.0 == H_ZERO, label, || format!("{}: true equation (solved for {}) is reported as {}", label, x, vname(&r)));
                    }
                    Err(e) => rep.require(false, label, || format!("{}: panic {}", label, e)),
                }
            }
        }
    });
}
/// make the equation hold identically: pc_i * v_delta2 = rest; v_delta2 set to one
fn solve_for(a: &Arena, p: &Poly) -> Option<(String, BTreeMap<String, Poly>)> {
    let d = a.atom_id("v_delta2")?;
    let x = a.atoms.iter().position(|t| t.name == "pc0")? as u32;
    // p = c * pc0 * delta2 (* unit) + rest(delta2)
    let occ: Vec<_> = p.0.iter().filter(|(m, _)| m.iter().any(|t| t.0 == x)).collect();
    if occ.len() != 1 {
        return None;
    }
    let mut q: BTreeMap<Mono, crate::big::U256> = BTreeMap::new();
    let (om, oc) = occ[0];
    let unit: Mono = om.iter().filter(|t| t.0 != x && t.0 != d).cloned().collect();
    let ci = a.m.neg(&a.m.inv(oc));
    for (m, c) in &p.0 {
        if m == om {
            continue;
        }
        let mut mm: BTreeMap<u32, i32> = m.iter().filter(|t| t.0 != d).cloned().collect();
        for (u, e) in &unit {
            *mm.entry(*u).or_insert(0) -= e;
        }
        let key: Mono = mm.into_iter().filter(|t| t.1 != 0).collect();
        let e = q.entry(key).or_insert([0; 4]);
        *e = a.m.add(e, &a.m.mul(c, &ci));
    }
    let r = Poly(q.into_iter().filter(|(_, c)| !crate::big::is_zero(c)).collect());
    let one = Poly(vec![(vec![], a.m.one)]);
    Some(("pc0".into(), [("pc0".to_string(), r), ("v_delta2".to_string(), one)].into_iter().collect()))
}
fn verdict_replay(m: &BTreeMap<String, crate::big::U256>, f: &dyn Fn() -> (Result<(), VerificationError>, F)) -> Result<String, String> {
    let s: BTreeMap<String, Poly> = {
        let a = arena();
        m.iter()
            .map(|(k, v)| {
                let c = a.m.to(v);
                (k.clone(), Poly(if crate::big::is_zero(&c) { vec![] } else { vec![(vec![], c)] }))
            })
            .collect()
    };
    crate::field::init_cfg::<crate::field::BlsT>();
    arena().subst = s;
    let (r, z) = guarded(|| f())?;
    if r.is_ok() == (z.0 == H_ZERO) {
        return Err("the concrete run agrees with the equation".into());
    }
    Ok(format!("concrete run of the real code: verdict {} although the equation is {} at {}", vname(&r), if z.0 == H_ZERO { "true" } else { "false" }, show_model(m)))
}
pub fn run25(rep: &mut Report) {
    rep.func("groth16::{prepare_verifying_key, verify_proof}, Item::verify_single");
    rep.bound("every verifying key with 1 to 6 input elements (12 in the thorough tier), every proof and every input vector of matching and of all other lengths up to 8; all elements symbolic including identities");
    generic(rep);
    let top = if Report::thorough() { 12 } else { 6 };
    for k in 1..=top {
        for single in [false, true] {
            verdicts(rep, &format!("verify with {} inputs{}", k - 1, if single { " (single item)" } else { "" }), &|| {
                let vk = arb_vk(k);
                let p = arb_proof(0);
                let x: Vec<F> = (0..k - 1).map(|i| F::atom(&format!("x{}", i))).collect();
                let pvk = prepare_verifying_key(&vk);
                let r = if single { batch::Item::<E>::from((p.clone(), x.clone())).verify_single(&pvk) } else { verify_proof(&pvk, &p, &x) };
                let z = residual(&vk, &p, &x);
                (r, z)
            });
        }
        for len in 0..=8 {
            if len + 1 == k {
                continue;
            }
            explore_d(rep, "len", 0, |rep, _| {
                let vk = arb_vk(k);
                let x: Vec<F> = (0..len).map(|i| F::atom(&format!("x{}", i))).collect();
                let p = arb_proof(0);
                let r = guarded(|| verify_proof(&prepare_verifying_key(&vk), &p, &x));
                let label = format!("{} inputs for a key of {}", len, k);
                rep.require(matches!(r, Ok(Err(VerificationError::InvalidVerifyingKey))), &label, || format!("{}: expected InvalidVerifyingKey, got {:?}", label, r));
                let r = guarded(|| batch::Item::<E>::from((&p, &x[..])).verify_single(&prepare_verifying_key(&vk)));
                rep.require(matches!(r, Ok(Err(VerificationError::InvalidVerifyingKey))), &label, || format!("{} (single item): expected InvalidVerifyingKey, got {:?}", label, r));
            });
        }
    }
}
fn batch_run(k: usize, items: usize, rng: &mut SymRng) -> (Result<(), VerificationError>, Vec<F>) {
    let vk = arb_vk(k);
    let mut v = batch::Verifier::<E>::new();
    let mut rs = vec![];
    for i in 0..items {
        let p = arb_proof(i);
        let x: Vec<F> = (0..k - 1).map(|j| F::atom(&format!("x{}_{}", i, j))).collect();
        if i % 2 == 0 {
            v.queue((p.clone(), x.clone()));
        } else {
            v.queue((&p, &x[..]));
        }
        rs.push(residual(&vk, &p, &x));
    }
    (v.verify(rng, &vk), rs)
}
pub fn run26(rep: &mut Report) {
    rep.func("groth16::batch::{Verifier::new, queue, verify, Item::from, Item::verify_single}");
    rep.bound("batches of 0 to 5 items (8 in the thorough tier) over keys with 1 to 4 input elements, every proof, input and key element symbolic; wrong input counts at every position; a randomness source yielding zero as its first or second weight");
    rep.bound("verify_multicore is not compiled in this crate (no such feature is declared) and is not covered");
    generic(rep);
    let top = if Report::thorough() { 8 } else { 5 };
    for k in 1..=4usize {
        for items in 0..=top {
            let label = format!("batch of {} items, {} inputs", items, k - 1);
            explore_d(rep, &label, 0, |rep, _| {
                let mut rng = SymRng(0);
                let (r, rs) = match guarded(|| batch_run(k, items, &mut rng)) {
                    Ok(x) => x,
                    Err(e) => {
                        rep.require(false, &label, || format!("{}: panic {}", label, e));
                        return;
                    }
                };
                let asked = arena().asked.clone();
                if items == 0 {
                    rep.require(r.is_ok(), &label, || format!("{}: {}", label, vname(&r)));
                    return;
                }
                rep.require(matches!(r, Err(VerificationError::InvalidProof)), &label, || format!("{}: generic invalid batch is reported as {}", label, vname(&r)));
                if r.is_ok() || asked.is_empty() {
                    return;
                }
                if asked.len() != 1 {
                    rep.error(&format!("{}: {} decisions (expected one)", label, asked.len()));
                    return;
                }
                // the tested polynomial, its weight for every item
                let p = F::h(asked[0]);
                let mut ws = vec![];
                for i in 0..items {
                    let c = weight_of(p, i);
                    ws.push(c);
                }
                // scale so that the first weight is its own symbol
                let mut own: Vec<BTreeSet<String>> = ws.iter().map(|w| all_atoms(*w)).collect();
                for (i, o) in own.iter().enumerate() {
                    let bad = o.iter().any(|x| !x.starts_with("rnd"));
                    rep.require(!bad && ws[i].0 != H_ZERO, &label, || format!("{}: item {} has weight {}", label, i, ws[i].show()));
                }
                // the decision is the weighted sum of the items' equations
                let sum = rs.iter().zip(&ws).fold(F::ZERO, |s, (r, w)| s + *r * *w);
                let sys = Sys { cons: vec![], hyp: vec![], bools: Default::default(), elim: vec![], no_elim: true };
                decide(rep, &format!("{}: tested value is the weighted sum of the equations", label), &sys, &crate::r1cs::G::Zero((sum - p).0), &|m| Ok(format!("{}: the tested combination differs from the weighted sum of the items' equations, e.g. at {}", label, show_model(m))));
                // independence: the weights, seen as polynomials in the draws, are linearly independent
                // over the item equations because each contains a draw of its own
                if items > 1 {
                    let all: Vec<BTreeSet<String>> = own.clone();
                    for i in 0..items {
                        let others: BTreeSet<String> = all.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, s)| s.iter().cloned()).collect();
                        own[i] = all[i].difference(&others).cloned().collect();
                        rep.require(!own[i].is_empty(), &label, || format!("{}: item {} shares its random weight {} with other items", label, i, ws[i].show()));
                    }
                }
                let used: BTreeSet<String> = ws.iter().flat_map(|w| all_atoms(*w)).collect();
                rep.require(used.iter().all(|u| u[3..].parse::<u64>().map(|v| v >= 1 && v <= rng.0).unwrap_or(false)), &label, || format!("{}: weights do not come from the supplied randomness", label));
                // identically zero in the draws => every equation holds
                let cs = coeffs(p, &|n| n.starts_with("rnd"));
                let g = |v: &[F]| crate::r1cs::G::All(v.iter().map(|x| crate::r1cs::G::Zero(x.0)).collect());
                let sys = Sys { cons: vec![], hyp: vec![g(&cs)], bools: Default::default(), elim: vec![], no_elim: true };
                decide(rep, &format!("{}: identically accepted only if all equations hold", label), &sys, &g(&rs), &|m| Ok(format!("{}: accepted for all weights although an equation is false at {}", label, show_model(m))));
                // all items valid: make delta one and solve every c
                crate::field::init_cfg::<crate::field::BlsT>();
                let mut s: BTreeMap<String, Poly> = BTreeMap::new();
                s.insert("v_delta2".into(), Poly(vec![(vec![], arena().m.one)]));
                arena().subst = s.clone();
                let vk = arb_vk(k);
                for i in 0..items {
                    let mut pr = arb_proof(i);
                    pr.c = A::from_dlog(F::ZERO);
                    let x: Vec<F> = (0..k - 1).map(|j| F::atom(&format!("x{}_{}", i, j))).collect();
                    let z = residual(&vk, &pr, &x);
                    s.insert(format!("pc{}", i), arena().get(z.0).clone());
                }
                {
                    let mut a = arena();
                    a.subst = s.clone();
                }
                let r = guarded(|| batch_run(k, items, &mut SymRng(0)));
                let ok = matches!(&r, Ok((Ok(()), rs)) if rs.iter().all(|x| x.0 == H_ZERO));
                rep.require(ok, &label, || format!("{}: a batch of valid proofs is reported as {:?}", label, r.map(|x| vname(&x.0))));
                // one invalid item among valid ones is not accepted generically
                for bad in 0..items {
                    let mut s2 = s.clone();
                    s2.remove(&format!("pc{}", bad));
                    arena().subst = s2;
                    let r = guarded(|| batch_run(k, items, &mut SymRng(0)));
                    rep.require(matches!(&r, Ok((Err(VerificationError::InvalidProof), _))), &label, || format!("{}: a batch with invalid item {} is reported as {:?}", label, bad, r.map(|x| vname(&x.0))));
                }
            });
            // zero weights are never used
            for z in 1..=2u64 {
                if items == 0 || z as usize > items {
                    continue;
                }
                let label = format!("zero draw {} in batch of {} items, {} inputs", z, items, k - 1);
                explore_d(rep, &label, 0, |rep, _| {
                    arena().subst.insert(format!("rnd{}", z), Poly(vec![]));
                    let r = guarded(|| batch_run(k, items, &mut SymRng(0)));
                    let asked = arena().asked.clone();
                    let ok = matches!(&r, Ok((Err(VerificationError::InvalidProof), _))) && asked.len() == 1;
                    rep.require(ok, &label, || format!("{}: {:?}", label, r.as_ref().map(|x| vname(&x.0))));
                    if ok {
                        let p = F::h(asked[0]);
                        for i in 0..items {
                            let c = weight_of(p, i);
                            rep.require(c.0 != H_ZERO, &label, || format!("{}: item {} has weight zero", label, i));
                        }
                    }
                });
            }
            // wrong counts
            for bad in 0..items {
                for len in 0..=4usize {
                    if len + 1 == k {
                        continue;
                    }
                    explore_d(rep, "counts", 0, |rep, _| {
                        let r = guarded(|| {
                            let vk = arb_vk(k);
                            let mut v = batch::Verifier::<E>::new();
                            for i in 0..items {
                                let l = if i == bad { len } else { k - 1 };
                                let x: Vec<F> = (0..l).map(|j| F::atom(&format!("x{}_{}", i, j))).collect();
                                v.queue((arb_proof(i), x));
                            }
                            v.verify(SymRng(0), &vk)
                        });
                        let label = format!("batch of {} with {} inputs at item {} for a key of {}", items, len, bad, k);
                        rep.require(matches!(r, Ok(Err(VerificationError::InvalidVerifyingKey))), &label, || format!("{}: expected InvalidVerifyingKey, got {:?}", label, r));
                    });
                }
            }
        }
    }
    // the fallback agrees with the ordinary verifier
    for k in 1..=4usize {
        verdicts(rep, &format!("single-item fallback, {} inputs", k - 1), &|| {
            let vk = arb_vk(k);
            let p = arb_proof(0);
            let x: Vec<F> = (0..k - 1).map(|i| F::atom(&format!("x{}", i))).collect();
            let r = batch::Item::<E>::from((p.clone(), x.clone())).verify_single(&prepare_verifying_key(&vk));
            (r, residual(&vk, &p, &x))
        });
    }
}
/// coefficient of pa_i * pb_i
fn weight_of(p: F, i: usize) -> F {
    let mut a = arena();
    let (x, y) = match (a.atom_id(&format!("pa{}", i)), a.atom_id(&format!("pb{}", i))) {
        (Some(x), Some(y)) => (x, y),
        _ => return F::ZERO,
    };
    let q = a.get(p.0).clone();
    let mut r = vec![];
    for (m, c) in q.0 {
        if m.contains(&(x, 1)) && m.contains(&(y, 1)) {
            let rest: Mono = m.into_iter().filter(|t| t.0 != x && t.0 != y).collect();
            r.push((rest, c));
        }
    }
    r.sort();
    F::h(a.intern(Poly(r)))
}
pub fn run29(rep: &mut Report) {
    rep.func("groth16::create_random_proof");
    rep.bound("the circuits of C24 with arbitrary parameters; two proofs in a row from one randomness source; all values symbolic");
    generic(rep);
    threads(rep);
    for sh in satisfied(false) {
        let label = format!("blinding of {}", sh.name);
        explore_d(rep, &label, 0, |rep, sub| {
            judge(rep, &label, sub, &|| {
                let symbolic = arena().subst.is_empty();
                let c = (sh.f)();
                let q = c.qap();
                let p = arb_params(&q);
                let mut rng = SymRng(0);
                let mut d = vec![];
                let mut used: BTreeSet<String> = BTreeSet::new();
                for k in 0..2 {
                    let before = rng.0;
                    let pr = create_random_proof::<E, Inst, SymRng, _>(c.clone(), &p, &mut rng);
                    settle(&p);
                    let pr = pr.map_err(|e| err_name(&e))?;
                    if !symbolic {
                        continue;
                    }
                    // which draw blinds A and which B
                    let pick = |f: F, w: &str| -> Result<String, String> {
                        let v: Vec<String> = all_atoms(f).into_iter().filter(|n| n.starts_with("rnd")).collect();
                        if v.len() == 1 {
                            Ok(v[0].clone())
                        } else {
                            Err(format!("proof {}: element {} depends on the draws {:?} instead of exactly one", k, w, v))
                        }
                    };
                    let r = pick(pr.a.dlog(), "A")?;
                    let s = pick(pr.b.dlog(), "B")?;
                    for x in [&r, &s] {
                        let i: u64 = x[3..].parse().unwrap_or(0);
                        if !(i > before && i <= rng.0) {
                            return Err(format!("proof {}: blinding {} is not drawn from the supplied randomness for this proof", k, x));
                        }
                        if !used.insert(x.clone()) {
                            return Err(format!("proof {}: blinding scalar {} is used twice", k, x));
                        }
                    }
                    for (n, g, w) in proof_diff(&q, &p, F::unit(&r), F::unit(&s), &pr) {
                        d.push((format!("proof {} {}", k, n), g, w));
                    }
                }
                Ok(d)
            });
        });
    }
}
