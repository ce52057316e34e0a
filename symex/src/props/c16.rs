//! C15, C16, C17: evaluation domains.
use crate::field::*;
use crate::gad::*;
use crate::poly::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::domain::{EvaluationDomain, Scalar};
use bellman::multicore::Worker;
use bellman::SynthesisError;
use ff::{Field, PrimeField};

fn pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}
fn atoms<C: Cfg>(n: usize, p: &str) -> Vec<SymF<C>> {
    (0..n).map(|i| SymF::atom(&format!("{}{}", p, i))).collect()
}
fn dom<C: Cfg>(v: &[SymF<C>]) -> Option<EvaluationDomain<SymF<C>, Scalar<SymF<C>>>> {
    EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).ok()
}
fn vals<C: Cfg>(d: &EvaluationDomain<SymF<C>, Scalar<SymF<C>>>) -> Vec<SymF<C>> {
    d.as_ref().iter().map(|x| x.0).collect()
}
fn eval<C: Cfg>(c: &[SymF<C>], x: SymF<C>) -> SymF<C> {
    c.iter().rev().fold(SymF::ZERO, |a, c| a * x + *c)
}
fn settle(rep: &mut Report, label: &str, gs: Vec<(String, G)>) {
    let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
    let all = G::All(gs.iter().map(|g| g.1.clone()).collect());
    decide(rep, label, &sys, &all, &|m| {
        let bad = gs.iter().find(|g| !eval_goal(&g.1, m)).ok_or("no failing claim")?;
        Ok(format!("{}: {} at {}", label, bad.0, show_model(m)))
    });
}
fn eq<C: Cfg>(a: SymF<C>, b: SymF<C>) -> G {
    G::Zero((a - b).0)
}
fn f_name<C: Cfg>() -> String {
    format!("{} (two-adicity {})", if C::MODULUS.len() > 20 { "BLS12-381 scalar field" } else { C::MODULUS }, C::S)
}

// ---------------------------------------------------------------- C15
pub fn run15(rep: &mut Report) {
    rep.func("EvaluationDomain::{from_coeffs, into_coeffs, as_ref, as_mut}");
    let top = if Report::thorough() { 600 } else { 150 };
    rep.bound(&format!("lengths 0..={} with symbolic coefficients; fields with two-adicity 32, 12, 10, 5, 4, 2, 1", top));
    fn sizes<C: Cfg>(rep: &mut Report, top: usize) {
        init_cfg::<C>();
        let mut gs = vec![];
        for n in 0..=top {
            rep.paths += 1;
            let c = atoms::<C>(n, "c");
            let mut want = 1usize;
            let mut log = 0;
            while want < n {
                want *= 2;
                log += 1;
            }
            let too_big = log > 0 && log >= C::S;
            let r = EvaluationDomain::from_coeffs(c.iter().map(|x| Scalar(*x)).collect::<Vec<_>>());
            match r {
                Err(SynthesisError::PolynomialDegreeTooLarge) => rep.require(too_big, "unexpected error", || format!("length {} rejected in field {}", n, f_name::<C>())),
                Err(e) => rep.violation("error kind", &format!("length {}: {:?}", n, e), "from_coeffs"),
                Ok(mut d) => {
                    let l = d.as_ref().len();
                    rep.require(!too_big && l == want && d.as_mut().len() == want, "domain size", || format!("length {} in field {}: domain size {} (smallest power of two {}, too large: {})", n, f_name::<C>(), l, want, too_big));
                    for (i, v) in d.into_coeffs().into_iter().enumerate() {
                        let e = c.get(i).cloned().unwrap_or(SymF::ZERO);
                        gs.push((format!("length {} coefficient {}", n, i), eq::<C>(v.0, e)));
                    }
                }
            }
        }
        settle(rep, &format!("padding {}", f_name::<C>()), gs);
    }
    sizes::<Bls>(rep, top);
    sizes::<P12289>(rep, top);
    sizes::<P64513>(rep, if Report::thorough() { 1100 } else { 600 });
    sizes::<P97>(rep, 70);
    sizes::<P17>(rep, 40);
    sizes::<P13>(rep, 20);
    sizes::<PM61>(rep, 9);
}

// ---------------------------------------------------------------- C16
fn fft_case<C: Cfg>(rep: &mut Report, n: usize, th: usize) {
    let label = format!("size {} {} threads {}", n, if C::MODULUS.len() > 20 { "BLS" } else { C::MODULUS }, th);
    explore::<C>(rep, &label, |rep, _| {
        rep.paths += 1;
        let c = atoms::<C>(n, "c");
        let mut m = 1;
        let mut log = 0;
        while m < n {
            m *= 2;
            log += 1;
        }
        if log > 0 && log >= C::S {
            return;
        }
        let (f, i, cf, ic, fi, icf, probe, cprobe) = pool(th, || {
            let w = Worker::new();
            let run = |v: &[SymF<C>], k: u8| {
                let mut d = dom::<C>(v).expect("domain");
                match k {
                    0 => d.fft(&w),
                    1 => d.ifft(&w),
                    2 => d.coset_fft(&w),
                    _ => d.icoset_fft(&w),
                }
                vals(&d)
            };
            let mut x = vec![SymF::ZERO; m];
            x[m.min(2) - 1] = SymF::ONE;
            let f = run(&c, 0);
            let cf = run(&c, 2);
            (f.clone(), run(&c, 1), cf.clone(), run(&c, 3), run(&f, 1), run(&cf, 3), run(&x, 0), run(&x, 2))
        });
        // the root used is a primitive m-th root of unity
        let w = if m == 1 { SymF::ONE } else { probe[1] };
        let half = w.pow_vartime([(m / 2) as u64]);
        let prim = if m == 1 { w.same(&SymF::ONE) } else { half.same(&-SymF::ONE) };
        rep.require(prim, "primitive root", || format!("{}: the second evaluation point {} is not a primitive {}-th root of unity", label, w.show(), m));
        // the coset shift does not meet the domain
        let g = if m == 1 { SymF::MULTIPLICATIVE_GENERATOR } else { cprobe[0] };
        rep.require(arena().as_const(g.0).is_some() && !g.pow_vartime([m as u64]).same(&SymF::ONE) && g.0 != H_ZERO, "coset shift", || format!("{}: the coset shift {} lies in the domain", label, g.show()));
        let mut gs = vec![];
        let mut pad = c.clone();
        pad.resize(m, SymF::ZERO);
        let minv = SymF::<C>::from(m as u64).invert().unwrap();
        let winv = w.invert().unwrap();
        let ginv = g.invert().unwrap();
        let mut wi = SymF::ONE;
        let mut wn = SymF::ONE;
        let mut gi = SymF::ONE;
        for j in 0..m {
            gs.push((format!("fft[{}]", j), eq(f[j], eval(&pad, wi))));
            gs.push((format!("coset_fft[{}]", j), eq(cf[j], eval(&pad, g * wi))));
            gs.push((format!("ifft[{}]", j), eq(i[j], eval(&pad, wn) * minv)));
            gs.push((format!("icoset_fft[{}]", j), eq(ic[j], eval(&pad, wn) * minv * gi)));
            gs.push((format!("ifft(fft)[{}]", j), eq(fi[j], pad[j])));
            gs.push((format!("icoset_fft(coset_fft)[{}]", j), eq(icf[j], pad[j])));
            wi *= w;
            wn *= winv;
            gi *= ginv;
        }
        settle(rep, &label, gs);
    });
}
pub fn run16(rep: &mut Report) {
    rep.func("EvaluationDomain::{fft, ifft, coset_fft, icoset_fft, distribute_powers}, best_fft, serial_fft, parallel_fft, Worker::{scope, log_num_threads}");
    let thorough = Report::thorough();
    let max = if thorough { 256 } else { 64 };
    rep.bound(&format!("lengths 1..={} (all domain sizes up to {}) with symbolic coefficients; thread pools of 1, 2, 3, 4, 5, 8 and 16 threads; BLS12-381 scalar field and the primes 12289, 97, 64513", max, max));
    for th in [1, 2, 3, 4, 5, 8, 16] {
        let lens: Vec<usize> = if thorough { (1..=34).chain([63, 64, 65, 127, 128, 256]).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 64] };
        for n in lens {
            fft_case::<Bls>(rep, n, th);
        }
        if !thorough && th != 4 {
            fft_case::<Bls>(rep, 32, th);
        }
        fft_case::<P97>(rep, 16, th);
        fft_case::<P12289>(rep, 16, th);
        fft_case::<P64513>(rep, 8, th);
    }
}

// ---------------------------------------------------------------- C17
fn quotient<C: Cfg>(rep: &mut Report, n: usize, th: usize) {
    let label = format!("quotient size {} {} threads {}", n, if C::MODULUS.len() > 20 { "BLS" } else { C::MODULUS }, th);
    explore::<C>(rep, &label, |rep, _| {
        rep.paths += 1;
        let mut m = 1;
        while m < n {
            m *= 2;
        }
        let a = atoms::<C>(n, "a");
        let b = atoms::<C>(n, "b");
        let c = atoms::<C>(n, "c");
        let ab: Vec<SymF<C>> = a.iter().zip(&b).map(|(x, y)| *x * *y).collect();
        let t = SymF::<C>::atom("tau");
        let (prod, diff, div, z, pa, pb, pc, h, one) = pool(th, || {
            let w = Worker::new();
            // point-wise operations
            let mut p = dom::<C>(&a).unwrap();
            p.mul_assign(&w, &dom::<C>(&b).unwrap());
            let mut d = dom::<C>(&a).unwrap();
            d.sub_assign(&w, &dom::<C>(&c).unwrap());
            let mut q = dom::<C>(&a).unwrap();
            q.divide_by_z_on_coset(&w);
            // interpolants of the prover's evaluation vectors
            let interp = |v: &[SymF<C>]| {
                let mut d = dom::<C>(v).unwrap();
                d.ifft(&w);
                d
            };
            let (mut da, mut db, mut dc) = (interp(&a), interp(&b), interp(&ab));
            let (va, vb, vc) = (vals(&da), vals(&db), vals(&dc));
            // the prover's sequence
            da.coset_fft(&w);
            db.coset_fft(&w);
            dc.coset_fft(&w);
            da.mul_assign(&w, &db);
            da.sub_assign(&w, &dc);
            da.divide_by_z_on_coset(&w);
            da.icoset_fft(&w);
            let mut one = vec![SymF::ZERO; m];
            one[0] = SymF::ONE;
            let mut o = dom::<C>(&one).unwrap();
            o.coset_fft(&w);
            (vals(&p), vals(&d), vals(&q), p.z(&t), va, vb, vc, vals(&da), vals(&o))
        });
        let mut gs = vec![];
        let pad = |v: &[SymF<C>], i: usize| v.get(i).cloned().unwrap_or(SymF::ZERO);
        // z on the coset: shift^m - 1, with the shift found from the transform of the monomial x
        let g = pool(th, || {
            let w = Worker::new();
            let mut x = vec![SymF::ZERO; m.max(2)];
            x[1] = SymF::ONE;
            let mut d = dom::<C>(&x).unwrap();
            d.coset_fft(&w);
            d.as_ref()[0].0
        });
        let zc = g.pow_vartime([m as u64]) - SymF::ONE;
        for i in 0..m {
            gs.push((format!("mul_assign[{}]", i), eq(prod[i], pad(&a, i) * pad(&b, i))));
            gs.push((format!("sub_assign[{}]", i), eq(diff[i], pad(&a, i) - pad(&c, i))));
            gs.push((format!("divide_by_z_on_coset[{}]", i), eq(div[i] * zc, pad(&a, i))));
            gs.push((format!("constant polynomial on coset[{}]", i), eq(one[i], SymF::ONE)));
        }
        gs.push(("z".into(), eq(z, t.pow_vartime([m as u64]) - SymF::ONE)));
        // polynomial identity H * (x^m - 1) = A*B - C, coefficient by coefficient
        let mut lhs = vec![SymF::<C>::ZERO; 2 * m];
        for i in 0..m {
            lhs[i] -= h[i];
            lhs[i + m] += h[i];
        }
        let mut rhs = vec![SymF::<C>::ZERO; 2 * m];
        for i in 0..m {
            for j in 0..m {
                rhs[i + j] += pa[i] * pb[j];
            }
            rhs[i] -= pc[i];
        }
        for i in 0..2 * m {
            gs.push((format!("(H*Z - (A*B - C))[{}]", i), eq(lhs[i], rhs[i])));
        }
        settle(rep, &label, gs);
    });
}
pub fn run17(rep: &mut Report) {
    rep.func("EvaluationDomain::{mul_assign, sub_assign, z, divide_by_z_on_coset} and the ifft/coset_fft/icoset_fft sequence of create_proof");
    let thorough = Report::thorough();
    rep.bound(&format!("lengths 1..={}, evaluation vectors of A, B and (for the point-wise operations) C symbolic, C = A*B on the domain for the quotient; thread pools of 1, 2, 3, 4 and 8 threads; BLS12-381 scalar field, 12289, 97", if thorough { 16 } else { 8 }));
    for th in [1, 2, 3, 4, 8] {
        let lens: &[usize] = if thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16] } else { &[1, 2, 3, 4, 5, 7, 8] };
        for n in lens {
            quotient::<Bls>(rep, *n, th);
        }
        quotient::<P97>(rep, 8, th);
        quotient::<P12289>(rep, 4, th);
    }
}
