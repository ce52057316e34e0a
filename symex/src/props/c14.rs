//! C14: the test constraint system.
use crate::field::*;
use crate::gad::*;
use crate::r1cs::*;
use crate::report::Report;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, LinearCombination, Variable};
use ff::Field;

type C = BlsH;
type S = SymF<C>;

/// variable list: ONE, inputs, aux
struct Sysm {
    cs: TestConstraintSystem<S>,
    vars: Vec<Variable>,
    paths: Vec<String>,
    vals: Vec<S>,
    cons: Vec<[Vec<(usize, S)>; 3]>,
    cpaths: Vec<String>,
}
fn lc(vars: &[Variable], t: &[(usize, S)]) -> LinearCombination<S> {
    let mut l = LinearCombination::zero();
    for (v, c) in t {
        l = l + (*c, vars[*v]);
    }
    l
}
fn mk(kinds: &str) -> Sysm {
    let mut s = Sysm { cs: TestConstraintSystem::new(), vars: vec![TestConstraintSystem::<S>::one()], paths: vec!["ONE".into()], vals: vec![S::ONE], cons: vec![], cpaths: vec![] };
    let mut depth = vec![];
    for (i, k) in kinds.chars().enumerate() {
        let n = format!("v{}", i);
        let val = S::atom(&n);
        match k {
            'i' | 'a' => {
                let v = if k == 'i' { s.cs.alloc_input(|| n.clone(), || Ok(val)) } else { s.cs.alloc(|| n.clone(), || Ok(val)) }.unwrap();
                s.vars.push(v);
                let mut p: Vec<String> = depth.clone();
                p.push(n);
                s.paths.push(p.join("/"));
                s.vals.push(val);
            }
            '(' => {
                s.cs.push_namespace(|| n.clone());
                depth.push(n);
            }
            _ => {
                s.cs.pop_namespace();
                depth.pop();
            }
        }
    }
    s
}
impl Sysm {
    fn enforce(&mut self, name: &str, t: [Vec<(usize, S)>; 3]) {
        let v = self.vars.clone();
        let (a, b, c) = (lc(&v, &t[0]), lc(&v, &t[1]), lc(&v, &t[2]));
        self.cs.enforce(|| name.to_string(), |_| a, |_| b, |_| c);
        self.cons.push(t);
        self.cpaths.push(name.into());
    }
    fn eval(&self, t: &[(usize, S)]) -> S {
        let mut r = S::ZERO;
        for (v, c) in t {
            r += self.vals[*v] * c;
        }
        r
    }
    fn residual(&self, i: usize) -> S {
        let c = &self.cons[i];
        self.eval(&c[0]) * self.eval(&c[1]) - self.eval(&c[2])
    }
}
fn at(n: String) -> S {
    S::atom(&n)
}
fn not(g: G) -> G {
    G::Not(Box::new(g))
}
fn dec_all(rep: &mut Report, label: &str, goals: Vec<(String, G)>) {
    let sys = Sys { cons: vec![], hyp: region_hyp(), bools: Default::default(), elim: vec![], no_elim: true };
    let all = G::All(goals.iter().map(|g| g.1.clone()).collect());
    decide(rep, label, &sys, &all, &|m| {
        let bad = goals.iter().find(|g| !eval_goal(&g.1, m)).ok_or("no failing claim")?;
        Ok(format!("{} at {}", bad.0, show_model(m)))
    });
}
pub fn run(rep: &mut Report) {
    rep.func("TestConstraintSystem::{new,alloc,alloc_input,enforce,which_is_unsatisfied,is_satisfied,verify,set,get,get_input,num_constraints,num_inputs,hash}, proc_lc, hash_lc, eval_lc");
    rep.bound("1..3 constraints whose linear combinations have 1..3 terms with symbolic coefficients over ONE, two inputs and two auxiliary variables with symbolic values (BLS12-381 scalar field); every subset of satisfied constraints; allocation orders and namespaces from a fixed list; hashes of pairs of constraints with up to 3 terms in every order, with repeated and zero terms; hashes of up to 3 terms split in every two ways over the linear combinations of one or two constraints");
    rep.assume("BLAKE2s is treated as injective on the inputs compared; the byte encoding of a coefficient is injective");
    // verdicts
    let layouts = ["iaia", "aaii", "i(a)(i(a))", "(ii)aa"];
    for lay in layouts {
        for n in 1..=3usize {
            explore::<C>(rep, "which_is_unsatisfied", |rep, _| {
                rep.paths += 1;
                let mut s = mk(lay);
                for i in 0..n {
                    let t = |k: usize, v: &[usize]| -> Vec<(usize, S)> { v.iter().enumerate().map(|(j, v)| (*v, at(format!("k{}_{}_{}", i, k, j)))).collect() };
                    let (a, b, c) = match i {
                        0 => (t(0, &[1, 3]), t(1, &[2]), t(2, &[4, 0, 4])),
                        1 => (t(0, &[0]), t(1, &[3, 1]), t(2, &[2, 0])),
                        _ => (t(0, &[4]), t(1, &[4]), t(2, &[1, 0])),
                    };
                    s.enforce(&format!("c{}", i), [a, b, c]);
                }
                let w = s.cs.which_is_unsatisfied().map(|x| x.to_string());
                let sat = s.cs.is_satisfied();
                rep.require(sat == w.is_none(), "is_satisfied", || format!("is_satisfied = {} but which_is_unsatisfied = {:?}", sat, w));
                let first = match &w {
                    None => n,
                    Some(p) => match s.cpaths.iter().position(|x| x == p) {
                        Some(i) => i,
                        None => {
                            rep.violation("unknown path", &format!("unsatisfied constraint is reported as {}", p), p);
                            return;
                        }
                    },
                };
                let mut gs = vec![];
                for i in 0..n.min(first) {
                    gs.push((format!("constraint {} is reported to hold", i), G::Zero(s.residual(i).0)));
                }
                if first < n {
                    gs.push((format!("constraint {} is reported to fail", first), not(G::Zero(s.residual(first).0))));
                }
                rep.require(s.cs.num_constraints() == n && s.cs.num_inputs() == 3, "counts", || format!("counts {} {}", s.cs.num_constraints(), s.cs.num_inputs()));
                dec_all(rep, &format!("verdict {} {}", lay, n), gs);
            });
        }
        // verify
        explore::<C>(rep, "verify", |rep, _| {
            rep.paths += 1;
            let s = mk(lay);
            let ins: Vec<usize> = (1..s.vars.len()).filter(|i| var_name(s.vars[*i]).starts_with('i')).collect();
            let exp: Vec<S> = (0..ins.len()).map(|i| at(format!("e{}", i))).collect();
            let v = s.cs.verify(&exp);
            let g = G::All(ins.iter().zip(&exp).map(|(i, e)| G::Zero((s.vals[*i] - *e).0)).collect());
            dec_all(rep, "verify", vec![(format!("verify returned {}", v), if v { g } else { not(g) })]);
            for bad in [ins.len() - 1, ins.len() + 1] {
                let e: Vec<S> = (0..bad).map(|i| if i < ins.len() { s.vals[ins[i]] } else { S::ZERO }).collect();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.cs.verify(&e)));
                rep.require(!matches!(r, Ok(true)), "verify length", || format!("{} expected inputs accepted for {}", bad, ins.len()));
            }
        });
        // set / get
        init_cfg::<C>();
        let n = mk(lay).vars.len();
        for i in 0..n {
            init_cfg::<C>();
            rep.paths += 1;
            let mut s = mk(lay);
            let p = s.paths[i].clone();
            let x = at("new".into());
            s.cs.set(&p, x);
            let mut gs = vec![];
            for j in 0..n {
                let got = s.cs.get(&s.paths[j].clone());
                let want = if i == j { x } else { s.vals[j] };
                gs.push((format!("after set({}) get({})", p, s.paths[j]), G::Zero((got - want).0)));
                if var_name(s.vars[j]).starts_with('i') {
                    let ix = (0..=j).filter(|k| var_name(s.vars[*k]).starts_with('i')).count() - 1;
                    let pj = s.paths[j].clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.cs.get_input(ix, &pj)));
                    match r {
                        Ok(v) => gs.push((format!("get_input({},{})", ix, pj), G::Zero((v - want).0))),
                        Err(_) => rep.violation("get_input", &format!("get_input({}, {}) panics", ix, pj), &pj),
                    }
                }
            }
            // a constraint sees the new value
            let vi = i;
            s.vals[i] = x;
            s.enforce("c", [vec![(vi, S::ONE)], vec![(0, S::ONE)], vec![(vi, S::ONE)]]);
            rep.require(s.cs.is_satisfied() || i == 0, "constraint after set", || "x * 1 = x is not satisfied".into());
            s.enforce("d", [vec![(vi, S::ONE)], vec![], vec![((i + 1) % n, at("kd".into()))]]);
            let w = s.cs.which_is_unsatisfied().map(|x| x.to_string());
            if i != 0 {
                gs.push(("constraint d".into(), if w.is_none() { G::Zero(s.residual(1).0) } else { not(G::Zero(s.residual(1).0)) }));
            }
            dec_all(rep, "set/get", gs);
            rep.require(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.cs.get("c"))).is_err(), "get of a constraint path", || "get() on a constraint path returned a value".into());
            rep.require(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.cs.get("nowhere"))).is_err(), "get of an unknown path", || "get() on an unknown path returned a value".into());
        }
    }
    // hashes: two one-constraint systems over the same variables
    let shapes: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![3], vec![4], vec![1, 3], vec![3, 1], vec![3, 3], vec![2, 2, 1], vec![1, 2, 2], vec![4, 0, 3]];
    let seed: usize = 0;
    for pos in 0..3usize {
        for (ia, sa) in shapes.iter().enumerate() {
            for (ib, sb) in shapes.iter().enumerate() {
                if ib < ia {
                    continue;
                }
                explore::<C>(rep, "hash", |rep, _| {
                    rep.paths += 1;
                    let build = |sh: &Vec<usize>, tag: &str| {
                        let mut s = mk("iiaa");
                        let t: Vec<(usize, S)> = sh.iter().enumerate().map(|(j, v)| (*v, at(format!("{}{}", tag, j)))).collect();
                        let mut c = [vec![(0, S::ONE)], vec![(3, S::ONE)], vec![(4, S::ONE)]];
                        c[pos] = t;
                        s.enforce("c", c);
                        s
                    };
                    let a = build(sa, "p");
                    let b = build(sb, "q");
                    let same = a.cs.hash() == b.cs.hash();
                    // combined coefficients; decide each equality so that both cases are explored
                    let comb = |s: &Sysm, v: usize| s.cons[0][pos].iter().filter(|t| t.0 == v).fold(S::ZERO, |x, t| x + t.1);
                    let mut gs = vec![];
                    for v in 0..5 {
                        let d = comb(&a, v) - comb(&b, v);
                        let _ = d == S::ZERO;
                        gs.push(G::Zero(d.0));
                    }
                    let g = G::All(gs);
                    dec_all(rep, "hash", vec![(format!("hashes of {:?} and {:?} in position {} equal = {}", sa, sb, pos, same), if same { g } else { not(g) })]);
                });
            }
        }
    }
    let _ = seed;
    // the same terms split differently over the linear combinations of one or two constraints
    let splits = |terms: usize, slots: usize| -> Vec<Vec<usize>> {
        // number of terms in each slot
        let mut out: Vec<Vec<usize>> = vec![vec![]];
        for s in 0..slots {
            let mut n = vec![];
            for o in &out {
                let used: usize = o.iter().sum();
                for x in 0..=terms - used {
                    if s + 1 == slots && used + x != terms {
                        continue;
                    }
                    let mut o = o.clone();
                    o.push(x);
                    n.push(o);
                }
            }
            out = n;
        }
        out
    };
    for (terms, slots) in [(vec![1usize], 3usize), (vec![1, 3], 3), (vec![3, 1], 3), (vec![1, 3, 4], 3), (vec![1], 6), (vec![2, 3], 6)] {
        let sp = splits(terms.len(), slots);
        for x in 0..sp.len() {
            for y in 0..x {
                explore::<C>(rep, "hash", |rep, _| {
                    rep.paths += 1;
                    let build = |cut: &Vec<usize>, tag: &str| {
                        let mut s = mk("iiaa");
                        let mut it = terms.iter().enumerate();
                        let mut l: Vec<Vec<(usize, S)>> = cut.iter().map(|n| (0..*n).map(|_| it.next().unwrap()).map(|(j, v)| (*v, at(format!("{}{}", tag, j)))).collect()).collect();
                        while !l.is_empty() {
                            let r = l.split_off(3);
                            let [a, b, c]: [Vec<(usize, S)>; 3] = l.try_into().unwrap();
                            s.enforce(&format!("c{}", r.len()), [a, b, c]);
                            l = r;
                        }
                        s
                    };
                    let a = build(&sp[x], "p");
                    let b = build(&sp[y], "p");
                    let same = a.cs.hash() == b.cs.hash();
                    let mut gs = vec![];
                    for i in 0..slots / 3 {
                        for pos in 0..3 {
                            for v in 0..5 {
                                let comb = |s: &Sysm| s.cons[i][pos].iter().filter(|t| t.0 == v).fold(S::ZERO, |x, t| x + t.1);
                                let d = comb(&a) - comb(&b);
                                let _ = d == S::ZERO;
                                gs.push(G::Zero(d.0));
                            }
                        }
                    }
                    let g = G::All(gs);
                    dec_all(rep, "hash", vec![(format!("hashes of the terms {:?} split as {:?} and {:?} equal = {}", terms, sp[x], sp[y], same), if same { g } else { not(g) })]);
                });
            }
        }
    }
    // hashes also depend on the counts and the order of constraints
    init_cfg::<C>();
    let h = |lay: &str, cons: &[usize]| {
        let mut s = mk(lay);
        for (i, v) in cons.iter().enumerate() {
            s.enforce(&format!("c{}", i), [vec![(*v, S::ONE)], vec![(1, S::ONE)], vec![]]);
        }
        s.cs.hash()
    };
    let hs = [h("ia", &[]), h("iaa", &[]), h("iia", &[]), h("ia", &[1]), h("ia", &[2]), h("ia", &[1, 2]), h("ia", &[2, 1]), h("ia", &[1, 1]), h("ai", &[1])];
    for i in 0..hs.len() {
        for j in 0..i {
            rep.require(hs[i] != hs[j], "hash of different systems", || format!("systems {} and {} hash equal", i, j));
        }
    }
}
