//! Recording constraint system and the translation of constraint systems to SMT-LIB.
use crate::big::*;
use crate::field::*;
use crate::poly::*;
use crate::smt::*;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Input(String),
    Aux(String),
    Enforce(String),
    Push(String),
    Pop,
}
/// A constraint system that records everything it is told.
pub struct Rec<S: PrimeField> {
    /// evaluate allocation closures
    pub eval: bool,
    /// evaluate annotations
    pub annot: bool,
    pub inputs: Vec<Option<S>>,
    pub aux: Vec<Option<S>>,
    pub cons: Vec<[Vec<(Variable, S)>; 3]>,
    pub events: Vec<Ev>,
    pub depth: i64,
}
impl<S: PrimeField> Rec<S> {
    pub fn new(eval: bool) -> Self {
        Rec { eval, annot: false, inputs: vec![Some(S::ONE)], aux: vec![], cons: vec![], events: vec![], depth: 0 }
    }
    pub fn val(&self, v: Variable) -> Option<S> {
        match v.get_unchecked() {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn eval_lc(&self, l: &[(Variable, S)]) -> Option<S> {
        let mut r = S::ZERO;
        for (v, c) in l {
            r += self.val(*v)? * c;
        }
        Some(r)
    }
    /// indices of constraints violated by the recorded values
    pub fn violated(&self) -> Vec<usize> {
        let mut out = vec![];
        for (i, c) in self.cons.iter().enumerate() {
            let a = self.eval_lc(&c[0]).expect("value");
            let b = self.eval_lc(&c[1]).expect("value");
            let d = self.eval_lc(&c[2]).expect("value");
            if a * b != d {
                out.push(i);
            }
        }
        out
    }
}
impl<S: PrimeField> ConstraintSystem<S> for Rec<S> {
    type Root = Self;
    fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let n = if self.annot { a().into() } else { String::new() };
        let v = if self.eval { Some(f()?) } else { None };
        self.aux.push(v);
        self.events.push(Ev::Aux(n));
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<S, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let n = if self.annot { a().into() } else { String::new() };
        let v = if self.eval { Some(f()?) } else { None };
        self.inputs.push(v);
        self.events.push(Ev::Input(n));
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, an: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
        LC: FnOnce(LinearCombination<S>) -> LinearCombination<S>,
    {
        let n = if self.annot { an().into() } else { String::new() };
        let a = a(LinearCombination::zero());
        let b = b(LinearCombination::zero());
        let c = c(LinearCombination::zero());
        self.cons.push([a.as_ref().to_vec(), b.as_ref().to_vec(), c.as_ref().to_vec()]);
        self.events.push(Ev::Enforce(n));
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let n = if self.annot { n().into() } else { String::new() };
        self.depth += 1;
        self.events.push(Ev::Push(n));
    }
    fn pop_namespace(&mut self) {
        self.depth -= 1;
        self.events.push(Ev::Pop);
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

pub fn var_name(v: Variable) -> String {
    match v.get_unchecked() {
        Index::Input(i) => format!("i{}", i),
        Index::Aux(i) => format!("a{}", i),
    }
}
/// The arena polynomial standing for an R1CS variable.
pub fn var_poly<C: Cfg>(v: Variable) -> SymF<C> {
    match v.get_unchecked() {
        Index::Input(0) => SymF::h(H_ONE),
        _ => SymF::atom(&var_name(v)),
    }
}
pub fn lc_poly<C: Cfg>(l: &[(Variable, SymF<C>)]) -> SymF<C> {
    let mut r = SymF::h(H_ZERO);
    for (v, c) in l {
        r += var_poly::<C>(*v) * c;
    }
    r
}

/// Boolean formulas over atoms (the independent specification side).
#[derive(Clone, Debug)]
pub enum B {
    C(bool),
    V(u32),
    N(Box<B>),
    And(Vec<B>),
    Or(Vec<B>),
    Xor(Vec<B>),
    Ite(Box<B>, Box<B>, Box<B>),
}
impl B {
    pub fn smt(&self) -> String {
        let l = |op: &str, v: &Vec<B>, e: &str| match v.len() {
            0 => e.to_string(),
            1 => v[0].smt(),
            _ => format!("({} {})", op, v.iter().map(|x| x.smt()).collect::<Vec<_>>().join(" ")),
        };
        match self {
            B::C(b) => b.to_string(),
            B::V(a) => format!("x{}", a),
            B::N(b) => format!("(not {})", b.smt()),
            B::And(v) => l("and", v, "true"),
            B::Or(v) => l("or", v, "false"),
            B::Xor(v) => l("xor", v, "false"),
            B::Ite(a, b, c) => format!("(ite {} {} {})", a.smt(), b.smt(), c.smt()),
        }
    }
    pub fn eval(&self, f: &dyn Fn(u32) -> bool) -> bool {
        match self {
            B::C(b) => *b,
            B::V(a) => f(*a),
            B::N(b) => !b.eval(f),
            B::And(v) => v.iter().all(|x| x.eval(f)),
            B::Or(v) => v.iter().any(|x| x.eval(f)),
            B::Xor(v) => v.iter().fold(false, |s, x| s ^ x.eval(f)),
            B::Ite(a, b, c) => {
                if a.eval(f) {
                    b.eval(f)
                } else {
                    c.eval(f)
                }
            }
        }
    }
    pub fn vars(&self, out: &mut BTreeSet<u32>) {
        match self {
            B::C(_) => {}
            B::V(a) => {
                out.insert(*a);
            }
            B::N(b) => b.vars(out),
            B::And(v) | B::Or(v) | B::Xor(v) => v.iter().for_each(|x| x.vars(out)),
            B::Ite(a, b, c) => {
                a.vars(out);
                b.vars(out);
                c.vars(out);
            }
        }
    }
    pub fn not(self) -> B {
        B::N(Box::new(self))
    }
    pub fn ite(a: B, b: B, c: B) -> B {
        B::Ite(Box::new(a), Box::new(b), Box::new(c))
    }
}
/// A claim about an assignment.
#[derive(Clone, Debug)]
pub enum G {
    /// polynomial is zero
    Zero(u32),
    /// polynomial equals the 0/1 value of the formula
    IsBool(u32, B),
    Not(Box<G>),
    Any(Vec<G>),
    All(Vec<G>),
    Bool(B),
}

pub enum Outcome {
    Holds,
    /// atom name -> value (decimal)
    Fails(BTreeMap<String, U256>),
    Unknown(String),
}

/// A system of constraints a*b = c over arena atoms.
pub struct Sys {
    pub cons: Vec<(u32, u32, u32)>,
    pub hyp: Vec<G>,
    pub bools: BTreeSet<u32>,
    pub elim: Vec<(u32, u32)>,
    pub no_elim: bool,
}

impl Sys {
    pub fn from_rec<C: Cfg>(r: &Rec<SymF<C>>) -> Sys {
        let mut cons = vec![];
        for c in &r.cons {
            cons.push((lc_poly(&c[0]).0, lc_poly(&c[1]).0, lc_poly(&c[2]).0));
        }
        Sys { cons, hyp: vec![], bools: BTreeSet::new(), elim: vec![], no_elim: false }
    }
    pub fn atoms_of(a: &Arena, h: u32) -> BTreeSet<u32> {
        a.get(h).0.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect()
    }
    /// Replace atoms by polynomials.
    pub fn subst(a: &mut Arena, h: u32, s: &BTreeMap<u32, u32>) -> u32 {
        let p = a.get(h).clone();
        if !p.0.iter().any(|(m, _)| m.iter().any(|x| s.contains_key(&x.0))) {
            return h;
        }
        let mut r = H_ZERO;
        let mut keep: Vec<(Mono, U256)> = vec![];
        for (m, c) in p.0 {
            if !m.iter().any(|x| s.contains_key(&x.0)) {
                keep.push((m, c));
                continue;
            }
            let mut t = a.constant(c);
            for (x, e) in m {
                let v = match s.get(&x) {
                    Some(v) => *v,
                    None => {
                        let one = a.m.one;
                        a.intern(Poly(vec![(vec![(x, 1)], one)]))
                    }
                };
                let v = if e < 0 { a.invert(v) } else { v };
                for _ in 0..e.abs() {
                    t = a.mul(t, v);
                }
            }
            r = a.add(r, t);
        }
        let k = a.intern(Poly(keep));
        a.add(r, k)
    }
    /// re-canonicalise after atoms became bits
    pub fn renorm(a: &mut Arena, h: u32) -> u32 {
        let p = a.get(h).clone();
        let mut acc: BTreeMap<Mono, U256> = BTreeMap::new();
        for (m, c) in p.0 {
            let m2: Mono = m
                .into_iter()
                .map(|(x, e)| (x, if a.atoms[x as usize].kind == Kind::Bit { 1 } else { e }))
                .collect();
            let e = acc.entry(m2).or_insert([0; 4]);
            *e = a.m.add(e, &c);
        }
        let r: Vec<_> = acc.into_iter().filter(|(_, c)| !is_zero(c)).collect();
        a.intern(Poly(r))
    }
    /// Infer which atoms can only be 0 or 1: some constraint, with every value of at most 4 known
    /// boolean atoms substituted, has no root outside {0,1} in the remaining atom.
    pub fn infer_bools(&mut self) {
        let mut a = arena();
        for (i, at) in a.atoms.iter().enumerate() {
            if at.kind == Kind::Bit {
                self.bools.insert(i as u32);
            }
        }
        let all: Vec<BTreeSet<u32>> = self
            .cons
            .iter()
            .map(|(x, y, z)| {
                let mut s = Self::atoms_of(&a, *x);
                s.extend(Self::atoms_of(&a, *y));
                s.extend(Self::atoms_of(&a, *z));
                s
            })
            .collect();
        loop {
            let mut changed = false;
            for (ci, (x, y, z)) in self.cons.iter().enumerate() {
                let unk: Vec<u32> = all[ci].iter().filter(|v| !self.bools.contains(v)).cloned().collect();
                if unk.len() != 1 || all[ci].len() > 5 {
                    continue;
                }
                let v = unk[0];
                let known: Vec<u32> = all[ci].iter().filter(|w| **w != v).cloned().collect();
                let mut ok = true;
                for k in 0..(1u32 << known.len()) {
                    let mut s = BTreeMap::new();
                    for (i, w) in known.iter().enumerate() {
                        s.insert(*w, if (k >> i) & 1 == 1 { H_ONE } else { H_ZERO });
                    }
                    let xs = Self::subst(&mut a, *x, &s);
                    let ys = Self::subst(&mut a, *y, &s);
                    let zs = Self::subst(&mut a, *z, &s);
                    // polynomial c0 + c1 v + c2 v^2
                    let pr = a.mul(xs, ys);
                    let pr = a.sub(pr, zs);
                    let mut c = [[0u64; 4]; 3];
                    for (mo, co) in &a.get(pr).0 {
                        let e = mo.first().map(|t| t.1).unwrap_or(0);
                        if !(0..=2).contains(&e) {
                            ok = false;
                        } else {
                            c[e as usize] = *co;
                        }
                    }
                    let m = &a.m;
                    // allowed: k*v, k*(v-1), k*v*(v-1) (k != 0)
                    let z0 = is_zero(&c[0]);
                    let sum = m.add(&m.add(&c[0], &c[1]), &c[2]);
                    let good = if is_zero(&c[2]) { !is_zero(&c[1]) && (z0 || is_zero(&sum)) } else { (z0 && is_zero(&sum)) || (z0 && is_zero(&c[1])) };
                    ok &= good;
                }
                if ok {
                    self.bools.insert(v);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let bs: Vec<u32> = self.bools.iter().cloned().collect();
        for b in bs {
            a.atoms[b as usize].kind = Kind::Bit;
        }
        for c in self.cons.iter_mut() {
            c.0 = Self::renorm(&mut a, c.0);
            c.1 = Self::renorm(&mut a, c.1);
            c.2 = Self::renorm(&mut a, c.2);
        }
    }
    /// Eliminate non-boolean atoms that a constraint determines linearly (constant coefficient).
    pub fn eliminate(&mut self) {
        if self.no_elim {
            return;
        }
        let mut a = arena();
        loop {
            let mut found = None;
            'o: for (ci, (x, y, z)) in self.cons.iter().enumerate() {
                let p = a.mul(*x, *y);
                let p = a.sub(p, *z);
                let poly = a.get(p).clone();
                for v in Self::atoms_of(&a, p) {
                    if self.bools.contains(&v) || a.atoms[v as usize].kind != Kind::Any || !a.atoms[v as usize].name.starts_with(['a', 'i']) {
                        continue;
                    }
                    let occ: Vec<_> = poly.0.iter().filter(|(m, _)| m.iter().any(|t| t.0 == v)).collect();
                    if occ.len() == 1 && occ[0].0.len() == 1 && occ[0].0[0].1 == 1 {
                        // p = c*v + rest  =>  v = -rest/c
                        let c = a.m.neg(&a.m.inv(&occ[0].1));
                        let rest = Poly(poly.0.iter().filter(|(m, _)| !m.iter().any(|t| t.0 == v)).cloned().collect());
                        if rest.0.len() > 64 {
                            continue;
                        }
                        let r = a.intern(rest);
                        let e = a.add_scaled(H_ZERO, r, &c);
                        found = Some((ci, v, e));
                        break 'o;
                    }
                }
            }
            match found {
                None => break,
                Some((ci, v, e)) => {
                    self.cons.remove(ci);
                    let s: BTreeMap<u32, u32> = [(v, e)].into_iter().collect();
                    for c in self.cons.iter_mut() {
                        c.0 = Self::subst(&mut a, c.0, &s);
                        c.1 = Self::subst(&mut a, c.1, &s);
                        c.2 = Self::subst(&mut a, c.2, &s);
                    }
                    for (_, f) in self.elim.iter_mut() {
                        *f = Self::subst(&mut a, *f, &s);
                    }
                    self.elim.push((v, e));
                }
            }
        }
    }
    fn fix(&self, a: &mut Arena, h: u32) -> u32 {
        let h = Self::renorm(a, h);
        let s: BTreeMap<u32, u32> = self.elim.iter().cloned().collect();
        Self::subst(a, h, &s)
    }

    /// Is `goal` true in every assignment satisfying the constraints?
    pub fn check(&mut self, label: &str, goal: &G) -> Outcome {
        self.infer_bools();
        self.eliminate();
        self.check_prepared(label, goal)
    }
    pub fn check_prepared(&self, label: &str, goal: &G) -> Outcome {
        let mut q = Query::new(label);
        let mut enc = Enc { decl: BTreeMap::new(), lines: vec![], fresh: 0, bools: &self.bools, opaque: BTreeMap::new(), p: arena().m.p };
        {
            let mut a = arena();
            for (x, y, z) in &self.cons {
                let s = enc.constraint(&mut a, *x, *y, *z);
                enc.lines.push(format!("(assert {})", s));
            }
            for h in &self.hyp {
                let s = self.goal_smt(&mut enc, &mut a, h);
                enc.lines.push(format!("(assert {})", s));
            }
            let s = self.goal_smt(&mut enc, &mut a, goal);
            enc.lines.push(format!("(assert (not {}))", s));
            enc.finish(&mut q);
        }
        match q.solve() {
            Res::Unsat => Outcome::Holds,
            Res::Unknown(w) => Outcome::Unknown(format!("{}: {}", label, w)),
            Res::Sat(m) => {
                // rebuild all atom values
                let a = arena();
                let mut val: BTreeMap<u32, U256> = BTreeMap::new();
                for (k, v) in &m {
                    if let Some(id) = k.strip_prefix('x').and_then(|x| x.parse::<u32>().ok()) {
                        let n = match v.as_str() {
                            "true" => [1, 0, 0, 0],
                            "false" => [0; 4],
                            d => from_dec(d),
                        };
                        val.insert(id, a.m.to(&n));
                    }
                }
                let base = val.clone();
                for (x, e) in &self.elim {
                    let v = a.eval(*e, &|t| base.get(&t).cloned().unwrap_or([0; 4]));
                    val.insert(*x, v);
                }
                Outcome::Fails(
                    a.atoms
                        .iter()
                        .enumerate()
                        .map(|(i, at)| (at.name.clone(), a.m.from(val.get(&(i as u32)).unwrap_or(&[0; 4]))))
                        .collect(),
                )
            }
        }
    }
    fn goal_smt(&self, enc: &mut Enc, a: &mut Arena, g: &G) -> String {
        match g {
            G::Zero(h) => {
                let h = self.fix(a, *h);
                enc.zero(a, h, None)
            }
            G::IsBool(h, b) => {
                let h = self.fix(a, *h);
                let mut vs = BTreeSet::new();
                b.vars(&mut vs);
                for v in vs {
                    assert!(self.bools.contains(&v), "SYMEX: spec variable {} is not constrained boolean", a.atoms[v as usize].name);
                    enc.decl.insert(v, true);
                }
                enc.zero(a, h, Some(b.smt()))
            }
            G::Not(g) => format!("(not {})", self.goal_smt(enc, a, g)),
            G::Any(v) => format!("(or false {})", v.iter().map(|g| self.goal_smt(enc, a, g)).collect::<Vec<_>>().join(" ")),
            G::All(v) => format!("(and true {})", v.iter().map(|g| self.goal_smt(enc, a, g)).collect::<Vec<_>>().join(" ")),
            G::Bool(b) => {
                let mut vs = BTreeSet::new();
                b.vars(&mut vs);
                for v in vs {
                    enc.decl.insert(v, true);
                }
                b.smt()
            }
        }
    }
}

/// Evaluate a claim at an assignment.
pub fn eval_goal(g: &G, vals: &BTreeMap<String, U256>) -> bool {
    let a = arena();
    eval_goal_in(&a, g, vals)
}
fn eval_goal_in(a: &Arena, g: &G, vals: &BTreeMap<String, U256>) -> bool {
    let get = |x: u32| a.m.to(vals.get(&a.atoms[x as usize].name).unwrap_or(&[0; 4]));
    match g {
        G::Zero(h) => is_zero(&a.eval(*h, &get)),
        G::IsBool(h, b) => {
            let v = a.m.from(&a.eval(*h, &get));
            let e = b.eval(&|x| !is_zero(&get(x)));
            v == [e as u64, 0, 0, 0]
        }
        G::Not(g) => !eval_goal_in(a, g, vals),
        G::Any(v) => v.iter().any(|g| eval_goal_in(a, g, vals)),
        G::All(v) => v.iter().all(|g| eval_goal_in(a, g, vals)),
        G::Bool(b) => b.eval(&|x| !is_zero(&get(x))),
    }
}

pub struct Enc<'s> {
    pub decl: BTreeMap<u32, bool>,
    pub lines: Vec<String>,
    fresh: usize,
    pub bools: &'s BTreeSet<u32>,
    opaque: BTreeMap<Mono, String>,
    p: U256,
}
impl<'s> Enc<'s> {
    pub fn new(bools: &'s BTreeSet<u32>) -> Self {
        Enc { decl: BTreeMap::new(), lines: vec![], fresh: 0, bools, opaque: BTreeMap::new(), p: arena().m.p }
    }
    pub fn constraint(&mut self, a: &mut Arena, x: u32, y: u32, z: u32) -> String {
        if z == H_ZERO {
            let l = self.zero(a, x, None);
            let r = self.zero(a, y, None);
            return format!("(or {} {})", l, r);
        }
        let p = a.mul(x, y);
        let p = a.sub(p, z);
        self.zero(a, p, None)
    }
    /// SMT formula for `poly = ite(extra,1,0)` modulo p (`poly = 0` without extra).
    pub fn zero(&mut self, a: &mut Arena, h: u32, extra: Option<String>) -> String {
        // shortcut: c*x = 0, c*(1-x) = 0
        let poly = a.get(h).clone();
        // terms: (positive?, magnitude, boolean condition or "", field term or "")
        let mut terms: Vec<(bool, U256, String, Option<String>)> = vec![];
        let mut cst = [0u64; 4];
        for (mo, c) in &poly.0 {
            let mut bs = vec![];
            let mut fs: Mono = vec![];
            for (x, e) in mo {
                if self.bools.contains(x) {
                    self.decl.insert(*x, true);
                    bs.push(format!("x{}", x));
                } else {
                    fs.push((*x, *e));
                }
            }
            let f = if fs.is_empty() {
                None
            } else if fs.len() == 1 && fs[0].1 == 1 {
                self.decl.insert(fs[0].0, false);
                Some(format!("x{}", fs[0].0))
            } else {
                let n = self.opaque.len();
                for (x, _) in &fs {
                    self.decl.insert(*x, false);
                }
                Some(self.opaque.entry(fs).or_insert(format!("m{}", n)).clone())
            };
            let v = a.m.from(c);
            if bs.is_empty() && f.is_none() {
                cst = v;
                continue;
            }
            let neg = sub(&self.p, &v).0;
            let (pos, mag) = if cmp(&neg, &v) == std::cmp::Ordering::Less { (false, neg) } else { (true, v) };
            let cond = match bs.len() {
                0 => String::new(),
                1 => bs[0].clone(),
                _ => format!("(and {})", bs.join(" ")),
            };
            terms.push((pos, mag, cond, f));
        }
        if let Some(e) = extra {
            terms.push((false, [1, 0, 0, 0], e, None));
        }
        if !is_zero(&cst) {
            let neg = sub(&self.p, &cst).0;
            let (pos, mag) = if cmp(&neg, &cst) == std::cmp::Ordering::Less { (false, neg) } else { (true, cst) };
            terms.push((pos, mag, "true".into(), None));
        }
        if terms.is_empty() {
            return "true".into();
        }
        let any_field = terms.iter().any(|t| t.3.is_some());
        if any_field {
            self.zero_int(terms)
        } else {
            self.zero_bv(terms)
        }
    }
    fn zero_int(&mut self, terms: Vec<(bool, U256, String, Option<String>)>) -> String {
        let mut s = vec![];
        for (pos, mag, cond, f) in terms {
            let m = if pos { dec(&mag) } else { format!("(- {})", dec(&mag)) };
            let t = match f {
                None => m,
                Some(f) if mag == [1, 0, 0, 0] && pos => f,
                Some(f) => format!("(* {} {})", m, f),
            };
            s.push(if cond.is_empty() || cond == "true" { t } else { format!("(ite {} {} 0)", cond, t) });
        }
        let sum = if s.len() == 1 { s[0].clone() } else { format!("(+ {})", s.join(" ")) };
        format!("(= (mod {} {}) 0)", sum, dec(&self.p))
    }
    fn zero_bv(&mut self, terms: Vec<(bool, U256, String, Option<String>)>) -> String {
        // integer range of each side
        let mut tot = [Int::small(0), Int::small(0)];
        let mut tmin = [Int::small(0), Int::small(0)];
        for (pos, mag, cond, _) in &terms {
            let i = *pos as usize;
            tot[i] = tot[i].add(&Int::from_u256(mag));
            if cond == "true" {
                tmin[i] = tmin[i].add(&Int::from_u256(mag));
            }
        }
        let p = Int::from_u256(&self.p);
        // L - R = k p with L in [tmin1, tot1], R in [tmin0, tot0]
        let hi = tot[1].add(&tmin[0].neg());
        let lo = tmin[1].add(&tot[0].neg());
        let mut ks = vec![];
        let mut k = 0i64;
        loop {
            let v = p.mul_u64(k.unsigned_abs());
            if hi.lt(&v) || k > 2000 {
                break;
            }
            if !v.lt(&lo) {
                ks.push(k);
            }
            k += 1;
        }
        let mut k = -1i64;
        loop {
            let v = p.mul_u64(k.unsigned_abs()).neg();
            if v.lt(&lo) || k < -2000 {
                break;
            }
            if !hi.lt(&v) {
                ks.push(k);
            }
            k -= 1;
        }
        if ks.is_empty() {
            return "false".into();
        }
        // small cases over booleans: single literals
        let w = tot[0].nbits().max(tot[1].nbits()).max(ks.iter().map(|k| p.mul_u64(k.unsigned_abs()).nbits()).max().unwrap_or(0) + 1) + 1;
        let side = |s: bool| -> Vec<String> {
            let mut words: Vec<Vec<Option<String>>> = vec![];
            let mut wide: Vec<String> = vec![];
            for (pos, mag, cond, _) in &terms {
                if *pos != s {
                    continue;
                }
                let pc: u32 = mag.iter().map(|l| l.count_ones()).sum();
                if cond == "true" || pc > 3 {
                    let c = format!("(_ bv{} {})", dec(mag), w);
                    wide.push(if cond == "true" { c } else { format!("(ite {} {} (_ bv0 {}))", cond, c, w) });
                } else {
                    for i in 0..256 {
                        if bit(mag, i) {
                            let mut j = 0;
                            loop {
                                if j == words.len() {
                                    words.push(vec![None; w]);
                                }
                                if words[j][i].is_none() {
                                    words[j][i] = Some(cond.clone());
                                    break;
                                }
                                j += 1;
                            }
                        }
                    }
                }
            }
            for wd in words {
                let mut parts: Vec<String> = vec![];
                let mut z = 0;
                for b in wd.iter().rev() {
                    match b {
                        None => z += 1,
                        Some(c) => {
                            if z > 0 {
                                parts.push(format!("(_ bv0 {})", z));
                                z = 0;
                            }
                            parts.push(format!("(ite {} #b1 #b0)", c));
                        }
                    }
                }
                if z > 0 {
                    parts.push(format!("(_ bv0 {})", z));
                }
                let s = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(concat {})", parts.join(" ")) };
                wide.push(s);
            }
            wide
        };
        let l = side(true);
        let r = side(false);
        let mk = |mut v: Vec<String>, k: i64| -> String {
            if k != 0 {
                v.push(format!("(_ bv{} {})", p.mul_u64(k.unsigned_abs()).dec(), w));
            }
            match v.len() {
                0 => format!("(_ bv0 {})", w),
                1 => v[0].clone(),
                _ => format!("(bvadd {})", v.join(" ")),
            }
        };
        // L = R + k p (k >= 0) or L + |k| p = R
        let mut alts = vec![];
        for k in ks {
            let (a, b) = if k >= 0 { (mk(l.clone(), 0), mk(r.clone(), k)) } else { (mk(l.clone(), k), mk(r.clone(), 0)) };
            alts.push(format!("(= {} {})", a, b));
        }
        if alts.len() == 1 {
            alts.pop().unwrap()
        } else {
            format!("(or {})", alts.join(" "))
        }
    }
    pub fn finish(&mut self, q: &mut Query) {
        let p = dec(&self.p);
        for (x, b) in &self.decl {
            if *b || self.bools.contains(x) {
                q.line(&format!("(declare-fun x{} () Bool)", x));
            } else {
                q.line(&format!("(declare-fun x{} () Int)", x));
                q.line(&format!("(assert (and (<= 0 x{}) (< x{} {})))", x, x, p));
            }
            q.want.push(format!("x{}", x));
        }
        for (mo, n) in &self.opaque {
            q.line(&format!("(declare-fun {} () Int)", n));
            q.line(&format!("(assert (and (<= 0 {}) (< {} {})))", n, n, p));
            {
                // no zero divisors
                let z: Vec<String> = mo.iter().map(|t| format!("(= x{} 0)", t.0)).collect();
                q.line(&format!("(assert (= (= {} 0) (or false {})))", n, z.join(" ")));
            }
        }
        for l in &self.lines {
            q.line(l);
        }
    }
}
