//! Global arena of hash-consed canonical Laurent polynomials over named atoms.
use crate::big::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Mutex, MutexGuard};

pub type Mono = Vec<(u32, i32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, U256)>); // sorted by monomial, coefficients non-zero, Montgomery form

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// any field element
    Any,
    /// any non-zero field element (may be inverted)
    Unit,
    /// zero or one (x^2 = x)
    Bit,
}
#[derive(Clone)]
pub struct Atom {
    pub name: String,
    pub kind: Kind,
}

pub struct Arena {
    pub m: Mont,
    pub polys: Vec<Poly>,
    index: HashMap<Poly, u32>,
    pub atoms: Vec<Atom>,
    by_name: HashMap<String, u32>,
    /// substitution for atoms (active in this run): atom name -> polynomial over earlier atoms
    pub subst: BTreeMap<String, Poly>,
    /// polynomials (monic) assumed non-zero when asked, in order
    pub asked: Vec<u32>,
    asked_set: HashSet<u32>,
    /// constants reserved for associated consts
    pub rand_ctr: usize,
    pub rand_prefix: String,
    pub tags: Vec<u32>,
    tag_of: HashMap<u32, usize>,
    pub gels: Vec<Vec<(u32, Int)>>,
    pub ops: u64,
    /// refuse generic decisions (panic) when set
    pub no_fork: bool,
    /// inverse atoms: atom id -> polynomial id it inverts
    pub inv_of: Vec<(u32, u32)>,
}

pub const H_ZERO: u32 = 0;
pub const H_ONE: u32 = 1;
pub const H_TWO_INV: u32 = 2;
pub const H_GEN: u32 = 3;
pub const H_ROOT: u32 = 4;
pub const H_ROOT_INV: u32 = 5;
pub const H_DELTA: u32 = 6;

static ARENA: Mutex<Option<Arena>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<Arena>>);
impl std::ops::Deref for Guard {
    type Target = Arena;
    fn deref(&self) -> &Arena {
        self.0.as_ref().expect("arena not initialised")
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Arena {
        self.0.as_mut().expect("arena not initialised")
    }
}
pub fn arena() -> Guard {
    Guard(match ARENA.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    })
}
/// (Re)initialise the arena for a modulus; all earlier handles become invalid.
pub fn init(p: U256, s: u32, gen: u64) {
    let m = Mont::new(p);
    let mut g = match ARENA.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let mut a = Arena {
        m: m.clone(),
        polys: vec![],
        index: HashMap::new(),
        atoms: vec![],
        by_name: HashMap::new(),
        subst: BTreeMap::new(),
        asked: vec![],
        asked_set: HashSet::new(),
        rand_ctr: 0,
        rand_prefix: "rnd".into(),
        tags: vec![],
        tag_of: HashMap::new(),
        gels: vec![vec![]],
        ops: 0,
        no_fork: false,
        inv_of: vec![],
    };
    // reserved constants; stored positionally even if two of them coincide
    let mut e = sub(&p, &[1, 0, 0, 0]).0;
    for _ in 0..s {
        for i in 0..4 {
            e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 };
        }
    }
    let gen = m.u64(gen);
    let root = m.pow(&gen, &e);
    let mut two_s = [0u64; 4];
    two_s[(s / 64) as usize] = 1 << (s % 64);
    let delta = m.pow(&gen, &two_s);
    for c in [[0; 4], m.one, m.inv(&m.u64(2)), gen, root, m.inv(&root), delta] {
        let poly = if is_zero(&c) { Poly(vec![]) } else { Poly(vec![(vec![], c)]) };
        let id = a.polys.len() as u32;
        a.polys.push(poly.clone());
        a.index.entry(poly).or_insert(id);
    }
    *g = Some(a);
}

fn mono_mul(a: &Mono, b: &Mono, atoms: &[Atom]) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            let at = a[i].0;
            if atoms[at as usize].kind == Kind::Bit {
                r.push((at, 1));
            } else if e != 0 {
                r.push((at, e));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

impl Arena {
    pub fn intern(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.index.get(&p) {
            return *i;
        }
        let id = self.polys.len() as u32;
        self.index.insert(p.clone(), id);
        self.polys.push(p);
        id
    }
    pub fn get(&self, h: u32) -> &Poly {
        &self.polys[h as usize]
    }
    pub fn constant(&mut self, c: U256) -> u32 {
        if is_zero(&c) {
            return 0;
        }
        self.intern(Poly(vec![(vec![], c)]))
    }
    pub fn as_const(&self, h: u32) -> Option<U256> {
        let p = self.get(h);
        match p.0.len() {
            0 => Some([0; 4]),
            1 if p.0[0].0.is_empty() => Some(p.0[0].1),
            _ => None,
        }
    }
    /// canonical integer value of a constant polynomial
    pub fn const_int(&self, h: u32) -> Option<U256> {
        self.as_const(h).map(|c| self.m.from(&c))
    }
    pub fn atom(&mut self, name: &str, kind: Kind) -> u32 {
        if let Some(p) = self.subst.get(name).cloned() {
            if !self.by_name.contains_key(name) {
                // keep atom numbering stable
                let id = self.atoms.len() as u32;
                self.atoms.push(Atom { name: name.into(), kind });
                self.by_name.insert(name.into(), id);
            }
            return self.intern(p);
        }
        let id = if let Some(i) = self.by_name.get(name) {
            *i
        } else {
            let id = self.atoms.len() as u32;
            self.atoms.push(Atom { name: name.into(), kind });
            self.by_name.insert(name.into(), id);
            id
        };
        let one = self.m.one;
        self.intern(Poly(vec![(vec![(id, 1)], one)]))
    }
    pub fn atom_id(&self, name: &str) -> Option<u32> {
        self.by_name.get(name).copied()
    }
    pub fn add_scaled(&mut self, a: u32, b: u32, s: &U256) -> u32 {
        self.ops += 1;
        if b == 0 {
            return a;
        }
        let m = self.m.clone();
        let (pa, pb) = (&self.polys[a as usize].0, &self.polys[b as usize].0);
        let mut r = Vec::with_capacity(pa.len() + pb.len());
        let (mut i, mut j) = (0, 0);
        let unit = *s == m.one;
        while i < pa.len() || j < pb.len() {
            if j >= pb.len() || (i < pa.len() && pa[i].0 < pb[j].0) {
                r.push(pa[i].clone());
                i += 1;
            } else {
                let c = if unit { pb[j].1 } else { m.mul(&pb[j].1, s) };
                if i >= pa.len() || pb[j].0 < pa[i].0 {
                    r.push((pb[j].0.clone(), c));
                    j += 1;
                } else {
                    let x = m.add(&pa[i].1, &c);
                    if !is_zero(&x) {
                        r.push((pa[i].0.clone(), x));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        self.intern(Poly(r))
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        let one = self.m.one;
        self.add_scaled(a, b, &one)
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        let mo = self.m.neg(&self.m.one);
        self.add_scaled(a, b, &mo)
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        self.sub(0, a)
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        self.ops += 1;
        if a == H_ZERO || b == H_ZERO {
            return H_ZERO;
        }
        if a == H_ONE {
            return b;
        }
        if b == H_ONE {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.add_scaled(0, b, &c);
        }
        if let Some(c) = self.as_const(b) {
            return self.add_scaled(0, a, &c);
        }
        let m = &self.m;
        let (pa, pb) = (&self.polys[a as usize].0, &self.polys[b as usize].0);
        let mut acc: HashMap<Mono, U256> = HashMap::with_capacity(pa.len() * pb.len());
        for (ma, ca) in pa {
            for (mb, cb) in pb {
                let c = m.mul(ca, cb);
                let e = acc.entry(mono_mul(ma, mb, &self.atoms)).or_insert([0; 4]);
                *e = m.add(e, &c);
            }
        }
        let mut r: Vec<_> = acc.into_iter().filter(|(_, c)| !is_zero(c)).collect();
        r.sort();
        self.intern(Poly(r))
    }
    /// True when the polynomial is certainly non-zero for all admissible atom values.
    fn unit_monomial(&self, p: &Poly) -> bool {
        p.0.len() == 1 && p.0[0].0.iter().all(|(a, _)| self.atoms[*a as usize].kind == Kind::Unit)
    }
    pub fn invert(&mut self, a: u32) -> u32 {
        let p = self.get(a).clone();
        if p.0.len() == 1 && p.0[0].0.iter().all(|(x, _)| self.atoms[*x as usize].kind != Kind::Bit) {
            let c = self.m.inv(&p.0[0].1);
            let mono = p.0[0].0.iter().map(|(x, e)| (*x, -e)).collect();
            return self.intern(Poly(vec![(mono, c)]));
        }
        let name = format!("inv#{}", self.show(a));
        let r = self.atom(&name, Kind::Unit);
        if let Some(id) = self.atom_id(&name) {
            if !self.inv_of.iter().any(|x| x.0 == id) {
                self.inv_of.push((id, a));
            }
        }
        r
    }
    /// monic representative up to unit monomials, used as decision key
    pub fn monic(&mut self, a: u32) -> u32 {
        let p = self.get(a).clone();
        // divide by common unit monomial
        let mut mins: BTreeMap<u32, i32> = BTreeMap::new();
        let mut first = true;
        for (mono, _) in &p.0 {
            let cur: BTreeMap<u32, i32> = mono.iter().cloned().collect();
            if first {
                mins = cur;
                first = false;
            } else {
                let keys: HashSet<u32> = mins.keys().chain(cur.keys()).cloned().collect();
                for k in keys {
                    let v = (*mins.get(&k).unwrap_or(&0)).min(*cur.get(&k).unwrap_or(&0));
                    mins.insert(k, v);
                }
            }
        }
        let div: Mono = mins
            .into_iter()
            .filter(|(k, e)| *e != 0 && (self.atoms[*k as usize].kind == Kind::Unit || *e < 0))
            .map(|(k, e)| (k, -e))
            .collect();
        let ci = self.m.inv(&p.0[p.0.len() - 1].1);
        let mut r: Vec<_> = p
            .0
            .iter()
            .map(|(mo, c)| (mono_mul(mo, &div, &self.atoms), self.m.mul(c, &ci)))
            .collect();
        r.sort();
        self.intern(Poly(r))
    }
    /// Decide whether a polynomial is zero on the current path.
    pub fn decide_zero(&mut self, a: u32) -> bool {
        if a == H_ZERO {
            return true;
        }
        if self.as_const(a).is_some() {
            return false;
        }
        let p = self.get(a).clone();
        if self.unit_monomial(&p) {
            return false;
        }
        if self.no_fork {
            panic!("SYMEX: unexpected branch on a symbolic value: {}", self.show(a));
        }
        let k = self.monic(a);
        if self.asked_set.insert(k) {
            self.asked.push(k);
        }
        false
    }
    pub fn show(&self, h: u32) -> String {
        self.show_poly(self.get(h))
    }
    pub fn show_poly(&self, p: &Poly) -> String {
        if p.0.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (mo, c)) in p.0.iter().enumerate() {
            if i > 0 {
                s.push_str(" + ");
            }
            if i > 40 {
                s.push_str(&format!("... ({} terms)", p.0.len()));
                break;
            }
            let v = self.m.from(c);
            let n = self.m.from(&self.m.neg(c));
            if bits(&n) < 64 && bits(&v) > 64 {
                s.push_str(&format!("-{}", dec(&n)));
            } else {
                s.push_str(&dec(&v));
            }
            for (a, e) in mo {
                s.push_str(&format!("*{}", self.atoms[*a as usize].name));
                if *e != 1 {
                    s.push_str(&format!("^{}", e));
                }
            }
        }
        s
    }
    /// Tag (slot) of a scalar used in integer-digit multiplications.
    pub fn tag(&mut self, h: u32) -> usize {
        if let Some(t) = self.tag_of.get(&h) {
            return *t;
        }
        self.tags.push(h);
        let t = self.tags.len(); // slot 0 is for plain integers
        self.tag_of.insert(h, t);
        t
    }
    pub fn untag(&mut self, k: &Int) -> u32 {
        let mut r = H_ZERO;
        for (i, d) in k.digits32().into_iter().enumerate() {
            if d != 0 {
                let c = self.m.i64(d);
                let s = if i == 0 {
                    H_ONE
                } else {
                    match self.tags.get(i - 1) {
                        Some(t) => *t,
                        // no correct multiplicity has a digit here
                        None => self.atom(&format!("bogus{}", i), Kind::Unit),
                    }
                };
                r = self.add_scaled(r, s, &c);
            }
        }
        r
    }
    /// Evaluate at a point (atom id -> Montgomery value)
    pub fn eval(&self, h: u32, pt: &dyn Fn(u32) -> U256) -> U256 {
        let m = &self.m;
        let mut r = [0u64; 4];
        for (mo, c) in &self.get(h).0 {
            let mut t = *c;
            for (a, e) in mo {
                let v = pt(*a);
                let v = if *e < 0 { m.inv(&v) } else { v };
                for _ in 0..e.abs() {
                    t = m.mul(&t, &v);
                }
            }
            r = m.add(&r, &t);
        }
        r
    }
}
