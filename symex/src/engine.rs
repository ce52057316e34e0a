// Symbolic pairing engine: group elements are their discrete logarithms.
//
// A projective element is a formal sum of (discrete logarithm, integer multiplicity); integers are
// only reduced when the element is observed.  A symbolic scalar exposes its bits as the integer
// 2^(32 t) for its own slot t, so any correct double-and-add procedure yields a multiplicity whose
// radix-2^32 digits are the multiplicities of each scalar.

use crate::big::Int;
use crate::field::*;
use crate::poly::*;
use core::iter::Sum;
use core::marker::PhantomData;
use core::ops::*;
use ff::Field;
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::*;

pub type F = SymF<FieldCfg>;

#[derive(Clone, Copy)]
pub struct G<const K: u8>(pub u32);
#[derive(Clone, Copy)]
pub struct A<const K: u8>(pub u32);
#[derive(Clone, Copy, Default)]
pub struct T(pub u32);

fn g_norm(a: &mut Arena, mut v: Vec<(u32, Int)>) -> u32 {
    v.retain(|x| !x.1.is_zero() && x.0 != H_ZERO);
    if v.is_empty() {
        return 0;
    }
    a.gels.push(v);
    (a.gels.len() - 1) as u32
}
fn g_add(a: &mut Arena, x: u32, y: u32, neg: bool) -> u32 {
    if y == 0 {
        return x;
    }
    if x == 0 && !neg {
        return y;
    }
    let mut v = a.gels[x as usize].clone();
    for (b, k) in a.gels[y as usize].clone() {
        let k = if neg { k.neg() } else { k };
        match v.iter_mut().find(|t| t.0 == b) {
            Some(t) => t.1 = t.1.add(&k),
            None => v.push((b, k)),
        }
    }
    g_norm(a, v)
}
fn g_dlog(a: &mut Arena, x: u32) -> u32 {
    let mut r = H_ZERO;
    for (b, k) in a.gels[x as usize].clone() {
        let s = a.untag(&k);
        let t = a.mul(b, s);
        r = a.add(r, t);
    }
    r
}
fn g_from(a: &mut Arena, p: u32) -> u32 {
    if p == H_ZERO {
        return 0;
    }
    g_norm(a, vec![(p, Int::small(1))])
}
impl<const K: u8> G<K> {
    pub fn dlog(&self) -> F {
        F::h(g_dlog(&mut arena(), self.0))
    }
    pub fn from_dlog(f: F) -> Self {
        G(g_from(&mut arena(), f.0))
    }
}
impl<const K: u8> A<K> {
    pub fn dlog(&self) -> F {
        F::h(self.0)
    }
    pub fn from_dlog(f: F) -> Self {
        A(f.0)
    }
    pub fn unit(n: &str) -> Self {
        A(F::unit(n).0)
    }
}
macro_rules! dbg {
    ($($t:ty),*) => {$(
        impl<const K: u8> core::fmt::Debug for $t { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "[{}]", self.dlog().show()) } }
        impl<const K: u8> PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.dlog() == o.dlog() } }
        impl<const K: u8> Eq for $t {}
        impl<const K: u8> ConstantTimeEq for $t { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
        impl<const K: u8> ConditionallySelectable for $t { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
        impl<const K: u8> GroupEncoding for $t {
            type Repr = RB<8>;
            fn from_bytes(_: &RB<8>) -> CtOption<Self> { panic!("SYMEX: decoding") }
            fn from_bytes_unchecked(_: &RB<8>) -> CtOption<Self> { panic!("SYMEX: decoding") }
            fn to_bytes(&self) -> RB<8> { panic!("SYMEX: encoding") }
        }
    )*};
}
dbg!(G<K>, A<K>);
impl<const K: u8> Default for G<K> {
    fn default() -> Self {
        G(0)
    }
}
impl<const K: u8> Default for A<K> {
    fn default() -> Self {
        A(H_ZERO)
    }
}
macro_rules! gop {
    ($($tr:ident $m:ident $tra:ident $ma:ident $neg:expr;)*) => {$(
        impl<const K: u8> $tr for G<K> { type Output = Self; fn $m(self, o: Self) -> Self { G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<'a, const K: u8> $tr<&'a G<K>> for G<K> { type Output = Self; fn $m(self, o: &'a Self) -> Self { G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<const K: u8> $tra for G<K> { fn $ma(&mut self, o: Self) { *self = G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<'a, const K: u8> $tra<&'a G<K>> for G<K> { fn $ma(&mut self, o: &'a Self) { *self = G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<const K: u8> $tr<A<K>> for G<K> { type Output = Self; fn $m(self, o: A<K>) -> Self { let o = o.to_curve(); G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<'a, const K: u8> $tr<&'a A<K>> for G<K> { type Output = Self; fn $m(self, o: &'a A<K>) -> Self { let o = o.to_curve(); G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<const K: u8> $tra<A<K>> for G<K> { fn $ma(&mut self, o: A<K>) { let o = o.to_curve(); *self = G(g_add(&mut arena(), self.0, o.0, $neg)) } }
        impl<'a, const K: u8> $tra<&'a A<K>> for G<K> { fn $ma(&mut self, o: &'a A<K>) { let o = o.to_curve(); *self = G(g_add(&mut arena(), self.0, o.0, $neg)) } }
    )*};
}
gop! { Add add AddAssign add_assign false; Sub sub SubAssign sub_assign true; }
macro_rules! smul {
    ($t:ty, $out:ty, $e:expr) => {
        impl<const K: u8> Mul<F> for $t {
            type Output = $out;
            fn mul(self, s: F) -> $out {
                $e(self.dlog() * s)
            }
        }
        impl<'a, const K: u8> Mul<&'a F> for $t {
            type Output = $out;
            fn mul(self, s: &'a F) -> $out {
                $e(self.dlog() * *s)
            }
        }
    };
}
smul!(G<K>, G<K>, G::<K>::from_dlog);
smul!(A<K>, G<K>, G::<K>::from_dlog);
impl<const K: u8> MulAssign<F> for G<K> {
    fn mul_assign(&mut self, s: F) {
        *self = *self * s
    }
}
impl<'a, const K: u8> MulAssign<&'a F> for G<K> {
    fn mul_assign(&mut self, s: &'a F) {
        *self = *self * *s
    }
}
impl<const K: u8> Neg for G<K> {
    type Output = Self;
    fn neg(self) -> Self {
        G(g_add(&mut arena(), 0, self.0, true))
    }
}
impl<const K: u8> Neg for A<K> {
    type Output = Self;
    fn neg(self) -> Self {
        A((-self.dlog()).0)
    }
}
impl<const K: u8> Sum for G<K> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(G(0), |a, b| a + b)
    }
}
impl<'a, const K: u8> Sum<&'a G<K>> for G<K> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(G(0), |a, b| a + b)
    }
}
impl<const K: u8> Group for G<K> {
    type Scalar = F;
    fn random(rng: impl RngCore) -> Self {
        G::from_dlog(F::random(rng))
    }
    fn identity() -> Self {
        G(0)
    }
    fn generator() -> Self {
        G::from_dlog(F::ONE)
    }
    fn is_identity(&self) -> Choice {
        let mut a = arena();
        let d = g_dlog(&mut a, self.0);
        Choice::from(a.decide_zero(d) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
impl<const K: u8> Curve for G<K> {
    type AffineRepr = A<K>;
    fn to_affine(&self) -> A<K> {
        A(g_dlog(&mut arena(), self.0))
    }
}
impl<const K: u8> PrimeGroup for G<K> {}
impl<const K: u8> PrimeCurve for G<K> {
    type Affine = A<K>;
}
impl<const K: u8> WnafGroup for G<K> {
    fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
        4
    }
}
impl<const K: u8> From<A<K>> for G<K> {
    fn from(a: A<K>) -> Self {
        a.to_curve()
    }
}
impl<const K: u8> From<G<K>> for A<K> {
    fn from(g: G<K>) -> Self {
        g.to_affine()
    }
}
impl<const K: u8> PrimeCurveAffine for A<K> {
    type Scalar = F;
    type Curve = G<K>;
    fn identity() -> Self {
        A(H_ZERO)
    }
    fn generator() -> Self {
        A(H_ONE)
    }
    fn is_identity(&self) -> Choice {
        Choice::from(arena().decide_zero(self.0) as u8)
    }
    fn to_curve(&self) -> G<K> {
        G(g_from(&mut arena(), self.0))
    }
}
impl<const K: u8> UncompressedEncoding for A<K> {
    type Uncompressed = RB<8>;
    fn from_uncompressed(_: &RB<8>) -> CtOption<Self> {
        panic!("SYMEX: decoding")
    }
    fn from_uncompressed_unchecked(_: &RB<8>) -> CtOption<Self> {
        panic!("SYMEX: decoding")
    }
    fn to_uncompressed(&self) -> RB<8> {
        panic!("SYMEX: encoding")
    }
}
macro_rules! pca {
    ($k:expr, $o:expr) => {
        impl PairingCurveAffine for A<$k> {
            type Pair = A<$o>;
            type PairingResult = T;
            fn pairing_with(&self, o: &A<$o>) -> T {
                T((self.dlog() * o.dlog()).0)
            }
        }
    };
}
pca!(1, 2);
pca!(2, 1);

impl T {
    pub fn dlog(&self) -> F {
        F::h(self.0)
    }
}
impl core::fmt::Debug for T {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "[{}]", self.dlog().show())
    }
}
impl PartialEq for T {
    fn eq(&self, o: &Self) -> bool {
        self.dlog() == o.dlog()
    }
}
impl Eq for T {}
impl ConstantTimeEq for T {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for T {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
macro_rules! top {
    ($($tr:ident $m:ident $tra:ident $ma:ident;)*) => {$(
        impl $tr for T { type Output = T; fn $m(self, o: T) -> T { T(self.dlog().$m(o.dlog()).0) } }
        impl<'a> $tr<&'a T> for T { type Output = T; fn $m(self, o: &'a T) -> T { T(self.dlog().$m(o.dlog()).0) } }
        impl $tra for T { fn $ma(&mut self, o: T) { *self = T(self.dlog().$m(o.dlog()).0) } }
        impl<'a> $tra<&'a T> for T { fn $ma(&mut self, o: &'a T) { *self = T(self.dlog().$m(o.dlog()).0) } }
    )*};
}
top! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; }
impl Neg for T {
    type Output = T;
    fn neg(self) -> T {
        T((-self.dlog()).0)
    }
}
impl Mul<F> for T {
    type Output = T;
    fn mul(self, s: F) -> T {
        T((self.dlog() * s).0)
    }
}
impl<'a> Mul<&'a F> for T {
    type Output = T;
    fn mul(self, s: &'a F) -> T {
        T((self.dlog() * *s).0)
    }
}
impl MulAssign<F> for T {
    fn mul_assign(&mut self, s: F) {
        *self = *self * s
    }
}
impl<'a> MulAssign<&'a F> for T {
    fn mul_assign(&mut self, s: &'a F) {
        *self = *self * *s
    }
}
impl Sum for T {
    fn sum<I: Iterator<Item = T>>(i: I) -> T {
        i.fold(T(0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a T> for T {
    fn sum<I: Iterator<Item = &'a T>>(i: I) -> T {
        i.fold(T(0), |a, b| a + b)
    }
}
impl Group for T {
    type Scalar = F;
    fn random(rng: impl RngCore) -> Self {
        T(F::random(rng).0)
    }
    fn identity() -> Self {
        T(0)
    }
    fn generator() -> Self {
        T(H_ONE)
    }
    fn is_identity(&self) -> Choice {
        Choice::from(arena().decide_zero(self.0) as u8)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
#[derive(Clone, Copy, Debug)]
pub struct E;
impl Engine for E {
    type Fr = F;
    type G1 = G<1>;
    type G1Affine = A<1>;
    type G2 = G<2>;
    type G2Affine = A<2>;
    type Gt = T;
    fn pairing(p: &A<1>, q: &A<2>) -> T {
        p.pairing_with(q)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct M(pub u32);
impl Add for M {
    type Output = M;
    fn add(self, o: M) -> M {
        M((F::h(self.0) + F::h(o.0)).0)
    }
}
impl<'a> Add<&'a M> for M {
    type Output = M;
    fn add(self, o: &'a M) -> M {
        self + *o
    }
}
impl AddAssign for M {
    fn add_assign(&mut self, o: M) {
        *self = *self + o
    }
}
impl<'a> AddAssign<&'a M> for M {
    fn add_assign(&mut self, o: &'a M) {
        *self = *self + *o
    }
}
impl MillerLoopResult for M {
    type Gt = T;
    fn final_exponentiation(&self) -> T {
        T(self.0)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Prep(pub u32);
impl From<A<2>> for Prep {
    fn from(a: A<2>) -> Prep {
        Prep(a.0)
    }
}
impl MultiMillerLoop for E {
    type G2Prepared = Prep;
    type Result = M;
    fn multi_miller_loop(terms: &[(&A<1>, &Prep)]) -> M {
        let mut r = F::ZERO;
        for (p, q) in terms {
            r += p.dlog() * F::h(q.0);
        }
        M(r.0)
    }
}
#[allow(dead_code)]
type Ph = PhantomData<()>;
