//! A pairing engine of which only the encodings matter. An element of group K is a point (x, y) or the identity.
//! Uncompressed: K = 1: 3 bytes, K = 2: 4 bytes; compressed one byte less. The first byte carries the flags 0x80
//! (compressed) and 0x40 (identity, other bits zero); a point is valid if y = x_low ^ 0x5a and x is even.
use crate::int::I;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct A<const K: usize> { pub x: u32, pub y: u8, pub inf: u8 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct P<const K: usize>(pub u32);
impl<const K: usize> fmt::Debug for A<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("A") } }
impl<const K: usize> Default for A<K> { fn default() -> Self { A { x: 0, y: 0, inf: 1 } } }
impl<const K: usize> Default for P<K> { fn default() -> Self { P(0) } }
/// N bytes.
#[derive(Clone, Copy)]
pub struct B<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for B<N> { fn default() -> Self { B([0; N]) } }
impl<const N: usize> AsRef<[u8]> for B<N> { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> AsMut<[u8]> for B<N> { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl<const K: usize> ConstantTimeEq for A<K> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl<const K: usize> ConstantTimeEq for P<K> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
impl<const K: usize> ConditionallySelectable for P<K> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl<const K: usize> ConditionallySelectable for A<K> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl<const K: usize> A<K> {
    /// Bits of x below the flags.
    pub const XBITS: u32 = 6 + 8 * K as u32;
    pub fn valid(&self) -> bool { (self.inf == 1) | ((self.y == self.x as u8 ^ 0x5a) & (self.x & 1 == 0)) }
    /// The element a byte string encodes, if its flags are right; what follows an identity flag must be zero.
    pub fn decode(b: &[u8], compressed: bool) -> (A<K>, bool) {
        let n = K + 1;
        let mut x = (b[0] & 0x3f) as u32;
        for i in 1..n { x = x << 8 | b[i] as u32; }
        let y = if compressed { x as u8 ^ 0x5a } else { b[n] };
        let inf = (b[0] >> 6) & 1;
        let zero = (x == 0) & (compressed | (y == 0));
        let ok = (b[0] >> 7 == compressed as u8) & ((inf == 0) | zero);
        let k = inf.wrapping_sub(1); // all ones unless the identity
        (A { x: x & (k as i8 as i32 as u32), y: y & k, inf }, ok)
    }
    pub fn encode(&self, compressed: bool, out: &mut [u8]) {
        let n = K + 1;
        for i in 0..n { out[n - 1 - i] = (self.x >> (8 * i)) as u8; }
        out[0] = (out[0] & 0x3f) | (compressed as u8) << 7 | self.inf << 6;
        if !compressed { out[n] = self.y }
    }
}
macro_rules! enc { ($($k:literal $c:literal $u:literal),*) => {$(
    impl GroupEncoding for A<$k> {
        type Repr = B<$c>;
        fn from_bytes(b: &B<$c>) -> CtOption<Self> { let (a, ok) = Self::decode(&b.0, true); CtOption::new(a, Choice::from((ok & a.valid()) as u8)) }
        fn from_bytes_unchecked(b: &B<$c>) -> CtOption<Self> { let (a, ok) = Self::decode(&b.0, true); CtOption::new(a, Choice::from(ok as u8)) }
        fn to_bytes(&self) -> B<$c> { let mut r = B::default(); self.encode(true, &mut r.0); r }
    }
    impl UncompressedEncoding for A<$k> {
        type Uncompressed = B<$u>;
        fn from_uncompressed(b: &B<$u>) -> CtOption<Self> { let (a, ok) = Self::decode(&b.0, false); CtOption::new(a, Choice::from((ok & a.valid()) as u8)) }
        fn from_uncompressed_unchecked(b: &B<$u>) -> CtOption<Self> { let (a, ok) = Self::decode(&b.0, false); CtOption::new(a, Choice::from(ok as u8)) }
        fn to_uncompressed(&self) -> B<$u> { let mut r = B::default(); self.encode(false, &mut r.0); r }
    }
    impl PairingCurveAffine for A<$k> { type Pair = A<{ 3 - $k }>; type PairingResult = P<0>; fn pairing_with(&self, _: &Self::Pair) -> P<0> { unimplemented!() } }
)*} }
enc!(1 2 3, 2 3 4);
impl<const K: usize> GroupEncoding for P<K> {
    type Repr = B<4>;
    fn from_bytes(_: &B<4>) -> CtOption<Self> { unimplemented!() }
    fn from_bytes_unchecked(_: &B<4>) -> CtOption<Self> { unimplemented!() }
    fn to_bytes(&self) -> B<4> { unimplemented!() }
}
macro_rules! gop { ($($tr:ident $m:ident $tra:ident $ma:ident;)*) => {$(
    impl<const K: usize> $tr for P<K> { type Output = Self; fn $m(self, _: Self) -> Self { unimplemented!() } }
    impl<'a, const K: usize> $tr<&'a P<K>> for P<K> { type Output = Self; fn $m(self, _: &'a Self) -> Self { unimplemented!() } }
    impl<const K: usize> $tra for P<K> { fn $ma(&mut self, _: Self) { unimplemented!() } }
    impl<'a, const K: usize> $tra<&'a P<K>> for P<K> { fn $ma(&mut self, _: &'a Self) { unimplemented!() } }
    impl<const K: usize> $tr<A<K>> for P<K> { type Output = Self; fn $m(self, _: A<K>) -> Self { unimplemented!() } }
    impl<'a, const K: usize> $tr<&'a A<K>> for P<K> { type Output = Self; fn $m(self, _: &'a A<K>) -> Self { unimplemented!() } }
    impl<const K: usize> $tra<A<K>> for P<K> { fn $ma(&mut self, _: A<K>) { unimplemented!() } }
    impl<'a, const K: usize> $tra<&'a A<K>> for P<K> { fn $ma(&mut self, _: &'a A<K>) { unimplemented!() } }
)*} }
gop! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; }
macro_rules! scalar { ($($t:ident),*) => {$(
    impl<const K: usize> Mul<I> for $t<K> { type Output = P<K>; fn mul(self, _: I) -> P<K> { unimplemented!() } }
    impl<'a, const K: usize> Mul<&'a I> for $t<K> { type Output = P<K>; fn mul(self, _: &'a I) -> P<K> { unimplemented!() } }
    impl<const K: usize> Neg for $t<K> { type Output = Self; fn neg(self) -> Self { unimplemented!() } }
)*} }
scalar!(A, P);
impl<const K: usize> MulAssign<I> for P<K> { fn mul_assign(&mut self, _: I) { unimplemented!() } }
impl<'a, const K: usize> MulAssign<&'a I> for P<K> { fn mul_assign(&mut self, _: &'a I) { unimplemented!() } }
impl<const K: usize> Sum for P<K> { fn sum<T: Iterator<Item = Self>>(_: T) -> Self { unimplemented!() } }
impl<'a, const K: usize> Sum<&'a P<K>> for P<K> { fn sum<T: Iterator<Item = &'a Self>>(_: T) -> Self { unimplemented!() } }
impl<const K: usize> Group for P<K> {
    type Scalar = I;
    fn random(_: impl RngCore) -> Self { unimplemented!() }
    fn identity() -> Self { P(0) }
    fn generator() -> Self { unimplemented!() }
    fn is_identity(&self) -> Choice { unimplemented!() }
    fn double(&self) -> Self { unimplemented!() }
}
macro_rules! curve { ($($k:literal),*) => {$(
    impl Curve for P<$k> { type AffineRepr = A<$k>; fn to_affine(&self) -> A<$k> { unimplemented!() } }
    impl PrimeGroup for P<$k> {}
    impl PrimeCurve for P<$k> { type Affine = A<$k>; }
    impl PrimeCurveAffine for A<$k> {
        type Scalar = I;
        type Curve = P<$k>;
        fn identity() -> Self { A::default() }
        fn generator() -> Self { unimplemented!() }
        fn is_identity(&self) -> Choice { Choice::from(self.inf) }
        fn to_curve(&self) -> P<$k> { unimplemented!() }
    }
    impl From<A<$k>> for P<$k> { fn from(_: A<$k>) -> Self { unimplemented!() } }
    impl From<P<$k>> for A<$k> { fn from(_: P<$k>) -> Self { unimplemented!() } }
)*} }
curve!(1, 2);
#[derive(Clone, Debug, PartialEq)]
pub struct E;
impl Engine for E {
    type Fr = I;
    type G1 = P<1>;
    type G1Affine = A<1>;
    type G2 = P<2>;
    type G2Affine = A<2>;
    type Gt = P<0>;
    fn pairing(_: &A<1>, _: &A<2>) -> P<0> { unimplemented!() }
}
impl MillerLoopResult for P<0> { type Gt = P<0>; fn final_exponentiation(&self) -> P<0> { unimplemented!() } }
impl MultiMillerLoop for E { type G2Prepared = A<2>; type Result = P<0>; fn multi_miller_loop(_: &[(&A<1>, &A<2>)]) -> P<0> { unimplemented!() } }
