//! 256-bit two's complement integers posing as a prime field of 255 bits: every operation the gadgets use is a
//! ring operation, so running them here computes the integer coefficients they use in any field.
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, PrimeField, PrimeFieldBits, FieldBits};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct IM<const M: usize>(pub [u64; 4]);
pub type I = IM<0>;
/// BLS12-381's and Jubjub's scalar fields, and primes chosen for their bit patterns.
pub const MODULI: [[u64; 4]; 8] = [
    [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48],
    [0xd0970e5ed6f72cb7, 0xa6682093ccc81082, 0x06673b0101343b00, 0x0e7db4ea6533afa9],
    [13, 0, 0, 0],
    [127, 0, 0, 0],
    [257, 0, 0, 0],
    [64513, 0, 0, 0],
    [0xffffffff00000001, 0, 0, 0],
    [0xffffffffffffff61, 0xffffffffffffffff, 0, 0],
];
const fn bits(m: &[u64; 4]) -> u32 { let mut i = 4; while i > 0 { i -= 1; if m[i] != 0 { return 64 * i as u32 + 64 - m[i].leading_zeros() } } 0 }
impl<const M: usize> IM<M> {
    pub const fn from_u64(x: u64) -> IM<M> { IM([x, 0, 0, 0]) }
    pub fn from_le(b: &[u8; 32]) -> IM<M> { let mut r = [0u64; 4]; for i in 0..32 { r[i / 8] |= (b[i] as u64) << (8 * (i % 8)); } IM(r) }
    pub fn to_le(&self) -> [u8; 32] { let mut r = [0u8; 32]; for i in 0..4 { r[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes()); } r }
    pub fn low(&self) -> u64 { self.0[0] }
    #[inline(never)]
    fn add_(a: &IM<M>, b: &IM<M>) -> IM<M> {
        let mut r = [0u64; 4]; let mut c = false;
        for i in 0..4 { let (x, c1) = a.0[i].overflowing_add(b.0[i]); let (y, c2) = x.overflowing_add(c as u64); r[i] = y; c = c1 | c2; }
        IM(r)
    }
    #[inline(never)]
    fn neg_(a: &IM<M>) -> IM<M> { IM::add_(&IM([!a.0[0], !a.0[1], !a.0[2], !a.0[3]]), &IM([1, 0, 0, 0])) }
    #[inline(never)]
    fn mul_(a: &IM<M>, b: &IM<M>) -> IM<M> {
        let mut r = [0u64; 4];
        for i in 0..4 { let mut c = 0u128; for j in 0..4 - i { let t = (a.0[i] as u128) * (b.0[j] as u128) + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; } }
        IM(r)
    }
}
impl<const M: usize> ConstantTimeEq for IM<M> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self.0 == o.0) as u8) } }
impl<const M: usize> ConditionallySelectable for IM<M> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl<const M: usize> From<u64> for IM<M> { fn from(x: u64) -> IM<M> { IM::from_u64(x) } }
impl<const M: usize> Add for IM<M> { type Output = IM<M>; fn add(self, o: IM<M>) -> IM<M> { IM::add_(&self, &o) } }
impl<'a, const M: usize> Add<&'a IM<M>> for IM<M> { type Output = IM<M>; fn add(self, o: &'a IM<M>) -> IM<M> { IM::add_(&self, o) } }
impl<const M: usize> AddAssign for IM<M> { fn add_assign(&mut self, o: IM<M>) { *self = IM::add_(self, &o) } }
impl<'a, const M: usize> AddAssign<&'a IM<M>> for IM<M> { fn add_assign(&mut self, o: &'a IM<M>) { *self = IM::add_(self, o) } }
impl<const M: usize> Sub for IM<M> { type Output = IM<M>; fn sub(self, o: IM<M>) -> IM<M> { IM::add_(&self, &IM::neg_(&o)) } }
impl<'a, const M: usize> Sub<&'a IM<M>> for IM<M> { type Output = IM<M>; fn sub(self, o: &'a IM<M>) -> IM<M> { self - *o } }
impl<const M: usize> SubAssign for IM<M> { fn sub_assign(&mut self, o: IM<M>) { *self = *self - o } }
impl<'a, const M: usize> SubAssign<&'a IM<M>> for IM<M> { fn sub_assign(&mut self, o: &'a IM<M>) { *self = *self - *o } }
impl<const M: usize> Mul for IM<M> { type Output = IM<M>; fn mul(self, o: IM<M>) -> IM<M> { IM::mul_(&self, &o) } }
impl<'a, const M: usize> Mul<&'a IM<M>> for IM<M> { type Output = IM<M>; fn mul(self, o: &'a IM<M>) -> IM<M> { IM::mul_(&self, o) } }
impl<const M: usize> MulAssign for IM<M> { fn mul_assign(&mut self, o: IM<M>) { *self = IM::mul_(self, &o) } }
impl<'a, const M: usize> MulAssign<&'a IM<M>> for IM<M> { fn mul_assign(&mut self, o: &'a IM<M>) { *self = IM::mul_(self, o) } }
impl<const M: usize> Neg for IM<M> { type Output = IM<M>; fn neg(self) -> IM<M> { IM::neg_(&self) } }
impl<const M: usize> Sum for IM<M> { fn sum<T: Iterator<Item = IM<M>>>(i: T) -> IM<M> { i.fold(IM::from_u64(0), |a, b| a + b) } }
impl<'a, const M: usize> Sum<&'a IM<M>> for IM<M> { fn sum<T: Iterator<Item = &'a IM<M>>>(i: T) -> IM<M> { i.fold(IM::from_u64(0), |a, b| a + b) } }
impl<const M: usize> Product for IM<M> { fn product<T: Iterator<Item = IM<M>>>(i: T) -> IM<M> { i.fold(IM::from_u64(1), |a, b| a * b) } }
impl<'a, const M: usize> Product<&'a IM<M>> for IM<M> { fn product<T: Iterator<Item = &'a IM<M>>>(i: T) -> IM<M> { i.fold(IM::from_u64(1), |a, b| a * b) } }
impl<const M: usize> Field for IM<M> {
    const ZERO: IM<M> = IM([0; 4]);
    const ONE: IM<M> = IM([1, 0, 0, 0]);
    fn random(_: impl rand_core::RngCore) -> IM<M> { unimplemented!() }
    fn square(&self) -> IM<M> { *self * *self }
    fn double(&self) -> IM<M> { *self + *self }
    /// A stand-in: only the shape of a circuit that inverts is looked at.
    fn invert(&self) -> CtOption<IM<M>> { CtOption::new(IM::from_u64(12345), Choice::from((self.0 != [0; 4]) as u8)) }
    fn sqrt_ratio(_: &IM<M>, _: &IM<M>) -> (Choice, IM<M>) { unimplemented!() }
}
#[derive(Clone, Copy, Default)]
pub struct R(pub [u8; 32]);
impl AsRef<[u8]> for R { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for R { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl<const M: usize> PrimeField for IM<M> {
    type Repr = R;
    fn from_repr(r: R) -> CtOption<IM<M>> { CtOption::new(IM::from_le(&r.0), Choice::from(1)) }
    fn to_repr(&self) -> R { R(self.to_le()) }
    fn is_odd(&self) -> Choice { Choice::from((self.0[0] & 1) as u8) }
    const MODULUS: &'static str = "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
    const NUM_BITS: u32 = bits(&MODULI[M]);
    const CAPACITY: u32 = bits(&MODULI[M]) - 1;
    const TWO_INV: IM<M> = IM([0; 4]);
    const MULTIPLICATIVE_GENERATOR: IM<M> = IM([7, 0, 0, 0]);
    const S: u32 = 32;
    const ROOT_OF_UNITY: IM<M> = IM([0; 4]);
    const ROOT_OF_UNITY_INV: IM<M> = IM([0; 4]);
    const DELTA: IM<M> = IM([0; 4]);
}
impl<const M: usize> PrimeFieldBits for IM<M> {
    type ReprBits = [u64; 4];
    fn to_le_bits(&self) -> FieldBits<[u64; 4]> {
        // the canonical representative of a negative number
        if self.0[3] >> 63 == 1 { FieldBits::new(IM::<M>::add_(self, &IM(MODULI[M])).0) } else { FieldBits::new(self.0) }
    }
    fn char_le_bits() -> FieldBits<[u64; 4]> { FieldBits::new(MODULI[M]) }
}
