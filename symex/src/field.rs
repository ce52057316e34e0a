//! The symbolic prime field.
use crate::big::*;
use crate::poly::*;
use core::fmt;
use core::iter::{Product, Sum};
use core::marker::PhantomData;
use core::ops::*;
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use subtle::*;

pub trait Cfg: Copy + Clone + Send + Sync + 'static {
    const MODULUS: &'static str; // decimal
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const S: u32;
    const GEN: u64;
    /// symbolic scalars may be converted to tagged integers
    const TAGGED: bool;
    /// the byte representation of a symbolic value is an opaque injective image of its canonical form
    const OPAQUE: bool;
    type Bits: ff::BitViewSized + Send + Sync;
    fn bits(v: &[u64]) -> Self::Bits;
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
}

#[derive(Clone, Copy)]
pub struct RB<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for RB<N> {
    fn default() -> Self {
        RB([0; N])
    }
}
impl<const N: usize> AsRef<[u8]> for RB<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u8]> for RB<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

macro_rules! cfg {
    ($n:ident, $m:expr, $nb:expr, $cap:expr, $s:expr, $g:expr, $tag:expr, $limbs:expr) => {
        cfg!($n, $m, $nb, $cap, $s, $g, $tag, $limbs, false);
    };
    ($n:ident, $m:expr, $nb:expr, $cap:expr, $s:expr, $g:expr, $tag:expr, $limbs:expr, $op:expr) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $n;
        impl Cfg for $n {
            const MODULUS: &'static str = $m;
            const NUM_BITS: u32 = $nb;
            const CAPACITY: u32 = $cap;
            const S: u32 = $s;
            const GEN: u64 = $g;
            const TAGGED: bool = $tag;
            const OPAQUE: bool = $op;
            type Bits = [u64; $limbs];
            fn bits(v: &[u64]) -> Self::Bits {
                let mut r = [0u64; $limbs];
                r[..v.len()].copy_from_slice(v);
                r
            }
            type Repr = RB<{ $limbs * 8 }>;
        }
    };
}
pub const BLS_R: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
cfg!(Bls, BLS_R, 255, 254, 32, 7, false, 4);
// Same prime; representation wide enough to hold tagged scalars (see engine.rs).
cfg!(BlsT, BLS_R, 4096, 254, 32, 7, true, 64);
cfg!(BlsT3, BLS_R, 4096, 254, 3, 7, true, 64);
// byte encodings are opaque (hashing only)
cfg!(BlsH, BLS_R, 255, 254, 32, 7, false, 4, true);
cfg!(P17, "17", 5, 4, 4, 3, false, 4);
cfg!(P13, "13", 4, 3, 2, 2, false, 4);
cfg!(P97, "97", 7, 6, 5, 5, false, 4);
cfg!(P12289, "12289", 14, 13, 12, 11, false, 4);
cfg!(P64513, "64513", 16, 15, 10, 5, false, 4);
// 2^61 - 1
cfg!(PM61, "2305843009213693951", 61, 60, 1, 37, false, 4);

pub fn init_cfg<C: Cfg>() {
    init(from_dec(C::MODULUS), C::S, C::GEN);
}

pub struct SymF<C>(pub u32, PhantomData<C>);
impl<C> Clone for SymF<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C> Copy for SymF<C> {}
impl<C> SymF<C> {
    pub const fn h(h: u32) -> Self {
        SymF(h, PhantomData)
    }
}
impl<C: Cfg> SymF<C> {
    pub fn atom(name: &str) -> Self {
        Self::h(arena().atom(name, Kind::Any))
    }
    pub fn unit(name: &str) -> Self {
        Self::h(arena().atom(name, Kind::Unit))
    }
    pub fn bit(name: &str) -> Self {
        Self::h(arena().atom(name, Kind::Bit))
    }
    pub fn same(&self, o: &Self) -> bool {
        let a = arena();
        a.get(self.0) == a.get(o.0)
    }
    pub fn show(&self) -> String {
        arena().show(self.0)
    }
    pub fn int(v: &U256) -> Self {
        let mut a = arena();
        let c = a.m.to(v);
        Self::h(a.constant(c))
    }
}
impl<C: Cfg> fmt::Debug for SymF<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.show())
    }
}
impl<C: Cfg> Default for SymF<C> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<C: Cfg> PartialEq for SymF<C> {
    fn eq(&self, o: &Self) -> bool {
        let mut a = arena();
        let d = a.sub(self.0, o.0);
        a.decide_zero(d)
    }
}
impl<C: Cfg> Eq for SymF<C> {}
impl<C: Cfg> ConstantTimeEq for SymF<C> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<C: Cfg> ConditionallySelectable for SymF<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
impl<C: Cfg> From<u64> for SymF<C> {
    fn from(x: u64) -> Self {
        Self::int(&[x, 0, 0, 0])
    }
}
macro_rules! ops {
    ($($t:ident $m:ident $ta:ident $ma:ident;)*) => {$(
        impl<C: Cfg> $t for SymF<C> { type Output = Self; fn $m(self, o: Self) -> Self { Self::h(arena().$m(self.0, o.0)) } }
        impl<'a, C: Cfg> $t<&'a SymF<C>> for SymF<C> { type Output = Self; fn $m(self, o: &'a Self) -> Self { Self::h(arena().$m(self.0, o.0)) } }
        impl<C: Cfg> $ta for SymF<C> { fn $ma(&mut self, o: Self) { self.0 = arena().$m(self.0, o.0) } }
        impl<'a, C: Cfg> $ta<&'a SymF<C>> for SymF<C> { fn $ma(&mut self, o: &'a Self) { self.0 = arena().$m(self.0, o.0) } }
    )*};
}
ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; }
impl<C: Cfg> Neg for SymF<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::h(arena().neg(self.0))
    }
}
impl<C: Cfg> Sum for SymF<C> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::ZERO, |a, b| a + b)
    }
}
impl<'a, C: Cfg> Sum<&'a SymF<C>> for SymF<C> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::ZERO, |a, b| a + b)
    }
}
impl<C: Cfg> Product for SymF<C> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::ONE, |a, b| a * b)
    }
}
impl<'a, C: Cfg> Product<&'a SymF<C>> for SymF<C> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::ONE, |a, b| a * b)
    }
}
impl<C: Cfg> Field for SymF<C> {
    const ZERO: Self = Self::h(H_ZERO);
    const ONE: Self = Self::h(H_ONE);
    /// every draw from the randomness is the symbol named by the generator's next output
    fn random(mut rng: impl RngCore) -> Self {
        let v = rng.next_u64();
        let n = format!("rnd{}", v);
        let mut a = arena();
        a.rand_ctr += 1;
        Self::h(a.atom(&n, Kind::Unit))
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        let mut a = arena();
        if a.decide_zero(self.0) {
            return CtOption::new(Self::ZERO, Choice::from(0));
        }
        CtOption::new(Self::h(a.invert(self.0)), Choice::from(1))
    }
    fn sqrt_ratio(_: &Self, _: &Self) -> (Choice, Self) {
        panic!("SYMEX: sqrt_ratio on symbolic field")
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        let mut started = false;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                if started {
                    res = res.square();
                }
                if ((*e >> i) & 1) == 1 {
                    started = true;
                    res *= self;
                }
            }
        }
        res
    }
}
impl<C: Cfg> SymF<C> {
    fn repr_limbs(&self) -> Vec<u64> {
        let mut a = arena();
        if C::TAGGED {
            if self.0 == H_ZERO {
                return vec![];
            }
            let t = a.tag(self.0);
            let bit = 32 * t;
            assert!(bit + 48 < C::NUM_BITS as usize, "SYMEX: out of scalar tags");
            let mut v = vec![0u64; bit / 64 + 1];
            v[bit / 64] = 1 << (bit % 64);
            v
        } else {
            match a.const_int(self.0) {
                Some(v) => v.to_vec(),
                // distinct from every constant: the top limb exceeds the modulus
                None if C::OPAQUE => vec![self.0 as u64, 0, 0, u64::MAX],
                None => panic!("SYMEX: bit representation of a symbolic value: {}", a.show(self.0)),
            }
        }
    }
}
impl<C: Cfg> PrimeField for SymF<C> {
    type Repr = C::Repr;
    fn from_repr(r: Self::Repr) -> CtOption<Self> {
        let b = r.as_ref();
        let mut v = [0u64; 4];
        for i in 0..32 {
            v[i / 8] |= (b[i] as u64) << (8 * (i % 8));
        }
        let ok = cmp(&v, &from_dec(C::MODULUS)) == std::cmp::Ordering::Less && b[32..].iter().all(|x| *x == 0);
        CtOption::new(if ok { Self::int(&v) } else { Self::ZERO }, Choice::from(ok as u8))
    }
    fn to_repr(&self) -> Self::Repr {
        let mut r = C::Repr::default();
        for (i, l) in self.repr_limbs().into_iter().enumerate() {
            r.as_mut()[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
        }
        r
    }
    fn is_odd(&self) -> Choice {
        let a = arena();
        match a.const_int(self.0) {
            Some(v) => Choice::from((v[0] & 1) as u8),
            None => panic!("SYMEX: parity of a symbolic value"),
        }
    }
    const MODULUS: &'static str = C::MODULUS;
    const NUM_BITS: u32 = C::NUM_BITS;
    const CAPACITY: u32 = C::CAPACITY;
    const TWO_INV: Self = Self::h(H_TWO_INV);
    const MULTIPLICATIVE_GENERATOR: Self = Self::h(H_GEN);
    const S: u32 = C::S;
    const ROOT_OF_UNITY: Self = Self::h(H_ROOT);
    const ROOT_OF_UNITY_INV: Self = Self::h(H_ROOT_INV);
    const DELTA: Self = Self::h(H_DELTA);
}
impl<C: Cfg> PrimeFieldBits for SymF<C> {
    type ReprBits = C::Bits;
    fn to_le_bits(&self) -> FieldBits<Self::ReprBits> {
        FieldBits::new(C::bits(&self.repr_limbs()))
    }
    fn char_le_bits() -> FieldBits<Self::ReprBits> {
        FieldBits::new(C::bits(&from_dec(C::MODULUS)))
    }
}
