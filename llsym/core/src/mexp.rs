//! C18, C19: multi-exponentiation, base sources, density trackers. The group is the free module over its bases: an
//! element is the vector of the multiplicities of the bases, so equality of elements says that every base occurs with
//! exactly the right multiplicity, in any group.
use crate::rec::element;
use crate::ext::*;
use crate::int::IM;
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, AddAssignFromSource, DensityTracker, Exponent, FullDensity, QueryDensity, Source, SourceBuilder};
use bellman::SynthesisError;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use rand_core::RngCore;
use std::sync::Arc;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// Multiplicities of N bases.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct G<const M: usize, const N: usize>(pub [u32; N]);
/// Base number `0`, or the identity.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct A<const M: usize, const N: usize>(pub u32, pub u8);
#[derive(Clone, Copy, Default)]
pub struct RB(pub [u8; 8]);
impl AsRef<[u8]> for RB { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for RB { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl<const M: usize, const N: usize> Default for G<M, N> { fn default() -> Self { G([0; N]) } }
impl<const M: usize, const N: usize> Default for A<M, N> { fn default() -> Self { A(0, 1) } }
impl<const M: usize, const N: usize> G<M, N> {
    #[inline(never)]
    fn plus(a: &Self, b: &Self, neg: bool) -> Self { let mut r = [0; N]; for i in 0..N { r[i] = if neg { a.0[i].wrapping_sub(b.0[i]) } else { a.0[i].wrapping_add(b.0[i]) } } G(r) }
}
macro_rules! both { ($($t:ident),*) => {$(
    impl<const M: usize, const N: usize> ConstantTimeEq for $t<M, N> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } }
    impl<const M: usize, const N: usize> ConditionallySelectable for $t<M, N> { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.unwrap_u8() == 1 { *b } else { *a } } }
    impl<const M: usize, const N: usize> GroupEncoding for $t<M, N> {
        type Repr = RB;
        fn from_bytes(_: &RB) -> CtOption<Self> { unimplemented!() }
        fn from_bytes_unchecked(_: &RB) -> CtOption<Self> { unimplemented!() }
        fn to_bytes(&self) -> RB { unimplemented!() }
    }
)*} }
both!(G, A);
macro_rules! gop { ($($tr:ident $m:ident $tra:ident $ma:ident $neg:expr;)*) => {$(
    impl<const M: usize, const N: usize> $tr for G<M, N> { type Output = Self; fn $m(self, o: Self) -> Self { G::plus(&self, &o, $neg) } }
    impl<'a, const M: usize, const N: usize> $tr<&'a G<M, N>> for G<M, N> { type Output = Self; fn $m(self, o: &'a Self) -> Self { G::plus(&self, o, $neg) } }
    impl<const M: usize, const N: usize> $tra for G<M, N> { fn $ma(&mut self, o: Self) { *self = G::plus(self, &o, $neg) } }
    impl<'a, const M: usize, const N: usize> $tra<&'a G<M, N>> for G<M, N> { fn $ma(&mut self, o: &'a Self) { *self = G::plus(self, o, $neg) } }
    impl<const M: usize, const N: usize> $tr<A<M, N>> for G<M, N> { type Output = Self; fn $m(self, o: A<M, N>) -> Self { G::plus(&self, &o.to_curve(), $neg) } }
    impl<'a, const M: usize, const N: usize> $tr<&'a A<M, N>> for G<M, N> { type Output = Self; fn $m(self, o: &'a A<M, N>) -> Self { G::plus(&self, &o.to_curve(), $neg) } }
    impl<const M: usize, const N: usize> $tra<A<M, N>> for G<M, N> { fn $ma(&mut self, o: A<M, N>) { *self = G::plus(self, &o.to_curve(), $neg) } }
    impl<'a, const M: usize, const N: usize> $tra<&'a A<M, N>> for G<M, N> { fn $ma(&mut self, o: &'a A<M, N>) { *self = G::plus(self, &o.to_curve(), $neg) } }
)*} }
gop! { Add add AddAssign add_assign false; Sub sub SubAssign sub_assign true; }
impl<const M: usize, const N: usize> Mul<IM<M>> for G<M, N> { type Output = Self; fn mul(self, s: IM<M>) -> Self { let mut r = self; for i in 0..N { r.0[i] = r.0[i].wrapping_mul(s.0[0] as u32) } r } }
impl<'a, const M: usize, const N: usize> Mul<&'a IM<M>> for G<M, N> { type Output = Self; fn mul(self, s: &'a IM<M>) -> Self { self * *s } }
impl<const M: usize, const N: usize> Mul<IM<M>> for A<M, N> { type Output = G<M, N>; fn mul(self, s: IM<M>) -> G<M, N> { self.to_curve() * s } }
impl<'a, const M: usize, const N: usize> Mul<&'a IM<M>> for A<M, N> { type Output = G<M, N>; fn mul(self, s: &'a IM<M>) -> G<M, N> { self.to_curve() * *s } }
impl<const M: usize, const N: usize> MulAssign<IM<M>> for G<M, N> { fn mul_assign(&mut self, s: IM<M>) { *self = *self * s } }
impl<'a, const M: usize, const N: usize> MulAssign<&'a IM<M>> for G<M, N> { fn mul_assign(&mut self, s: &'a IM<M>) { *self = *self * *s } }
impl<const M: usize, const N: usize> Neg for G<M, N> { type Output = Self; fn neg(self) -> Self { G::plus(&G([0; N]), &self, true) } }
impl<const M: usize, const N: usize> Neg for A<M, N> { type Output = Self; fn neg(self) -> Self { unimplemented!() } }
impl<const M: usize, const N: usize> Sum for G<M, N> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(G([0; N]), |a, b| a + b) } }
impl<'a, const M: usize, const N: usize> Sum<&'a G<M, N>> for G<M, N> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(G([0; N]), |a, b| a + b) } }
impl<const M: usize, const N: usize> Group for G<M, N> {
    type Scalar = IM<M>;
    fn random(_: impl RngCore) -> Self { unimplemented!() }
    fn identity() -> Self { G([0; N]) }
    fn generator() -> Self { unimplemented!() }
    fn is_identity(&self) -> Choice { Choice::from((*self == G([0; N])) as u8) }
    fn double(&self) -> Self { G::plus(self, self, false) }
}
impl<const M: usize, const N: usize> Curve for G<M, N> { type AffineRepr = A<M, N>; fn to_affine(&self) -> A<M, N> { unimplemented!() } }
impl<const M: usize, const N: usize> PrimeGroup for G<M, N> {}
impl<const M: usize, const N: usize> PrimeCurve for G<M, N> { type Affine = A<M, N>; }
impl<const M: usize, const N: usize> From<A<M, N>> for G<M, N> { fn from(a: A<M, N>) -> Self { a.to_curve() } }
impl<const M: usize, const N: usize> From<G<M, N>> for A<M, N> { fn from(_: G<M, N>) -> Self { unimplemented!() } }
impl<const M: usize, const N: usize> PrimeCurveAffine for A<M, N> {
    type Scalar = IM<M>;
    type Curve = G<M, N>;
    fn identity() -> Self { A(0, 1) }
    fn generator() -> Self { unimplemented!() }
    fn is_identity(&self) -> Choice { Choice::from(self.1 & 1) }
    fn to_curve(&self) -> G<M, N> { let mut r = [0; N]; r[self.0 as usize] = 1 - (self.1 & 1) as u32; G(r) }
}

/// How the exponents are selected: 0 all (FullDensity), 1 all (tracker), 2 any subset (tracker), 3 every second.
fn density(kind: u64, n: usize) -> (DensityTracker, Vec<bool>) {
    let mut d = DensityTracker::new();
    let mut sel = vec![];
    for i in 0..n {
        d.add_element();
        let s = match kind { 2 => concretize(sym(500 + i as u32, 1)) == 1, 3 => i % 2 == 0, _ => true };
        if s { d.inc(i) }
        sel.push(s);
    }
    (d, sel)
}
/// `n` exponents of which `free` (spread over the list) are arbitrary and the others fixed; `nb` bases from position `start`.
fn run<const M: usize, const N: usize>(n: usize, free: usize, nb: usize, start: usize, dens: u64, ident: u64) {
    let mut exps: Vec<IM<M>> = vec![];
    for i in 0..n {
        let arbitrary = free > 0 && i % (n / free) == (n / free) / 2 && i / (n / free) < free;
        exps.push(if arbitrary { element::<M>(10 + 4 * i as u32) } else { IM::from_u64(match i % 5 { 0 => 0, 1 => 1, 2 => 2 + (i as u64 % 9), 3 => crate::int::MODULI[M][0] - 1, _ => (i as u64 * 37 + 5) % crate::int::MODULI[M][0] }) });
    }
    let bases: Vec<A<M, N>> = (0..nb).map(|i| A(i as u32, match ident { 0 => 0, 1 => sym(700 + i as u32, 1) as u8 & 1, _ => (i as u64 == ident - 2) as u8 })).collect();
    let (tr, sel) = density(dens, n);
    // what must come out
    let mut want = G::<M, N>([0; N]);
    let mut bad = false;
    let mut p = start;
    for i in 0..n {
        if !sel[i] { continue }
        if p >= nb { bad = true; break }
        bad |= (bases[p].1 & 1 == 1) & (exps[i].0[0] != 0);
        want.0[p] = want.0[p].wrapping_add(exps[i].0[0] as u32);
        p += 1;
    }
    let e: Arc<Vec<Exponent<IM<M>>>> = Arc::new(exps.iter().map(|x| x.into()).collect());
    trace("start", 0);
    let w = Worker::new();
    let r: Result<G<M, N>, SynthesisError> = if dens == 0 { multiexp(&w, (Arc::new(bases), start), FullDensity, e).wait() } else { multiexp(&w, (Arc::new(bases), start), Arc::new(tr), e).wait() };
    match r {
        Ok(g) => { check(!bad, "missing bases and identity bases under a non-zero exponent are reported as errors"); let mut ok = true; for i in 0..N { ok &= g.0[i] == want.0[i] } check(ok, "the result is the sum of the selected bases times their exponents"); reach("sum") }
        Err(_) => { check(bad, "no error unless bases are missing or an identity base has a non-zero exponent"); reach("error") }
    }
}
#[no_mangle]
pub extern "C" fn h_multiexp(m: u64, n: u64, free: u64, nb: u64, start: u64, dens: u64, ident: u64) {
    let (n, free, nb, start) = (n as usize, free as usize, nb as usize, start as usize);
    match (m, n < 8) {
        (2, true) => run::<2, 8>(n, free, nb, start, dens, ident),
        (3, true) => run::<3, 8>(n, free, nb, start, dens, ident),
        (4, true) => run::<4, 8>(n, free, nb, start, dens, ident),
        (5, true) => run::<5, 8>(n, free, nb, start, dens, ident),
        (3, false) => run::<3, 64>(n, free, nb, start, dens, ident),
        (4, false) => run::<4, 64>(n, free, nb, start, dens, ident),
        _ => run::<5, 64>(n, free, nb, start, dens, ident),
    }
}
/// Any sequence of `steps` operations on a source of `nb` bases, some of which may be the identity.
#[no_mangle]
pub extern "C" fn h_source(nb: u64, start: u64, steps: u64) {
    let n = nb as usize;
    let bases: Arc<Vec<A<2, 8>>> = Arc::new((0..n).map(|i| A(i as u32, sym(700 + i as u32, 1) as u8 & 1)).collect());
    let mut s = (bases.clone(), start as usize).build();
    check(s.1 == start as usize, "a source starts at its position");
    let mut pos = start as usize;
    for k in 0..steps {
        let op = concretize(sym(10 + k as u32, 3)) as usize;
        match op {
            0 | 1 => {
                // read, directly or into an accumulator
                let mut acc = G::<2, 8>([7; 8]);
                let r = if op == 0 { s.next().map(|b| *b) } else { acc.add_assign_from_source(&mut s).map(|_| A(0, 0)) };
                if pos >= n { check(matches!(r, Err(SynthesisError::IoError(_))), "reading past the end is an error"); reach("end"); }
                else if bases[pos].1 == 1 { check(matches!(r, Err(SynthesisError::UnexpectedIdentity)), "reading an identity base is an error"); reach("identity"); }
                else {
                    check(r.is_ok(), "a base that is there and not the identity is returned");
                    if let Ok(b) = r {
                        if op == 0 { check(b.0 == pos as u32, "bases come in order"); }
                        else { for i in 0..8 { check(acc.0[i] == 7 + (i == pos) as u32, "the next base is added once"); } }
                    }
                    pos += 1;
                    reach("base");
                }
                if pos <= n { check(s.1 == pos, "the position is the number of bases consumed"); }
            }
            _ => {
                let k = op - 2;
                let r = s.skip(k);
                if pos < n && pos + k <= n { check(r.is_ok(), "skipping bases that are there succeeds"); pos += k; check(s.1 == pos, "exactly the bases asked for are skipped"); reach("skip"); }
                else if r.is_err() { check(s.1 == pos, "the position is unchanged after an error"); reach("skip error"); }
                else { check(s.1 >= n && s.1 >= pos, "nothing is left after skipping to the end"); pos = s.1; }
            }
        }
    }
}
/// Any sequence of `steps` operations on a tracker.
#[no_mangle]
pub extern "C" fn h_density(n: u64, steps: u64) {
    let mut d = if n % 2 == 0 { DensityTracker::new() } else { DensityTracker::default() };
    let mut model = vec![];
    for _ in 0..n { d.add_element(); model.push(false); }
    for k in 0..steps {
        let i = concretize(sym(10 + k as u32, 3)) as usize;
        // one choice adds an element, the others mark one
        if i >= model.len() { assume(i == model.len()); d.add_element(); model.push(false); } else { d.inc(i); model[i] = true; }
    }
    check((&d).get_query_size() == Some(model.len()), "as many elements as were added");
    let got: Vec<bool> = (&d).iter().collect();
    check(got == model, "dense exactly where marked");
    check(d.get_total_density() == model.iter().filter(|x| **x).count(), "the total density is the number of marked elements");
    check((&FullDensity).get_query_size() == None && (&FullDensity).iter().take(model.len() + 3).all(|x| x), "full density selects everything");
    reach("done");
}
