//! C13: every gadget is synthesised with values that are symbolic, absent, or known only in part; what it allocates and
//! enforces must be the same each time. Outputs are used in a further constraint, so that they are part of the shape.
use crate::ext::*;
use crate::int::IM;
use crate::rec::*;
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::{field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean};
use bellman::gadgets::lookup::{lookup3_xy, lookup3_xy_with_conditional_negation};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::pack_into_inputs;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::gadgets::uint32::UInt32;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::Field;

type Res = Result<(), SynthesisError>;
/// Which values are known: all, none, or those with even or odd numbers.
#[derive(Clone, Copy)]
pub enum Known { All, None, Even, Odd }
impl Known {
    fn at<T>(self, id: u32, v: impl FnOnce() -> T) -> Option<T> {
        match self { Known::All => Some(v()), Known::None => None, Known::Even => if id % 2 == 0 { Some(v()) } else { None }, Known::Odd => if id % 2 == 1 { Some(v()) } else { None } }
    }
}
fn use_lc<const M: usize>(cs: &mut Rec<M>, l: LinearCombination<IM<M>>) { cs.enforce(|| "use", |_| l, |lc| lc, |lc| lc) }
fn use_var<const M: usize>(cs: &mut Rec<M>, v: Variable) { use_lc(cs, LinearCombination::zero() + v) }
fn use_bits<const M: usize>(cs: &mut Rec<M>, bits: &[Boolean]) {
    for b in bits {
        let l = b.lc(Rec::<M>::one(), IM::ONE);
        use_lc(cs, l)
    }
}
fn bit<const M: usize>(cs: &mut Rec<M>, id: u32, k: Known) -> Result<AllocatedBit, SynthesisError> { AllocatedBit::alloc(cs, k.at(id, || sym_bool(id))) }
/// 0 allocated, 1 negated, 2 and 3 constant
fn boolean<const M: usize>(cs: &mut Rec<M>, id: u32, kind: u64, k: Known) -> Result<Boolean, SynthesisError> {
    Ok(match kind & 3 { 0 => Boolean::from(bit(cs, id, k)?), 1 => Boolean::from(bit(cs, id, k)?).not(), c => Boolean::constant(c == 2) })
}
fn booleans<const M: usize>(cs: &mut Rec<M>, id: u32, n: usize, kinds: u64, k: Known) -> Result<Vec<Boolean>, SynthesisError> {
    (0..n).map(|i| boolean(cs, id + i as u32, if kinds == 0 { 0 } else { ((i * 7 + i / 3) as u64 + kinds) % 4 }, k)).collect()
}
fn num<const M: usize>(cs: &mut Rec<M>, id: u32, k: Known) -> Result<AllocatedNum<IM<M>>, SynthesisError> {
    AllocatedNum::alloc(cs, || k.at(id, || element::<M>(4 * id)).ok_or(SynthesisError::AssignmentMissing))
}
fn word<const M: usize>(cs: &mut Rec<M>, id: u32, kind: u64, k: Known) -> Result<UInt32, SynthesisError> {
    Ok(match kind & 3 {
        0 => UInt32::alloc(cs, k.at(id, || sym_u32(id)))?,
        1 => UInt32::constant(0xdead_beef_u32.rotate_left(id)),
        q => UInt32::from_bits(&booleans(cs, 100 * id, 32, q, k)?),
    })
}
fn use_word<const M: usize>(cs: &mut Rec<M>, w: UInt32) { let b = w.into_bits(); use_bits(cs, &b) }
fn table<const M: usize>(n: usize) -> Vec<(IM<M>, IM<M>)> { (0..n as u64).map(|i| (IM::from_u64(3 + i * i), IM::from_u64(1000 + 7 * i))).collect() }

#[inline(never)]
fn g0<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let a = bit(cs, 0, k)?; let b = AllocatedBit::alloc_conditionally(&mut *cs, k.at(1, || sym_bool(1)), &a)?; use_var(cs, b.get_variable());
    Ok(())
}
#[inline(never)]
fn g1<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b) = (bit(cs, 0, k)?, bit(cs, 1, k)?);
    let r = match x { 0 => AllocatedBit::xor(&mut *cs, &a, &b), 1 => AllocatedBit::and(&mut *cs, &a, &b), 2 => AllocatedBit::and_not(&mut *cs, &a, &b), _ => AllocatedBit::nor(&mut *cs, &a, &b) }?;
    use_var(cs, r.get_variable());
    Ok(())
}
#[inline(never)]
fn g2<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let v = u64_into_boolean_vec_le(&mut *cs, k.at(0, || sym_u64(0)))?; use_bits(cs, &v);
    Ok(())
}
#[inline(never)]
fn g3<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    if x == 0 { let v = field_into_boolean_vec_le::<IM<M>, _, IM<1>>(&mut *cs, k.at(0, || element::<1>(0)))?; use_bits(cs, &v) }
    else { for b in field_into_allocated_bits_le::<IM<M>, _, IM<M>>(&mut *cs, k.at(0, || element::<M>(0)))? { use_var(cs, b.get_variable()) } };
    Ok(())
}
// gadgets on booleans of every kind
#[inline(never)]
fn g4<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b) = (boolean(cs, 0, d(0), k)?, boolean(cs, 1, d(1), k)?); Boolean::enforce_equal(&mut *cs, &a, &b)?;
    Ok(())
}
#[inline(never)]
fn g5<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b) = (boolean(cs, 0, d(0), k)?, boolean(cs, 1, d(1), k)?);
    let r = Boolean::xor(&mut *cs, &a, &b)?; use_bits(cs, &[r]);
    let r = Boolean::and(&mut *cs, &a, &b)?; use_bits(cs, &[r]);
    Ok(())
}
#[inline(never)]
fn g6_7<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b, c) = (boolean(cs, 0, d(0), k)?, boolean(cs, 1, d(1), k)?, boolean(cs, 2, d(2), k)?);
    let r = if g == 6 { Boolean::sha256_ch(&mut *cs, &a, &b, &c) } else { Boolean::sha256_maj(&mut *cs, &a, &b, &c) }?;
    use_bits(cs, &[r]);
    Ok(())
}
// the same operand more than once
#[inline(never)]
fn g8<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let a = boolean(cs, 0, d(0), k)?;
    let n = a.not();
    for (p, q) in [(&a, &a), (&a, &n)] {
        let r = Boolean::xor(&mut *cs, p, q)?; use_bits(cs, &[r]);
        let r = Boolean::and(&mut *cs, p, q)?; use_bits(cs, &[r]);
        let r = Boolean::sha256_maj(&mut *cs, p, q, p)?; use_bits(cs, &[r]);
        let r = Boolean::sha256_ch(&mut *cs, p, q, q)?; use_bits(cs, &[r]);
    }
    Boolean::enforce_equal(&mut *cs, &a, &a)?;
    Ok(())
}
// numbers
#[inline(never)]
fn g10<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let a = num(cs, 0, k)?; a.inputize(&mut *cs)?; use_var(cs, a.get_variable());
    Ok(())
}
#[inline(never)]
fn g11<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let a = num(cs, 0, k)?; let b = if x == 0 { a.to_bits_le(&mut *cs) } else { a.to_bits_le_strict(&mut *cs) }?; use_bits(cs, &b);
    Ok(())
}
#[inline(never)]
fn g12<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b) = (num(cs, 0, k)?, num(cs, 1, k)?);
    let r = match x { 0 => a.mul(&mut *cs, &b), 1 => a.square(&mut *cs), _ => a.mul(&mut *cs, &a) }?;
    use_var(cs, r.get_variable());
    Ok(())
}
#[inline(never)]
fn g13<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let a = num(cs, 0, k)?; a.assert_nonzero(&mut *cs)?;
    Ok(())
}
#[inline(never)]
fn g14<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b, c) = (num(cs, 0, k)?, num(cs, 1, k)?, boolean(cs, 200, d(0), k)?);
    let (p, q) = AllocatedNum::conditionally_reverse(&mut *cs, &a, &b, &c)?;
    use_var(cs, p.get_variable());
    use_var(cs, q.get_variable());
    Ok(())
}
#[inline(never)]
fn g15<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let mut n: Num<IM<M>> = num(cs, 0, k)?.into();
    for i in 0..4 { let b = boolean(cs, 200 + i, d(i), k)?; n = n.add_bool_with_coeff(Rec::<M>::one(), &b, IM::from_u64(5 + i as u64)); }
    let l = n.lc(IM::from_u64(3));
    use_lc(cs, l);
    Ok(())
}
// lookups: the tables are constants, the index bits of every kind
#[inline(never)]
fn g16<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = [boolean(cs, 0, d(0), k)?, boolean(cs, 1, d(1), k)?, boolean(cs, 2, d(2), k)?];
    let (p, q) = lookup3_xy(&mut *cs, &b, &table(8))?;
    use_var(cs, p.get_variable());
    use_var(cs, q.get_variable());
    Ok(())
}
#[inline(never)]
fn g17<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = [boolean(cs, 0, d(0), k)?, boolean(cs, 1, d(1), k)?, boolean(cs, 2, d(2), k)?];
    let (p, q) = lookup3_xy_with_conditional_negation(&mut *cs, &b, &table(4))?;
    let (p, q) = (p.lc(IM::ONE), q.lc(IM::ONE));
    use_lc(cs, p);
    use_lc(cs, q);
    Ok(())
}
#[inline(never)]
fn g18<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = booleans(cs, 0, (x / 4) as usize, x % 4, k)?; pack_into_inputs(&mut *cs, &b)?;
    Ok(())
}
// words
#[inline(never)]
fn g20<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let w = word(cs, 1, d(0), k)?; use_word(cs, w.rotr(5)); use_word(cs, w.shr(9)); let b = w.clone().into_bits_be(); use_bits(cs, &b); use_word(cs, UInt32::from_bits_be(&b));
    Ok(())
}
#[inline(never)]
fn g21<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b) = (word(cs, 1, d(0), k)?, word(cs, 2, d(1), k)?); let r = a.xor(&mut *cs, &b)?; use_word(cs, r);
    Ok(())
}
#[inline(never)]
fn g22_23<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let (a, b, c) = (word(cs, 1, d(0), k)?, word(cs, 2, d(1), k)?, word(cs, 3, d(2), k)?);
    let r = if g == 22 { UInt32::sha256_ch(&mut *cs, &a, &b, &c) } else { UInt32::sha256_maj(&mut *cs, &a, &b, &c) }?;
    use_word(cs, r);
    Ok(())
}
// several sums in one batch of equalities; x: kinds of the operands, a zero digit above the last
#[inline(never)]
fn g24<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let mut w = vec![];
    let n = x >> 20;
    for i in 0..n { w.push(word(cs, 1 + i as u32, d(i as u32), k)?) }
    let mut m = MultiEq::new(&mut *cs);
    let a = UInt32::addmany(&mut m, &w)?;
    let b = UInt32::addmany(&mut m, &[a.clone(), w[0].clone()])?;
    let c = UInt32::addmany(&mut m, &[a, b, w[1].clone()])?;
    drop(m);
    use_word(cs, c);
    Ok(())
}
#[inline(never)]
fn g25<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = booleans(cs, 0, 40, x, k)?;
    let one = Rec::<M>::one();
    let mut m = MultiEq::new(&mut *cs);
    for i in 0..x as usize * 8 + 3 {
        let (p, q) = (b[i % 40].lc(one, IM::from_u64(1 << (i % 7))), b[(i * 3 + 1) % 40].lc(one, IM::ONE));
        m.enforce_equal(7 + i % 60, &p, &q);
    };
    Ok(())
}
// hashes; x: kind of the bits, then the number of bytes
#[inline(never)]
fn g30<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = booleans(cs, 0, (x / 4) as usize * 8, x % 4, k)?; let o = sha256(&mut *cs, &b)?; use_bits(cs, &o);
    Ok(())
}
#[inline(never)]
fn g31<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = booleans(cs, 0, 512, x, k)?; let o = sha256_block_no_padding(&mut *cs, &b)?; use_bits(cs, &o);
    Ok(())
}
#[inline(never)]
fn g_blake2s<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    let d = |i: u32| (x >> (2 * i)) & 3;
    let _ = (g, x, &d);
    let b = booleans(cs, 0, (x / 4) as usize * 8, x % 4, k)?; let o = blake2s(&mut *cs, &b, b"shape012")?; use_bits(cs, &o);
    Ok(())
}
fn gadget<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    match g {
        0 => g0(g, x, cs, k),
        1 => g1(g, x, cs, k),
        2 => g2(g, x, cs, k),
        3 => g3(g, x, cs, k),
        4 => g4(g, x, cs, k),
        5 => g5(g, x, cs, k),
        6 | 7 => g6_7(g, x, cs, k),
        8 => g8(g, x, cs, k),
        10 => g10(g, x, cs, k),
        11 => g11(g, x, cs, k),
        12 => g12(g, x, cs, k),
        13 => g13(g, x, cs, k),
        14 => g14(g, x, cs, k),
        15 => g15(g, x, cs, k),
        16 => g16(g, x, cs, k),
        17 => g17(g, x, cs, k),
        18 => g18(g, x, cs, k),
        20 => g20(g, x, cs, k),
        21 => g21(g, x, cs, k),
        22 | 23 => g22_23(g, x, cs, k),
        24 => g24(g, x, cs, k),
        25 => g25(g, x, cs, k),
        30 => g30(g, x, cs, k),
        31 => g31(g, x, cs, k),
        _ => g_blake2s(g, x, cs, k),
    }
}
/// The gadgets that depend on the size of the field.
fn sized<const M: usize>(g: u64, x: u64, cs: &mut Rec<M>, k: Known) -> Res {
    match g {
        3 => g3(g, x, cs, k),
        11 => g11(g, x, cs, k),
        _ => g18(g, x, cs, k),
    }
}
fn shape<const M: usize>(g: u64, x: u64, gadget: fn(u64, u64, &mut Rec<M>, Known) -> Res) {
    let mut cs = Rec::<M>::new(0);
    let r = gadget(g, x, &mut cs, Known::All);
    if let Err(e) = &r {
        // errors that do not concern the shape: a constant contradiction, or inverting zero
        match e {
            SynthesisError::Unsatisfiable => check(g == 4, "only equality of unequal constants is unsatisfiable"),
            SynthesisError::DivisionByZero => { check(g == 13 && cs.aux[0] == IM::ZERO, "only zero cannot be inverted"); return }
            _ => check(false, "a gadget with all its values succeeds"),
        }
    }
    for (mode, k) in [(1, Known::None), (2, Known::None), (2, Known::All), (1, Known::Even), (2, Known::Odd)] {
        let mut ab = Rec::<M>::new(mode);
        let s = gadget(g, x, &mut ab, k);
        check(r.is_ok() == s.is_ok(), "the gadget succeeds without values as with them");
        cs.same_shape(&ab, "variables and constraints are the same without values as with them");
    }
    reach("done");
}
#[no_mangle]
pub extern "C" fn h_shape(g: u64, x: u64) { shape::<0>(g, x, gadget) }
/// In smaller fields, where the bits of a number are fewer and a packed element shorter.
#[no_mangle]
pub extern "C" fn h_shape_small(m: u64, g: u64, x: u64) { match m { 2 => shape::<2>(g, x, sized), 4 => shape::<4>(g, x, sized), _ => shape::<6>(g, x, sized) } }
