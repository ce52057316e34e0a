//! C04, C06, C12: bits, decompositions, packing.
use crate::ext::*;
use crate::int::{IM, MODULI};
use crate::rec::*;
use bellman::gadgets::boolean::{field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean};
use bellman::gadgets::multipack::{bytes_to_bits, bytes_to_bits_le, compute_multipacking, pack_into_inputs};
use bellman::gadgets::num::AllocatedNum;
use bellman::ConstraintSystem;
use ff::{Field, PrimeField};

fn bit_of(w: &[u64; 4], i: usize) -> bool { (w[i / 64] >> (i % 64)) & 1 == 1 }
fn small<const M: usize>(x: &IM<M>) -> u64 { x.0[0] }
/// Variable and sign of a bit that is not constant.
fn var(b: &Boolean) -> Option<u32> { match b { Boolean::Is(a) => Some(ix(&a.get_variable())), _ => None } }

/// Every satisfying assignment gives each of these distinct variables a bit, and both bits are possible.
fn free_bits<const M: usize>(r: &Rec<M>, vars: &[u32]) {
    let mut a = Any::new(r);
    a.solve(r, &[]);
    for (i, v) in vars.iter().enumerate() {
        check(!vars[..i].contains(v), "the bits are distinct variables");
        check(small(&a.get(*v).unwrap()) < 2, "an allocated bit is zero or one");
    }
}
#[no_mangle]
pub extern "C" fn h_bits_u64() {
    let mut cs = Rec::<0>::new(0);
    let x = sym_u64(1);
    let v = u64_into_boolean_vec_le(&mut cs, Some(x)).unwrap();
    check(v.len() == 64, "64 bits whatever the value");
    cs.honest();
    let mut got = 0u64;
    for (i, b) in v.iter().enumerate() {
        check(var(b) == Some(i as u32), "bit i is the i-th allocated variable");
        check((small(&cs.aux[i]) == 1) == b.get_value().unwrap(), "the assignment of a bit is its value");
        got |= (b.get_value().unwrap() as u64) << i;
    }
    check_eq(got, x, "the bits are the little-endian bits of the integer");
    for mode in 1..3 {
        let mut ab = Rec::<0>::new(mode);
        let w = u64_into_boolean_vec_le(&mut ab, None).unwrap();
        check(w.len() == 64 && w.iter().all(|b| b.get_value().is_none()), "64 bits without values when the integer is unknown");
        check(w.iter().zip(&v).all(|(a, b)| var(a) == var(b)), "the same variables when the integer is unknown");
        cs.same_shape(&ab, "the same constraints when the integer is unknown");
    }
    free_bits(&cs, &v.iter().map(|b| var(b).unwrap()).collect::<Vec<_>>());
    reach("done");
}
fn field_bits<const M: usize, const N: usize>() {
    let n = <IM<N> as PrimeField>::NUM_BITS as usize;
    let x = element::<N>(1);
    let mut cs = Rec::<M>::new(0);
    let v = field_into_boolean_vec_le::<IM<M>, _, IM<N>>(&mut cs, Some(x)).unwrap();
    check(v.len() == n, "as many bits as the field has");
    cs.honest();
    for (i, b) in v.iter().enumerate() {
        check(var(b) == Some(i as u32), "bit i is the i-th allocated variable");
        check(b.get_value().unwrap() == bit_of(&x.0, i), "the bits are the little-endian bits of the element");
        check((small(&cs.aux[i]) == 1) == b.get_value().unwrap(), "the assignment of a bit is its value");
    }
    for mode in 1..3 {
        let mut ab = Rec::<M>::new(mode);
        let w = field_into_allocated_bits_le::<IM<M>, _, IM<N>>(&mut ab, None).unwrap();
        check(w.len() == n && w.iter().all(|b| b.get_value().is_none()), "the full width without values when the element is unknown");
        check(w.iter().zip(&v).all(|(a, b)| Some(ix(&a.get_variable())) == var(b)), "the same variables when the element is unknown");
        cs.same_shape(&ab, "the same constraints when the element is unknown");
    }
    free_bits(&cs, &v.iter().map(|b| var(b).unwrap()).collect::<Vec<_>>());
    reach("done");
}
#[no_mangle]
pub extern "C" fn h_bits_field(n: u64) {
    match n { 0 => field_bits::<0, 0>(), 1 => field_bits::<0, 1>(), 2 => field_bits::<0, 2>(), 3 => field_bits::<0, 3>(), 4 => field_bits::<0, 4>(), 5 => field_bits::<0, 5>(), 6 => field_bits::<0, 6>(), _ => field_bits::<0, 7>() }
}
/// Two bits, the second allocated on condition of the first.
#[no_mangle]
pub extern "C" fn h_conditional() {
    let (c, v) = (sym_bool(1), sym_bool(2));
    let mut cs = Rec::<0>::new(0);
    let cond = AllocatedBit::alloc(cs.namespace(|| "c"), Some(c)).unwrap();
    let bit = AllocatedBit::alloc_conditionally(cs.namespace(|| "b"), Some(v), &cond).unwrap();
    check(bit.get_value() == Some(v), "the bit has the value given");
    let (ic, ib) = (ix(&cond.get_variable()), ix(&bit.get_variable()));
    check(ic != ib, "two variables");
    check(small(&cs.aux[ic as usize]) == c as u64 && small(&cs.aux[ib as usize]) == v as u64, "assignments are the values given");
    // the honest assignment is accepted exactly if the bit is not set while the condition is
    let ok = cs.cons.iter().fold(true, |ok, k| { let z: Vec<_> = (0..3).map(|j| cs.eval(&k[j], &cs.aux, &cs.inputs)).collect(); ok & (z[0] * z[1] == z[2]) });
    check(ok == !(c & v), "the assignment is accepted if and only if the bit is zero or the condition is");
    let mut a = Any::new(&cs);
    a.solve(&cs, &[]);
    let (x, y) = (small(&a.get(ic).unwrap()), small(&a.get(ib).unwrap()));
    check(x < 2 && y < 2, "both bits are zero or one");
    check(!(x == 1 && y == 1), "the bit is zero whenever its condition is one");
    for mode in 1..3 {
        let mut ab = Rec::<0>::new(mode);
        let cond = AllocatedBit::alloc(ab.namespace(|| "c"), None).unwrap();
        let b = AllocatedBit::alloc_conditionally(ab.namespace(|| "b"), None, &cond).unwrap();
        check(b.get_value().is_none() && ix(&b.get_variable()) == ib, "the same variable when the value is unknown");
        cs.same_shape(&ab, "the same constraints when the value is unknown");
    }
    reach("done");
}
fn decompose<const M: usize>(strict: bool) {
    let n = <IM<M> as PrimeField>::NUM_BITS as usize;
    let x = element::<M>(1);
    let mut cs = Rec::<M>::new(0);
    let num = AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(x)).unwrap();
    let xv = ix(&num.get_variable());
    let bits = if strict { num.to_bits_le_strict(cs.namespace(|| "b")) } else { num.to_bits_le(cs.namespace(|| "b")) }.unwrap();
    check(bits.len() == n, "as many bits as the field has");
    for i in 0..n { check(bits[i].get_value().unwrap() == bit_of(&x.0, i), "the bits are the little-endian bits of the canonical representative"); }
    cs.honest();
    trace("honest", 0);
    // every other assignment: the constraints that mention the number are linear, and say N = x for the sum N of the bits
    let big: Vec<usize> = (0..cs.cons.len()).filter(|i| (0..3).any(|k| norm(&cs.cons[*i][k]).iter().any(|t| t.0 == xv))).collect();
    let mut a = Any::new(&cs);
    a.solve(&cs, &big);
    check(big.len() > 0, "the number is constrained");
    let mut done = 0;
    for i in big {
        let c = &cs.cons[i];
        // L * R = O with L or R constant: the linear form L * R - O
        let konst = |l: &Lf<M>| { let q = norm(l); if q.is_empty() { Some(IM::ZERO) } else if q.len() == 1 && q[0].0 == INPUT { Some(q[0].1) } else { None } };
        let mut f: Lf<M> = vec![];
        match (konst(&c[0]), konst(&c[1])) {
            (Some(k), _) => f.extend(c[1].iter().map(|(v, q)| (*v, *q * k))),
            (_, Some(k)) => f.extend(c[0].iter().map(|(v, q)| (*v, *q * k))),
            _ => unsupported("a constraint on the number that is not linear"),
        }
        f.extend(c[2].iter().map(|(v, q)| (*v, -*q)));
        let mut f = norm(&f);
        let p = f.iter().position(|t| t.0 == xv).unwrap();
        let k = f.remove(p).1;
        if k != IM::ONE && k != -IM::<M>::ONE { unsupported("a constraint on the number with another coefficient") }
        // N = sum of weight * bit, as digits
        let mut s = [0u64; 4];
        let mut used = [0u64; 4];
        for (v, w) in &f {
            let w = if k == IM::ONE { -*w } else { *w };
            let e = (0..255).find(|e| { let mut q = [0u64; 4]; q[e / 64] = 1 << (e % 64); q == w.0 });
            check(e.is_some(), "the weights of the bits are powers of two");
            let e = e.unwrap();
            check(used[e / 64] >> (e % 64) & 1 == 0, "every power of two occurs once");
            used[e / 64] |= 1 << (e % 64);
            s[e / 64] |= small(&a.get(*v).unwrap()) << (e % 64);
        }
        for i in 0..n {
            let got = match &bits[i] { Boolean::Constant(b) => *b as u64, Boolean::Is(b) => small(&a.get(ix(&b.get_variable())).unwrap()), Boolean::Not(b) => 1 - small(&a.get(ix(&b.get_variable())).unwrap()) };
            check(got == (s[i / 64] >> (i % 64)) & 1, "the bits recompose to the number in every satisfying assignment");
        }
        if strict { check(lt(&s, &MODULI[M]), "no bits of an integer at or above the modulus are accepted"); }
        done += 1;
    }
    check(done > 0, "the bits are tied to the number");
    for mode in 1..3 {
        let mut ab = Rec::<M>::new(mode);
        let num = AllocatedNum::alloc(ab.namespace(|| "x"), || Err(bellman::SynthesisError::AssignmentMissing));
        if let Ok(num) = num {
            let w = if strict { num.to_bits_le_strict(ab.namespace(|| "b")) } else { num.to_bits_le(ab.namespace(|| "b")) }.unwrap();
            check(w.len() == n, "the full width when the number is unknown");
            cs.same_shape(&ab, "the same constraints when the number is unknown");
        }
    }
    reach("done");
}
#[no_mangle]
pub extern "C" fn h_decompose(m: u64, strict: u64) {
    let s = strict == 1;
    match m { 0 => decompose::<0>(s), 1 => decompose::<1>(s), 2 => decompose::<2>(s), 3 => decompose::<3>(s), 4 => decompose::<4>(s), 5 => decompose::<5>(s), 6 => decompose::<6>(s), _ => decompose::<7>(s) }
}
fn pack<const M: usize>(n: usize, kinds: u64) {
    let cap = <IM<M> as PrimeField>::CAPACITY as usize;
    let mut cs = Rec::<M>::new(0);
    let (mut bits, mut vals) = (vec![], vec![]);
    for i in 0..n {
        let v = sym_bool(1 + i as u32);
        let k = if kinds == 0 { 0 } else { (i * 7 + i / 3 + kinds as usize) % 4 };
        let (b, x) = match k {
            0 => (Boolean::from(AllocatedBit::alloc(&mut cs, Some(v)).unwrap()), v),
            1 => (Boolean::from(AllocatedBit::alloc(&mut cs, Some(v)).unwrap()).not(), !v),
            k => (Boolean::constant(k == 2), k == 2),
        };
        bits.push(b);
        vals.push(x);
    }
    pack_into_inputs(cs.namespace(|| "pack"), &bits).unwrap();
    trace("packed", 0);
    let native: Vec<IM<M>> = compute_multipacking(&vals);
    trace("native", 0);
    let want = |b: &[bool]| { let mut w = [0u64; 4]; for (i, x) in b.iter().enumerate() { w[i / 64] |= (*x as u64) << (i % 64); } w };
    let chunks: Vec<[u64; 4]> = vals.chunks(cap).map(|c| want(c)).collect();
    check(native.len() == chunks.len(), "as many elements as the bits fill");
    check(cs.inputs.len() == 1 + native.len(), "one public input for every packed element");
    for (i, c) in chunks.iter().enumerate() {
        for j in 0..4 {
            check_eq(native[i].0[j], c[j], "the packed element has the bits as its binary digits");
            check_eq(cs.inputs[1 + i].0[j], c[j], "the public input is the packed element");
        }
        check(lt(c, &MODULI[M]), "a packed element is below the modulus, so no two bit strings pack to the same element");
    }
    cs.honest();
    // every satisfying assignment: bits free, inputs determined
    let ins: Vec<usize> = (0..cs.cons.len()).filter(|i| (0..3).any(|k| cs.cons[*i][k].iter().any(|t| t.0 > INPUT))).collect();
    let mut a = Any::new(&cs);
    a.solve(&cs, &ins);
    let second: Vec<bool> = bits.iter().map(|b| match b { Boolean::Constant(c) => *c, Boolean::Is(x) => small(&a.get(ix(&x.get_variable())).unwrap()) == 1, Boolean::Not(x) => small(&a.get(ix(&x.get_variable())).unwrap()) == 0 }).collect();
    let want2: Vec<[u64; 4]> = second.chunks(cap).map(|c| want(c)).collect();
    for i in ins {
        let (lp, ln, ul) = a.split2(&cs.cons[i][0]);
        let (rp, rn, ur) = a.split2(&cs.cons[i][1]);
        let (op, on, uo) = a.split2(&cs.cons[i][2]);
        let sign = uo.len() == 1 && uo[0].1 == -IM::<M>::ONE;
        if !ul.is_empty() || !ur.is_empty() || uo.len() != 1 || !(sign || uo[0].1 == IM::ONE) { unsupported("a packing constraint of unknown form") }
        let j = (uo[0].0 - INPUT) as usize;
        // l * r - o = input, or its negation
        let mut p = plus(plus(times(lp, rp), times(ln, rn)), on);
        let mut n = plus(plus(times(lp, rn), times(ln, rp)), op);
        if sign { core::mem::swap(&mut p, &mut n); }
        let forced = plus(n, IM(want2[j - 1]));
        for q in 0..4 { check_eq(p.0[q], forced.0[q], "the constraints force the public input to be the packed bits"); }
        let forced = IM(want2[j - 1]);
        a.inputs[j] = Some(forced);
    }
    check(a.inputs.iter().all(|x| x.is_some()), "every public input is determined by the bits");
    reach("done");
}
#[no_mangle]
pub extern "C" fn h_pack(m: u64, n: u64, kinds: u64) {
    match m { 0 => pack::<0>(n as usize, kinds), 1 => pack::<1>(n as usize, kinds), 2 => pack::<2>(n as usize, kinds), 3 => pack::<3>(n as usize, kinds), 4 => pack::<4>(n as usize, kinds), _ => pack::<5>(n as usize, kinds) }
}
#[no_mangle]
pub extern "C" fn h_bytes_to_bits(n: u64) {
    let b: Vec<u8> = (0..n).map(|i| sym_u8(i as u32)).collect();
    let (be, le) = (bytes_to_bits(&b), bytes_to_bits_le(&b));
    check(be.len() == 8 * b.len() && le.len() == 8 * b.len(), "eight bits for every byte");
    for i in 0..b.len() { for j in 0..8 {
        check(be[8 * i + j] == ((b[i] >> (7 - j)) & 1 == 1), "bits of every byte, most significant first");
        check(le[8 * i + j] == ((b[i] >> j) & 1 == 1), "bits of every byte, least significant first");
    } }
    reach("done");
}
