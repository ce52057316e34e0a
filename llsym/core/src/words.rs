//! C07: 32-bit word gadgets.
use crate::ext::*;
use crate::rcs::Rcs;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::uint32::UInt32;
use bellman::ConstraintSystem;

/// A word operand: its bits are symbolic, and each is allocated, negated or constant as `kind` says.
pub fn operand(cs: &mut Rcs, id: u32, kind: u64) -> (UInt32, u32) {
    let v = sym_u32(id);
    cs.as_input = true;
    let w = match kind {
        0 => UInt32::alloc(&mut *cs, Some(v)).unwrap(),
        1 => { let k = 0xdead_beef_u32.rotate_left(id); cs.as_input = false; return (UInt32::constant(k), k) }
        _ => {
            // mixed: two bits out of eight constant, some negated
            let mut bits = vec![];
            let mut spec = 0u32;
            for i in 0..32u32 {
                let b = (v >> i) & 1 == 1;
                let (bit, val) = match (i * 5 + id + kind as u32) % 8 {
                    0 => (Boolean::constant(true), true),
                    1 => (Boolean::constant(false), false),
                    2 | 3 => { let a = AllocatedBit::alloc(&mut *cs, Some(b)).unwrap(); (Boolean::from(a).not(), !b) }
                    _ => { let a = AllocatedBit::alloc(&mut *cs, Some(b)).unwrap(); (Boolean::from(a), b) }
                };
                bits.push(bit);
                spec |= (val as u32) << i;
            }
            cs.as_input = false;
            return (UInt32::from_bits(&bits), spec);
        }
    };
    cs.as_input = false;
    (w, v)
}
/// The bits of a word: value of each bit as the gadget tracks it, and as the constraints force it.
pub fn outs(w: &UInt32) {
    for b in w.clone().into_bits() { match b { Boolean::Is(a) | Boolean::Not(a) => r1cs_out(Rcs::index(&a.get_variable())), _ => {} } }
}
pub fn tracked(bits: &[Boolean]) -> u32 {
    let mut r = 0;
    for (i, b) in bits.iter().enumerate() { r |= (b.get_value().unwrap() as u32) << i; }
    r
}
pub fn forced(bits: &[Boolean]) -> u32 {
    let mut r = 0;
    for (i, b) in bits.iter().enumerate() {
        let x = match b {
            Boolean::Constant(c) => *c,
            Boolean::Is(a) => r1cs_def(Rcs::index(&a.get_variable())) & 1 == 1,
            Boolean::Not(a) => r1cs_def(Rcs::index(&a.get_variable())) & 1 == 0,
        };
        r |= (x as u32) << i;
    }
    r
}
fn finish(w: UInt32, spec: u32, name: &str) {
    outs(&w);
    r1cs_solve(name);
    let bits = w.clone().into_bits();
    check(bits.len() == 32, "a word has 32 bits");
    check_eq(forced(&bits) as u64, spec as u64, "output bits forced by the constraints are the machine result");
    check_eq(tracked(&bits) as u64, spec as u64, "values of the output bits are the machine result");
    // the tracked word value: observed through the value of a sum with zero
    let mut be = w.clone().into_bits_be(); be.reverse();
    check_eq(tracked(&be) as u64, spec as u64, "big-endian bits are the machine result");
}
/// The value the gadget tracks for a word is observable as the value of its sum with zero.
fn tracked_value(w: &UInt32, spec: u32) {
    let mut cs2 = Rcs::new(false, false);
    let s = { let mut m = MultiEq::new(&mut cs2); UInt32::addmany(&mut m, &[w.clone(), UInt32::constant(0)]).unwrap() };
    check_eq(tracked(&s.into_bits()) as u64, spec as u64, "the tracked value of the word is the machine result");
}
#[no_mangle]
pub extern "C" fn h_word_op(op: u64, ka: u64, kb: u64, kc: u64, by: u64) {
    let mut cs = Rcs::new(true, false);
    let (a, va) = operand(&mut cs, 1, ka);
    let by = by as usize;
    let (w, spec) = match op {
        0 => (a.rotr(by), va.rotate_right((by % 32) as u32)),
        1 => (a.shr(by), va >> (by % 32)),
        2 => { let (b, vb) = operand(&mut cs, 2, kb); (a.xor(cs.namespace(|| "x"), &b).unwrap(), va ^ vb) }
        3 | 4 => {
            let (b, vb) = operand(&mut cs, 2, kb);
            let (c, vc) = operand(&mut cs, 3, kc);
            if op == 3 { (UInt32::sha256_ch(cs.namespace(|| "x"), &a, &b, &c).unwrap(), (va & vb) ^ (!va & vc)) }
            else { (UInt32::sha256_maj(cs.namespace(|| "x"), &a, &b, &c).unwrap(), (va & vb) ^ (va & vc) ^ (vb & vc)) }
        }
        5 => { let bits = a.clone().into_bits(); (UInt32::from_bits(&bits), va) }
        6 => { let bits = a.clone().into_bits_be(); (UInt32::from_bits_be(&bits), va) }
        _ => { let bits = a.clone().into_bits(); (UInt32::from_bits_be(&bits), va.reverse_bits()) }
    };
    tracked_value(&w, spec);
    finish(w, spec, "word operation");
}
#[no_mangle]
pub extern "C" fn h_word_add(n: u64, kinds: u64) {
    let mut cs = Rcs::new(true, false);
    let mut ops = vec![];
    let mut spec = 0u32;
    for i in 0..n {
        let (w, v) = operand(&mut cs, 10 + i as u32, (kinds >> (2 * i)) & 3);
        spec = spec.wrapping_add(v);
        ops.push(w);
    }
    let w = { let mut m = MultiEq::new(&mut cs); UInt32::addmany(&mut m, &ops).unwrap() };
    tracked_value(&w, spec);
    finish(w, spec, "modular addition");
}
