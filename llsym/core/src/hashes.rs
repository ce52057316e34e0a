//! C09, C10: the hash gadgets against reference implementations written from the specifications.
use crate::ext::*;
use crate::rcs::Rcs;
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::ConstraintSystem;

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
// kept apart so that the compiler does not rewrite them into sums
#[inline(never)]
fn ch(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (!x & z) }
#[inline(never)]
fn maj(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (x & z) ^ (y & z) }
#[inline(never)]
fn sha_block(h: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]) }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = ch(v[4], v[5], v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = maj(v[0], v[1], v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
}
fn sha_ref(m: &[u8], pad: bool) -> Vec<u8> {
    let mut h = IV;
    let mut d = m.to_vec();
    if pad {
        d.push(0x80);
        while d.len() % 64 != 56 { d.push(0) }
        d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    }
    for b in d.chunks(64) { sha_block(&mut h, b) }
    let mut o = vec![];
    for x in h { o.extend_from_slice(&x.to_be_bytes()) }
    o
}
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
#[inline(never)]
fn b2_block(h: &mut [u32; 8], b: &[u8], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 { m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]) }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last { v[14] = !v[14] }
    for r in 0..10 {
        let s = &SIGMA[r];
        for (i, q) in [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]].iter().enumerate() {
            let [a, b, c, d] = *q;
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * i]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * i + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8] }
}
fn b2_ref(m: &[u8], pers: &[u8; 8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    h[6] ^= u32::from_le_bytes([pers[0], pers[1], pers[2], pers[3]]);
    h[7] ^= u32::from_le_bytes([pers[4], pers[5], pers[6], pers[7]]);
    let n = if m.is_empty() { 1 } else { (m.len() + 63) / 64 };
    for i in 0..n {
        let mut b = [0u8; 64];
        let e = core::cmp::min(m.len(), 64 * i + 64);
        b[..e - 64 * i].copy_from_slice(&m[64 * i..e]);
        b2_block(&mut h, &b, e as u64, i + 1 == n);
    }
    let mut o = vec![];
    for x in h { o.extend_from_slice(&x.to_le_bytes()) }
    o
}
/// n symbolic bytes; the bits of byte k are listed most (`be`) or least significant first. With `mixed`, some bits are
/// negated or constant.
fn message(cs: &mut Rcs, n: usize, mixed: u64, be: bool) -> (Vec<Boolean>, Vec<u8>) {
    let (mut bits, mut bytes) = (vec![], vec![]);
    cs.as_input = true;
    for k in 0..n {
        let v = sym_u8(k as u32);
        let mut spec = 0u8;
        for j in 0..8u32 {
            let i = if be { 7 - j } else { j };
            let b = (v >> i) & 1 == 1;
            let how = if mixed == 0 { 9 } else if mixed == 2 { if k % 2 == 0 { 0 } else { 9 } } else { (k as u32 * 3 + j * 5) % 7 };
            let (bit, val) = match how {
                0 => { let c = (k as u32 + j) % 3 == 0; (Boolean::constant(c), c) }
                1 | 2 => (Boolean::from(AllocatedBit::alloc(&mut *cs, Some(b)).unwrap()).not(), !b),
                _ => (Boolean::from(AllocatedBit::alloc(&mut *cs, Some(b)).unwrap()), b),
            };
            bits.push(bit);
            spec |= (val as u8) << i;
        }
        bytes.push(spec);
    }
    cs.as_input = false;
    (bits, bytes)
}
fn finish(out: Vec<Boolean>, spec: Vec<u8>, be: bool, name: &str) {
    check(out.len() == 256, "the digest has 256 bits");
    for b in &out { match b { Boolean::Is(a) | Boolean::Not(a) => r1cs_out(Rcs::index(&a.get_variable())), _ => {} } }
    r1cs_solve(name);
    for k in 0..8 {
        let (mut tracked, mut forced, mut want) = (0u64, 0u64, 0u64);
        for j in 0..32 {
            let i = if be { 31 - j } else { j };
            let b = &out[32 * k + j];
            tracked |= (b.get_value().unwrap() as u64) << i;
            let f = match b {
                Boolean::Constant(c) => *c,
                Boolean::Is(a) => r1cs_def(Rcs::index(&a.get_variable())) & 1 == 1,
                Boolean::Not(a) => r1cs_def(Rcs::index(&a.get_variable())) & 1 == 0,
            };
            forced |= (f as u64) << i;
        }
        for j in 0..4 { want |= (spec[4 * k + j] as u64) << (8 * if be { 3 - j } else { j }) }
        check_eq(tracked, want, "the digest computed by the witness is the hash of the input");
        check_eq(forced, want, "the digest forced by the constraints is the hash of the input");
    }
}
#[no_mangle]
pub extern "C" fn h_sha256(n: u64, mixed: u64) {
    let mut cs = Rcs::new(true, false);
    let (bits, bytes) = message(&mut cs, n as usize, mixed, true);
    let out = sha256(cs.namespace(|| "sha"), &bits).unwrap();
    trace("synthesized", 0);
    let spec = sha_ref(&bytes, true);
    finish(out, spec, true, "SHA-256");
}
#[no_mangle]
pub extern "C" fn h_sha256_block(mixed: u64) {
    let mut cs = Rcs::new(true, false);
    let (bits, bytes) = message(&mut cs, 64, mixed, true);
    let out = sha256_block_no_padding(cs.namespace(|| "sha"), &bits).unwrap();
    let spec = sha_ref(&bytes, false);
    finish(out, spec, true, "SHA-256 block");
}
#[no_mangle]
pub extern "C" fn h_blake2s(n: u64, mixed: u64, pers: u64) {
    let mut cs = Rcs::new(true, false);
    let (bits, bytes) = message(&mut cs, n as usize, mixed, false);
    let pers = match pers { 0 => *b"\x12\x34\x56\x78\x9a\xbc\xde\xf1", 1 => [0; 8], 2 => [0xff; 8], _ => *b"Zcash_gh" };
    let out = blake2s(cs.namespace(|| "b2"), &bits, &pers).unwrap();
    let spec = b2_ref(&bytes, &pers);
    finish(out, spec, false, "BLAKE2s");
}
