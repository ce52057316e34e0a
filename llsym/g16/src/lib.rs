//! C27, C28: encodings of proofs, verifying keys and parameters over a toy engine, on symbolic bytes and elements.
#[path = "../../core/src/ext.rs"]
pub mod ext;
#[path = "../../core/src/int.rs"]
pub mod int;
pub mod toy;
use ext::*;
use groth16::{Parameters, Proof, VerifyingKey};
use std::io::{self, Read, Write};
use std::sync::Arc;
use toy::{A, E};

/// Bytes are delivered at most `chunk` at a time; the call numbered `pause` is interrupted; nothing can be read at or
/// beyond `fail` (an error, not the end).
struct Rd<'a> { data: &'a [u8], pos: usize, chunk: usize, pause: usize, fail: usize, calls: usize }
impl<'a> Read for Rd<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.pause { return Err(io::ErrorKind::Interrupted.into()) }
        if out.is_empty() { return Ok(0) }
        if self.pos >= self.fail { return Err(io::ErrorKind::ConnectionReset.into()) }
        let n = out.len().min(self.chunk).min(self.data.len() - self.pos).min(self.fail - self.pos);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// The same for writing.
struct Wr { data: Vec<u8>, chunk: usize, pause: usize, fail: usize, calls: usize }
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls == self.pause { return Err(io::ErrorKind::Interrupted.into()) }
        if b.is_empty() { return Ok(0) }
        if self.data.len() >= self.fail { return Err(io::ErrorKind::BrokenPipe.into()) }
        let n = b.len().min(self.chunk).min(self.fail - self.data.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
const NEVER: usize = 1 << 20;
/// mode 0: all bytes at once; 1: one to three at a time, an interruption at some call; 2: a failure at some byte.
fn faults(mode: u64, len: usize) -> (usize, usize, usize) {
    let pick = |id: u32, n: usize| { let v = sym(id, 12); assume(v < n as u64); concretize(v) as usize };
    match mode {
        0 => (NEVER, NEVER, NEVER),
        1 => (1 + pick(9001, 3), 1 + pick(9002, 6), NEVER),
        _ => (NEVER, NEVER, pick(9003, len + 1)),
    }
}
fn reader(data: &[u8], mode: u64) -> Rd<'_> { let (chunk, pause, fail) = faults(mode, data.len()); Rd { data, pos: 0, chunk, pause, fail, calls: 0 } }
fn writer(mode: u64, len: usize) -> Wr { let (chunk, pause, fail) = faults(mode, len); Wr { data: vec![], chunk, pause, fail, calls: 0 } }
/// Reference parser.
struct Parse<'a> { data: &'a [u8], pos: usize, end: usize }
impl<'a> Parse<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> { if self.pos + n > self.end { return None } let r = &self.data[self.pos..self.pos + n]; self.pos += n; Some(r) }
    fn elem<const K: usize>(&mut self, compressed: bool, checked: bool, nonzero: bool) -> Option<A<K>> {
        let b = self.take(K + 2 - compressed as usize)?;
        let (a, ok) = A::<K>::decode(b, compressed);
        let good = ok & (!checked | a.valid()) & (!nonzero | (a.inf == 0));
        if good { Some(a) } else { None }
    }
    fn list<const K: usize>(&mut self, checked: bool) -> Option<Vec<A<K>>> {
        let b = self.take(4)?;
        let n = (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32;
        let mut v = vec![];
        let mut i = 0;
        while i < n { v.push(self.elem::<K>(false, checked, true)?); i += 1; }
        Some(v)
    }
}
fn same<const K: usize>(a: &A<K>, b: &A<K>, t: &str) { check((a.x == b.x) & (a.y == b.y) & (a.inf == b.inf), t) }
fn same_list<const K: usize>(a: &[A<K>], b: &[A<K>], t: &str) { check(a.len() == b.len(), t); for (x, y) in a.iter().zip(b) { same(x, y, t) } }
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|i| sym_u8(i as u32)).collect() }

#[no_mangle]
pub extern "C" fn h_proof_read(len: u64, mode: u64) {
    let data = bytes(len as usize);
    let mut rd = reader(&data, mode);
    let mut p = Parse { data: &data, pos: 0, end: data.len().min(rd.fail) };
    let want = (|| Some((p.elem::<1>(true, true, true)?, p.elem::<2>(true, true, true)?, p.elem::<1>(true, true, true)?)))();
    match (Proof::<E>::read(&mut rd), want) {
        (Ok(q), Some((a, b, c))) => {
            same(&q.a, &a, "the first element is that of the first bytes");
            same(&q.b, &b, "the second element is that of the next bytes");
            same(&q.c, &c, "the third element is that of the last bytes");
            check(rd.pos == 7, "exactly the bytes of a proof are consumed");
            reach("ok")
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => check(false, "truncated or invalid bytes, the identity and a failing reader are errors"),
        (Err(_), Some(_)) => check(false, "three valid elements are a proof"),
    }
}
/// Any element: of the group (mode 0), other than the identity (1), or also outside the group (2).
fn elem<const K: usize>(id: u32, mode: u64) -> A<K> {
    let x = sym(id, A::<K>::XBITS) as u32;
    let (y, inf) = (sym_u8(id + 1), sym(id + 2, 1) as u8 & 1);
    let k = inf.wrapping_sub(1);
    let a = A { x: x & (k as i8 as i32 as u32), y: y & k, inf };
    if mode != 2 { assume(a.valid()) }
    if mode >= 1 { assume(inf == 0) }
    a
}
/// Where an element is written and how.
fn put<const K: usize>(out: &mut Vec<u8>, a: &A<K>, compressed: bool) {
    let n = K + 2 - compressed as usize;
    let at = out.len();
    out.resize(at + n, 0);
    a.encode(compressed, &mut out[at..]);
}
fn put_list<const K: usize>(out: &mut Vec<u8>, l: &[A<K>]) { out.extend_from_slice(&[0, 0, 0, l.len() as u8]); for a in l { put(out, a, false) } }
fn compare(r: io::Result<()>, w: &Wr, want: &[u8]) -> bool {
    if w.fail < want.len() { check(r.is_err(), "a failing writer is an error"); } else { check(r.is_ok(), "writing succeeds"); }
    let n = want.len().min(w.fail);
    check(w.data.len() == n, "as many bytes as the encoding has");
    for i in 0..n { check_eq(w.data[i] as u64, want[i] as u64, "the bytes are the encodings in order") }
    r.is_ok()
}
#[no_mangle]
pub extern "C" fn h_proof_write(mode: u64) {
    let p = Proof::<E> { a: elem(100, 0), b: elem(110, 0), c: elem(120, 0) };
    let mut want = vec![];
    put(&mut want, &p.a, true);
    put(&mut want, &p.b, true);
    put(&mut want, &p.c, true);
    let mut w = writer(mode, want.len());
    let r = p.write(&mut w);
    if compare(r, &w, &want) {
        let zero = (p.a.inf | p.b.inf | p.c.inf) == 1;
        match Proof::<E>::read(&w.data[..]) {
            Ok(q) => {
                check(!zero, "the identity is never read");
                same(&q.a, &p.a, "reading returns what was written"); same(&q.b, &p.b, "reading returns what was written"); same(&q.c, &p.c, "reading returns what was written");
                check(q == p, "what is read equals what was written");
                reach("read back")
            }
            Err(_) => check(zero, "a written proof without identities is read back"),
        }
    }
    reach("done")
}
/// Equality of proofs compares all of their elements.
#[no_mangle]
pub extern "C" fn h_proof_eq() {
    let p = Proof::<E> { a: elem(100, 0), b: elem(110, 0), c: elem(120, 0) };
    let q = Proof::<E> { a: elem(130, 0), b: elem(140, 0), c: elem(150, 0) };
    let want = (p.a == q.a) & (p.b == q.b) & (p.c == q.c);
    check((p == q) == want, "proofs are equal exactly if their elements are");
    reach("done")
}
struct Vk { g1: [A<1>; 3], g2: [A<2>; 3], ic: Vec<A<1>> }
/// The verifying key of the next bytes; the flag says that one of its first elements is the identity.
fn parse_vk(p: &mut Parse) -> Option<(Vk, bool)> {
    let (a, b1) = (p.elem::<1>(false, true, false)?, p.elem::<1>(false, true, false)?);
    let (b2, g) = (p.elem::<2>(false, true, false)?, p.elem::<2>(false, true, false)?);
    let d1 = p.elem::<1>(false, true, false)?;
    let d2 = p.elem::<2>(false, true, false)?;
    let ic = p.list::<1>(true)?;
    let z = (a.inf | b1.inf | b2.inf | g.inf | d1.inf | d2.inf) == 1;
    Some((Vk { g1: [a, b1, d1], g2: [b2, g, d2], ic }, z))
}
fn same_vk(v: &VerifyingKey<E>, w: &Vk, t: &str) {
    same(&v.alpha_g1, &w.g1[0], t);
    same(&v.beta_g1, &w.g1[1], t);
    same(&v.delta_g1, &w.g1[2], t);
    same(&v.beta_g2, &w.g2[0], t);
    same(&v.gamma_g2, &w.g2[1], t);
    same(&v.delta_g2, &w.g2[2], t);
    same_list(&v.ic, &w.ic, t);
}
/// `fixed` bytes of the first elements are those of fixed points, so that the paths are those of the rest.
fn vk_bytes(n: usize, fixed: u64) -> Vec<u8> {
    let mut d = bytes(n);
    if fixed == 1 {
        let mut w = vec![];
        for i in 0..6u32 { let x = 2 * i + 256; if [2, 3, 5].contains(&i) { put(&mut w, &A::<2> { x, y: x as u8 ^ 0x5a, inf: 0 }, false) } else { put(&mut w, &A::<1> { x, y: x as u8 ^ 0x5a, inf: 0 }, false) } }
        for i in 0..n.min(w.len()) { d[i] = w[i] }
    }
    d
}
#[no_mangle]
pub extern "C" fn h_vk_read(len: u64, mode: u64, fixed: u64) {
    let data = vk_bytes(len as usize, fixed);
    let mut rd = reader(&data, mode);
    let mut p = Parse { data: &data, pos: 0, end: data.len().min(rd.fail) };
    let want = parse_vk(&mut p);
    match (VerifyingKey::<E>::read(&mut rd), want) {
        (Ok(v), Some((w, _))) => { same_vk(&v, &w, "the key has the elements of the bytes"); check(rd.pos == p.pos, "exactly the bytes of a key are consumed"); reach("ok") }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => check(false, "truncated or invalid bytes and identities among the inputs' elements are errors"),
        (Err(_), Some((_, z))) => { check(z, "valid bytes are a key"); reach("identity") }
    }
}
fn vk(ic: u64, inf: u64) -> VerifyingKey<E> {
    VerifyingKey { alpha_g1: elem(1000, 1 - inf), beta_g1: elem(1010, 1), beta_g2: elem(1020, 1), gamma_g2: elem(1030, 1), delta_g1: elem(1040, 1), delta_g2: elem(1050, 1), ic: (0..ic).map(|i| elem(1100 + 10 * i as u32, 1)).collect() }
}
fn put_vk(out: &mut Vec<u8>, v: &VerifyingKey<E>) {
    put(out, &v.alpha_g1, false);
    put(out, &v.beta_g1, false);
    put(out, &v.beta_g2, false);
    put(out, &v.gamma_g2, false);
    put(out, &v.delta_g1, false);
    put(out, &v.delta_g2, false);
    put_list(out, &v.ic);
}
#[no_mangle]
pub extern "C" fn h_vk_write(ic: u64, mode: u64) {
    let v = vk(ic, 0);
    let mut want = vec![];
    put_vk(&mut want, &v);
    let mut w = writer(mode, want.len());
    let r = v.write(&mut w);
    if compare(r, &w, &want) {
        match VerifyingKey::<E>::read(&w.data[..]) {
            Ok(q) => { check(q == v, "what is read equals what was written"); same_vk(&q, &Vk { g1: [v.alpha_g1, v.beta_g1, v.delta_g1], g2: [v.beta_g2, v.gamma_g2, v.delta_g2], ic: v.ic.clone() }, "reading returns what was written"); reach("read back") }
            Err(_) => check(false, "a written key is read back"),
        }
    }
    reach("done")
}
#[no_mangle]
pub extern "C" fn h_vk_eq(n: u64, m: u64) {
    let (a, mut b) = (vk(n, 0), vk(n.min(m), 0));
    b.ic = (0..m).map(|i| elem(3000 + 10 * i as u32, 1)).collect();
    b.alpha_g1 = elem(2000, 1); b.beta_g1 = elem(2010, 1); b.beta_g2 = elem(2020, 1); b.gamma_g2 = elem(2030, 1); b.delta_g1 = elem(2040, 1); b.delta_g2 = elem(2050, 1);
    let mut want = (a.alpha_g1 == b.alpha_g1) & (a.beta_g1 == b.beta_g1) & (a.beta_g2 == b.beta_g2) & (a.gamma_g2 == b.gamma_g2) & (a.delta_g1 == b.delta_g1) & (a.delta_g2 == b.delta_g2) & (n == m);
    if n == m { for i in 0..n as usize { want &= a.ic[i] == b.ic[i] } }
    check((a == b) == want, "keys are equal exactly if their elements are");
    reach("done")
}
/// Any bytes after a fixed key without inputs' elements.
#[no_mangle]
pub extern "C" fn h_params_read(len: u64, mode: u64, checked: u64) {
    no_merge();
    let mut data = vk_bytes(21 + len as usize, 1);
    if len >= 4 { for i in 21..25 { data[i] = 0 } }
    let checked = checked == 1;
    let mut rd = reader(&data, mode);
    let mut p = Parse { data: &data, pos: 0, end: data.len().min(rd.fail) };
    let want = (|| { let k = parse_vk(&mut p)?; Some((k, p.list::<1>(checked)?, p.list::<1>(checked)?, p.list::<1>(checked)?, p.list::<1>(checked)?, p.list::<2>(checked)?)) })();
    match (Parameters::<E>::read(&mut rd, checked), want) {
        (Ok(q), Some(((k, _), h, l, a, b1, b2))) => {
            same_vk(&q.vk, &k, "the parameters have the key of the bytes");
            same_list(&q.h, &h, "the h query is that of the bytes");
            same_list(&q.l, &l, "the l query is that of the bytes");
            same_list(&q.a, &a, "the a query is that of the bytes");
            same_list(&q.b_g1, &b1, "the first b query is that of the bytes");
            same_list(&q.b_g2, &b2, "the second b query is that of the bytes");
            check(rd.pos == p.pos, "exactly the bytes of the parameters are consumed");
            reach("ok")
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => check(false, "truncated or invalid bytes and identities are errors"),
        (Err(_), Some(_)) => check(false, "valid bytes are parameters"),
    }
}
/// lens: sizes of ic, h, l, a, b_g1, b_g2 (base 4). `kind` 1: elements of the group; 2: also others (only the unchecked mode reads them).
#[no_mangle]
pub extern "C" fn h_params_write(lens: u64, mode: u64, kind: u64) {
    let n = |i: u32| (lens >> (2 * i)) & 3;
    let l1 = |i: u32| Arc::new((0..n(i)).map(|j| elem::<1>(4000 + 100 * i + 10 * j as u32, kind)).collect::<Vec<_>>());
    let p = Parameters::<E> { vk: vk(n(0), 0), h: l1(1), l: l1(2), a: l1(3), b_g1: l1(4), b_g2: Arc::new((0..n(5)).map(|j| elem::<2>(4500 + 10 * j as u32, kind)).collect()) };
    let mut want = vec![];
    put_vk(&mut want, &p.vk);
    put_list(&mut want, &p.h);
    put_list(&mut want, &p.l);
    put_list(&mut want, &p.a);
    put_list(&mut want, &p.b_g1);
    put_list(&mut want, &p.b_g2);
    let mut w = writer(mode, want.len());
    let r = p.write(&mut w);
    if compare(r, &w, &want) {
        for checked in [true, false] {
            let mut valid = true;
            for l in [&p.h, &p.l, &p.a, &p.b_g1] { for e in l.iter() { valid &= e.valid() } }
            for e in p.b_g2.iter() { valid &= e.valid() }
            match Parameters::<E>::read(&w.data[..], checked) {
                Ok(q) => {
                    check(!checked | valid, "elements outside the group are rejected when checking");
                    check(q == p, "what is read equals what was written");
                    same_list(&q.vk.ic, &p.vk.ic, "reading returns what was written");
                    for (x, y) in [(&q.h, &p.h), (&q.l, &p.l), (&q.a, &p.a), (&q.b_g1, &p.b_g1)] { same_list(x, y, "reading returns what was written") }
                    same_list(&q.b_g2, &p.b_g2, "reading returns what was written");
                    reach("read back")
                }
                Err(_) => check(checked & !valid, "written parameters are read back"),
            }
        }
    }
    reach("done")
}
/// Equality of parameters: all lists of the sizes given, independent elements; `which` differs in size by one (7: none).
#[no_mangle]
pub extern "C" fn h_params_eq(lens: u64, which: u64) {
    let make = |id: u32, extra: bool| {
        let n = |i: u32| ((lens >> (2 * i)) & 3) + (extra && i as u64 == which) as u64;
        let l1 = |i: u32| Arc::new((0..n(i)).map(|j| elem::<1>(id + 100 * i + 10 * j as u32, 1)).collect::<Vec<_>>());
        let mut k = vk(0, 0);
        k.ic = l1(0).to_vec();
        k.gamma_g2 = elem(id + 90, 1);
        Parameters::<E> { vk: k, h: l1(1), l: l1(2), a: l1(3), b_g1: l1(4), b_g2: Arc::new((0..n(5)).map(|j| elem::<2>(id + 500 + 10 * j as u32, 1)).collect()) }
    };
    let (p, q) = (make(5000, false), make(6000, true));
    let mut want = which > 5;
    want &= p.vk.gamma_g2 == q.vk.gamma_g2;
    for (x, y) in [(&p.vk.ic, &q.vk.ic), (&*p.h, &*q.h), (&*p.l, &*q.l), (&*p.a, &*q.a), (&*p.b_g1, &*q.b_g1)] { for (a, b) in x.iter().zip(y.iter()) { want &= a == b } }
    for (a, b) in p.b_g2.iter().zip(q.b_g2.iter()) { want &= a == b }
    check((p == q) == want, "parameters are equal exactly if their elements are");
    reach("done")
}
pub fn call(name: &str, a: &[u64]) -> bool {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    match name {
        "h_proof_read" => h_proof_read(g(0), g(1)),
        "h_proof_write" => h_proof_write(g(0)),
        "h_proof_eq" => h_proof_eq(),
        "h_vk_read" => h_vk_read(g(0), g(1), g(2)),
        "h_vk_write" => h_vk_write(g(0), g(1)),
        "h_vk_eq" => h_vk_eq(g(0), g(1)),
        "h_params_read" => h_params_read(g(0), g(1), g(2)),
        "h_params_write" => h_params_write(g(0), g(1), g(2)),
        "h_params_eq" => h_params_eq(g(0), g(1)),
        _ => return false,
    }
    true
}
