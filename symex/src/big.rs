//! 256-bit modular arithmetic and small signed big integers (no external crates).

pub type U256 = [u64; 4];

pub fn cmp(a: &U256, b: &U256) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn add(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    (r, c != 0)
}
pub fn sub(a: &U256, b: &U256) -> (U256, bool) {
    let mut r = [0u64; 4];
    let mut bw = 0i128;
    for i in 0..4 {
        let s = a[i] as i128 - b[i] as i128 - bw;
        if s < 0 {
            r[i] = (s + (1i128 << 64)) as u64;
            bw = 1;
        } else {
            r[i] = s as u64;
            bw = 0;
        }
    }
    (r, bw != 0)
}
pub fn is_zero(a: &U256) -> bool {
    *a == [0; 4]
}
pub fn bit(a: &U256, i: usize) -> bool {
    i < 256 && (a[i / 64] >> (i % 64)) & 1 == 1
}
pub fn bits(a: &U256) -> usize {
    for i in (0..256).rev() {
        if bit(a, i) {
            return i + 1;
        }
    }
    0
}
/// Decimal string.
pub fn dec(a: &U256) -> String {
    let mut v = *a;
    let mut out = Vec::new();
    loop {
        let mut rem = 0u128;
        let mut nz = false;
        for i in (0..4).rev() {
            let cur = (rem << 64) | v[i] as u128;
            v[i] = (cur / 1_000_000_000_000_000_000) as u64;
            rem = cur % 1_000_000_000_000_000_000;
            nz |= v[i] != 0;
        }
        if nz {
            out.push(format!("{:018}", rem));
        } else {
            out.push(format!("{}", rem));
            break;
        }
    }
    out.reverse();
    out.concat()
}
pub fn from_dec(s: &str) -> U256 {
    let mut v = [0u64; 4];
    for ch in s.bytes() {
        let mut c = (ch - b'0') as u128;
        for i in 0..4 {
            let x = v[i] as u128 * 10 + c;
            v[i] = x as u64;
            c = x >> 64;
        }
    }
    v
}

/// Montgomery context for an odd modulus below 2^255.
#[derive(Clone)]
pub struct Mont {
    pub p: U256,
    n0: u64,
    r2: U256,
    pub one: U256,
}
impl Mont {
    pub fn new(p: U256) -> Mont {
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv).wrapping_mul(p[0]);
        }
        // inv = p^-1 mod 2^64 via repeated squaring of p^(2^63-1)
        let n0 = inv.wrapping_neg();
        let mut m = Mont { p, n0, r2: [0; 4], one: [0; 4] };
        let mut r = [1u64, 0, 0, 0];
        if cmp(&r, &p) != std::cmp::Ordering::Less {
            r = [0; 4];
        }
        for i in 0..512 {
            r = m.add(&r, &r);
            if i == 255 {
                m.one = r;
            }
        }
        m.r2 = r;
        m
    }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let (s, c) = add(a, b);
        let (t, bw) = sub(&s, &self.p);
        if c || !bw {
            t
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U256, b: &U256) -> U256 {
        let (s, bw) = sub(a, b);
        if bw {
            add(&s, &self.p).0
        } else {
            s
        }
    }
    pub fn neg(&self, a: &U256) -> U256 {
        if is_zero(a) {
            *a
        } else {
            sub(&self.p, a).0
        }
    }
    pub fn mul(&self, a: &U256, b: &U256) -> U256 {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                t[j] = x as u64;
                c = x >> 64;
            }
            let x = t[4] as u128 + c;
            t[4] = x as u64;
            t[5] = (x >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..4 {
                let x = t[j] as u128 + m as u128 * self.p[j] as u128 + c;
                t[j - 1] = x as u64;
                c = x >> 64;
            }
            let x = t[4] as u128 + c;
            t[3] = x as u64;
            t[4] = t[5] + (x >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        let (s, bw) = sub(&r, &self.p);
        if t[4] != 0 || !bw {
            s
        } else {
            r
        }
    }
    pub fn to(&self, a: &U256) -> U256 {
        let mut a = *a;
        while cmp(&a, &self.p) != std::cmp::Ordering::Less {
            // only used for small moduli and values close to p: reduce bitwise
            let sh = bits(&a) - bits(&self.p);
            let mut q = self.p;
            for _ in 0..sh {
                q = add(&q, &q).0;
            }
            if cmp(&q, &a) == std::cmp::Ordering::Greater {
                let mut h = q;
                for i in 0..4 {
                    h[i] = (q[i] >> 1) | if i < 3 { q[i + 1] << 63 } else { 0 };
                }
                q = h;
            }
            a = sub(&a, &q).0;
        }
        self.mul(&a, &self.r2)
    }
    pub fn from(&self, a: &U256) -> U256 {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn u64(&self, a: u64) -> U256 {
        self.to(&[a, 0, 0, 0])
    }
    pub fn i64(&self, a: i64) -> U256 {
        if a < 0 {
            self.neg(&self.u64(a.unsigned_abs()))
        } else {
            self.u64(a as u64)
        }
    }
    pub fn pow(&self, a: &U256, e: &U256) -> U256 {
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U256) -> U256 {
        let e = sub(&self.p, &[2, 0, 0, 0]).0;
        self.pow(a, &e)
    }
}

/// Two's complement signed integer of arbitrary length.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Int(pub Vec<u64>);
impl Int {
    pub fn small(x: i64) -> Int {
        if x == 0 {
            Int(vec![])
        } else {
            Int(vec![x as u64])
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    fn sign(&self) -> u64 {
        match self.0.last() {
            Some(x) if (*x >> 63) == 1 => u64::MAX,
            _ => 0,
        }
    }
    fn trim(mut self) -> Int {
        loop {
            let n = self.0.len();
            if n == 0 {
                break;
            }
            if n == 1 {
                if self.0[0] == 0 {
                    self.0.pop();
                }
                break;
            }
            let (t, s) = (self.0[n - 1], self.0[n - 2] >> 63);
            if (t == 0 && s == 0) || (t == u64::MAX && s == 1) {
                self.0.pop();
            } else {
                break;
            }
        }
        self
    }
    pub fn add(&self, o: &Int) -> Int {
        let n = self.0.len().max(o.0.len()) + 1;
        let (sa, sb) = (self.sign(), o.sign());
        let mut r = Vec::with_capacity(n);
        let mut c = 0u128;
        for i in 0..n {
            let a = *self.0.get(i).unwrap_or(&sa);
            let b = *o.0.get(i).unwrap_or(&sb);
            let x = a as u128 + b as u128 + c;
            r.push(x as u64);
            c = x >> 64;
        }
        Int(r).trim()
    }
    pub fn neg(&self) -> Int {
        let n = self.0.len() + 1;
        let s = self.sign();
        let mut r = Vec::with_capacity(n);
        let mut c = 1u128;
        for i in 0..n {
            let a = !*self.0.get(i).unwrap_or(&s);
            let x = a as u128 + c;
            r.push(x as u64);
            c = x >> 64;
        }
        Int(r).trim()
    }
    /// Signed digits in radix 2^32 (each in [-2^31, 2^31)).
    pub fn digits32(&self) -> Vec<i64> {
        let s = self.sign();
        let neg = s != 0;
        let v = if neg { self.neg() } else { self.clone() };
        let mut out = Vec::new();
        let mut c = 0i64;
        for i in 0..(v.0.len() * 2 + 1) {
            let l = *v.0.get(i / 2).unwrap_or(&0);
            let d = ((l >> (32 * (i % 2))) & 0xffff_ffff) as i64 + c;
            if d >= 1 << 31 {
                out.push(d - (1 << 32));
                c = 1;
            } else {
                out.push(d);
                c = 0;
            }
        }
        assert_eq!(c, 0);
        if neg {
            for d in &mut out {
                *d = -*d;
            }
        }
        out
    }
}
impl Int {
    pub fn from_u256(a: &U256) -> Int {
        let mut v = a.to_vec();
        v.push(0);
        Int(v).trim()
    }
    pub fn mul_u64(&self, k: u64) -> Int {
        let neg = self.sign() != 0;
        let v = if neg { self.neg() } else { self.clone() };
        let mut r = Vec::new();
        let mut c = 0u128;
        for l in v.0.iter() {
            let x = *l as u128 * k as u128 + c;
            r.push(x as u64);
            c = x >> 64;
        }
        r.push(c as u64);
        r.push(0);
        let r = Int(r).trim();
        if neg {
            r.neg()
        } else {
            r
        }
    }
    pub fn is_neg(&self) -> bool {
        self.sign() != 0
    }
    pub fn nbits(&self) -> usize {
        let v = if self.is_neg() { self.neg() } else { self.clone() };
        for i in (0..v.0.len() * 64).rev() {
            if (v.0[i / 64] >> (i % 64)) & 1 == 1 {
                return i + 1;
            }
        }
        0
    }
    /// non-negative value as decimal
    pub fn dec(&self) -> String {
        let neg = self.is_neg();
        let mut v = if neg { self.neg().0 } else { self.0.clone() };
        let mut out = Vec::new();
        loop {
            let mut rem = 0u128;
            let mut nz = false;
            for l in v.iter_mut().rev() {
                let cur = (rem << 64) | *l as u128;
                *l = (cur / 1_000_000_000_000_000_000) as u64;
                rem = cur % 1_000_000_000_000_000_000;
                nz |= *l != 0;
            }
            if nz {
                out.push(format!("{:018}", rem));
            } else {
                out.push(format!("{}", rem));
                break;
            }
        }
        out.reverse();
        format!("{}{}", if neg { "-" } else { "" }, out.concat())
    }
    pub fn lt(&self, o: &Int) -> bool {
        self.add(&o.neg()).is_neg()
    }
}
