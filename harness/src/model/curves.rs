//! Textbook ECDSA (secp256k1, secp256r1) and Ed25519 over arbitrary-precision integers, written
//! from SEC 1 / FIPS 186 / RFC 8032; shares nothing with the crates cesride uses.
use num_bigint::BigUint;
use sha2::{Digest, Sha256, Sha512};

type N = BigUint;
fn h(s: &str) -> N {
    N::parse_bytes(s.as_bytes(), 16).unwrap()
}
fn be32(n: &N) -> Vec<u8> {
    let b = n.to_bytes_be();
    let mut v = vec![0u8; 32 - b.len()];
    v.extend(b);
    v
}
fn zero() -> N {
    N::from(0u8)
}
fn one() -> N {
    N::from(1u8)
}
fn sub(a: &N, b: &N, p: &N) -> N {
    ((a + p) - (b % p)) % p
}
fn inv(a: &N, p: &N) -> N {
    a.modpow(&(p - N::from(2u8)), p)
}

pub struct Weier {
    p: N,
    a: N,
    b: N,
    pub n: N,
    g: (N, N),
}
type Pt = Option<(N, N)>;
pub fn k1() -> Weier {
    Weier {
        p: h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
        a: zero(),
        b: N::from(7u8),
        n: h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        g: (
            h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
        ),
    }
}
pub fn r1() -> Weier {
    Weier {
        p: h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        a: h("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
        b: h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        n: h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        g: (
            h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ),
    }
}
impl Weier {
    fn add(&self, x: &Pt, y: &Pt) -> Pt {
        let p = &self.p;
        let (a, b) = match (x, y) {
            (None, _) => return y.clone(),
            (_, None) => return x.clone(),
            (Some(a), Some(b)) => (a, b),
        };
        let l = if a.0 == b.0 {
            if (&a.1 + &b.1) % p == zero() {
                return None;
            }
            (N::from(3u8) * &a.0 * &a.0 + &self.a) * inv(&(N::from(2u8) * &a.1), p) % p
        } else {
            sub(&b.1, &a.1, p) * inv(&sub(&b.0, &a.0, p), p) % p
        };
        let x3 = sub(&sub(&(&l * &l % p), &a.0, p), &b.0, p);
        let y3 = sub(&(&l * sub(&a.0, &x3, p) % p), &a.1, p);
        Some((x3, y3))
    }
    fn mul(&self, k: &N, q: &Pt) -> Pt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, q);
            }
        }
        r
    }
    pub fn seed_ok(&self, seed: &[u8]) -> bool {
        let k = N::from_bytes_be(seed);
        seed.len() == 32 && k > zero() && k < self.n
    }
    pub fn public(&self, seed: &[u8]) -> Vec<u8> {
        let (x, y) = self.mul(&N::from_bytes_be(seed), &Some(self.g.clone())).unwrap();
        let mut v = vec![if y.bit(0) { 3 } else { 2 }];
        v.extend(be32(&x));
        v
    }
    fn point(&self, key: &[u8]) -> Option<(N, N)> {
        if key.len() != 33 || (key[0] != 2 && key[0] != 3) {
            return None;
        }
        let p = &self.p;
        let x = N::from_bytes_be(&key[1..]);
        if &x >= p {
            return None;
        }
        let rhs = (&x * &x * &x + &self.a * &x + &self.b) % p;
        // both primes are 3 mod 4
        let mut y = rhs.modpow(&((p + one()) / N::from(4u8)), p);
        if &y * &y % p != rhs {
            return None;
        }
        if y.bit(0) != (key[0] == 3) {
            y = p - y;
        }
        Some((x, y))
    }
    /// SHA-256 ECDSA verification; None when the key or signature is malformed
    pub fn verify(&self, key: &[u8], sig: &[u8], msg: &[u8]) -> Option<bool> {
        let q = self.point(key)?;
        if sig.len() != 64 {
            return None;
        }
        let (r, s) = (N::from_bytes_be(&sig[..32]), N::from_bytes_be(&sig[32..]));
        if r == zero() || s == zero() || r >= self.n || s >= self.n {
            return None;
        }
        let z = N::from_bytes_be(&Sha256::digest(msg));
        let w = inv(&s, &self.n);
        let (u1, u2) = (&z * &w % &self.n, &r * &w % &self.n);
        let pt = self.add(&self.mul(&u1, &Some(self.g.clone())), &self.mul(&u2, &Some(q)));
        Some(match pt {
            None => false,
            Some((x, _)) => x % &self.n == r,
        })
    }
    /// deterministic signing with a nonce derived from the inputs (for checking acceptance only)
    pub fn sign(&self, seed: &[u8], msg: &[u8], low_s: bool) -> Vec<u8> {
        let d = N::from_bytes_be(seed);
        let z = N::from_bytes_be(&Sha256::digest(msg));
        for ctr in 0u8.. {
            let mut hh = Sha256::new();
            hh.update([ctr]);
            hh.update(seed);
            hh.update(msg);
            let k = N::from_bytes_be(&hh.finalize()) % &self.n;
            if k == zero() {
                continue;
            }
            let (x, _) = self.mul(&k, &Some(self.g.clone())).unwrap();
            let r = x % &self.n;
            let mut s = inv(&k, &self.n) * (&z + &r * &d) % &self.n;
            if r == zero() || s == zero() {
                continue;
            }
            if low_s && &s * N::from(2u8) > self.n {
                s = &self.n - s;
            }
            let mut v = be32(&r);
            v.extend(be32(&s));
            return v;
        }
        unreachable!()
    }
}

pub struct Ed {
    p: N,
    d: N,
    pub l: N,
    g: (N, N),
}
pub fn ed() -> Ed {
    let p = (one() << 255) - N::from(19u8);
    let d = sub(&zero(), &(N::from(121665u32) * inv(&N::from(121666u32), &p)), &p);
    let l = (one() << 252) + N::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
    let y = N::from(4u8) * inv(&N::from(5u8), &p) % &p;
    let mut e = Ed { p, d, l, g: (zero(), zero()) };
    let x = e.recover(&y, false).unwrap();
    e.g = (x, y);
    e
}
type EPt = (N, N);
impl Ed {
    fn recover(&self, y: &N, sign: bool) -> Option<N> {
        let p = &self.p;
        let u = sub(&(y * y), &one(), p);
        let v = (&self.d * y * y + one()) % p;
        let x2 = u * inv(&v, p) % p;
        let mut x = x2.modpow(&((p + N::from(3u8)) / N::from(8u8)), p);
        if &x * &x % p != x2 {
            let i = N::from(2u8).modpow(&((p - one()) / N::from(4u8)), p);
            x = x * i % p;
        }
        if &x * &x % p != x2 {
            return None;
        }
        if x == zero() && sign {
            return None;
        }
        if x.bit(0) != sign {
            x = p - x;
        }
        Some(x)
    }
    fn add(&self, a: &EPt, b: &EPt) -> EPt {
        let p = &self.p;
        let t = &self.d * &a.0 * &b.0 % p * &a.1 * &b.1 % p;
        let x = (&a.0 * &b.1 + &b.0 * &a.1) * inv(&((one() + &t) % p), p) % p;
        let y = (&a.1 * &b.1 + &a.0 * &b.0) * inv(&sub(&one(), &t, p), p) % p;
        (x, y)
    }
    fn mul(&self, k: &N, q: &EPt) -> EPt {
        let mut r = (zero(), one());
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, q);
            }
        }
        r
    }
    fn enc(&self, a: &EPt) -> Vec<u8> {
        let mut v = be32(&a.1);
        v.reverse();
        if a.0.bit(0) {
            v[31] |= 0x80;
        }
        v
    }
    fn dec(&self, b: &[u8]) -> Option<EPt> {
        if b.len() != 32 {
            return None;
        }
        let mut b = b.to_vec();
        let sign = b[31] & 0x80 != 0;
        b[31] &= 0x7f;
        let y = N::from_bytes_le(&b);
        if y >= self.p {
            return None;
        }
        Some((self.recover(&y, sign)?, y))
    }
    fn expand(&self, seed: &[u8]) -> (N, Vec<u8>) {
        let hh = Sha512::digest(seed);
        let mut a = hh[..32].to_vec();
        a[0] &= 248;
        a[31] &= 127;
        a[31] |= 64;
        (N::from_bytes_le(&a), hh[32..].to_vec())
    }
    pub fn public(&self, seed: &[u8]) -> Vec<u8> {
        let (a, _) = self.expand(seed);
        self.enc(&self.mul(&a, &self.g))
    }
    pub fn sign(&self, seed: &[u8], msg: &[u8]) -> Vec<u8> {
        let (a, prefix) = self.expand(seed);
        let pk = self.enc(&self.mul(&a, &self.g));
        let r = N::from_bytes_le(&Sha512::digest([&prefix[..], msg].concat())) % &self.l;
        let rr = self.enc(&self.mul(&r, &self.g));
        let k = N::from_bytes_le(&Sha512::digest([&rr[..], &pk[..], msg].concat())) % &self.l;
        let s = (r + k * a) % &self.l;
        let mut v = rr;
        let mut sb = be32(&s);
        sb.reverse();
        v.extend(sb);
        v
    }
    pub fn verify(&self, key: &[u8], sig: &[u8], msg: &[u8]) -> Option<bool> {
        let a = self.dec(key)?;
        if sig.len() != 64 {
            return None;
        }
        let r = self.dec(&sig[..32])?;
        let s = N::from_bytes_le(&sig[32..]);
        if s >= self.l {
            return None;
        }
        let k = N::from_bytes_le(&Sha512::digest([&sig[..32], key, msg].concat())) % &self.l;
        let left = self.mul(&s, &self.g);
        let right = self.add(&r, &self.mul(&k, &a));
        Some(left == right)
    }
    /// encodings of the points of small order, canonical and not
    pub fn small_order(&self) -> Vec<Vec<u8>> {
        let mut out: Vec<Vec<u8>> = vec![];
        // multiply random points by the prime order: lands in the 8-torsion
        let mut y = N::from(2u8);
        let mut gen = None;
        while gen.is_none() {
            if let Some(x) = self.recover(&y, false) {
                let t = self.mul(&self.l, &(x, y.clone()));
                let t4 = self.mul(&N::from(4u8), &t);
                if t4 != (zero(), one()) {
                    gen = Some(t);
                }
            }
            y += one();
        }
        let gen = gen.unwrap();
        let mut q = (zero(), one());
        for _ in 0..8 {
            out.push(self.enc(&q));
            q = self.add(&q, &gen);
        }
        // non-canonical: y + p, and the sign bit on x = 0
        let mut more = vec![];
        for e in &out {
            let mut b = e.clone();
            b[31] &= 0x7f;
            let yy = N::from_bytes_le(&b) + &self.p;
            if yy.bits() <= 255 {
                let mut v = be32(&yy);
                v.reverse();
                more.push(v.clone());
                v[31] |= 0x80;
                more.push(v);
            }
            let mut s = e.clone();
            s[31] ^= 0x80;
            more.push(s);
        }
        out.extend(more);
        out.sort();
        out.dedup();
        out
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Suite {
    Ed,
    K1,
    R1,
}
pub const SUITES: [Suite; 3] = [Suite::Ed, Suite::K1, Suite::R1];
impl Suite {
    pub fn of(i: u8) -> Suite {
        SUITES[i as usize % 3]
    }
    pub fn seed_code(self) -> &'static str {
        ["A", "J", "Q"][self as usize]
    }
    pub fn key_code(self, transferable: bool) -> &'static str {
        [["B", "D"], ["1AAA", "1AAB"], ["1AAI", "1AAJ"]][self as usize][transferable as usize]
    }
    pub fn sig_code(self) -> &'static str {
        ["0B", "0C", "0I"][self as usize]
    }
    /// small, small current-only, big, big current-only
    pub fn siger_code(self, big: bool, only: bool) -> &'static str {
        [["A", "B", "2A", "2B"], ["C", "D", "2C", "2D"], ["E", "F", "2E", "2F"]][self as usize][(big as usize) * 2 + only as usize]
    }
    pub fn seed_ok(self, seed: &[u8]) -> bool {
        match self {
            Suite::Ed => seed.len() == 32,
            Suite::K1 => k1().seed_ok(seed),
            Suite::R1 => r1().seed_ok(seed),
        }
    }
    pub fn public(self, seed: &[u8]) -> Vec<u8> {
        match self {
            Suite::Ed => ed().public(seed),
            Suite::K1 => k1().public(seed),
            Suite::R1 => r1().public(seed),
        }
    }
    pub fn verify(self, key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
        match self {
            Suite::Ed => ed().verify(key, sig, msg),
            Suite::K1 => k1().verify(key, sig, msg),
            Suite::R1 => r1().verify(key, sig, msg),
        }
        .unwrap_or(false)
    }
    pub fn sign(self, seed: &[u8], msg: &[u8]) -> Vec<u8> {
        match self {
            Suite::Ed => ed().sign(seed, msg),
            Suite::K1 => k1().sign(seed, msg, true),
            Suite::R1 => r1().sign(seed, msg, false),
        }
    }
}
