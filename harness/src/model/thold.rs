//! Reference threshold rule: exact fractions over unbounded integers.
use num_bigint::BigUint;
use serde_json::Value as J;

pub type Frac = (BigUint, BigUint);
fn gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    let zero = BigUint::from(0u8);
    while b != zero {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
pub fn lowest(f: &Frac) -> Frac {
    let g = gcd(&f.0, &f.1);
    (&f.0 / &g, &f.1 / &g)
}
pub fn at_least_one<'a>(fs: impl Iterator<Item = &'a Frac>) -> bool {
    let mut n = BigUint::from(0u8);
    let mut d = BigUint::from(1u8);
    for (a, b) in fs {
        n = &n * b + a * &d;
        d = &d * b;
    }
    n >= d
}
pub fn frac_text(f: &Frac, sep: &str) -> String {
    let (n, d) = lowest(f);
    if d == BigUint::from(1u8) {
        n.to_string()
    } else {
        format!("{n}{sep}{d}")
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Th {
    Num(u64),
    Weights(Vec<Vec<Frac>>),
}
/// What a threshold expression means.
#[derive(Debug, Clone, PartialEq)]
pub enum Says {
    Is(Th),
    /// left open: refused, or (when Some) taken as this
    Open(Option<Th>),
    Bad,
}
fn digits(s: &str) -> Option<BigUint> {
    (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().unwrap())
}
/// the fraction and whether it is spelled plainly (no sign, no leading zeros)
fn weight(s: &str) -> Option<(Frac, bool)> {
    let part = |p: &str| -> Option<(BigUint, bool)> {
        let q = p.strip_prefix('+').unwrap_or(p);
        let n = digits(q)?;
        Some((n.clone(), p == n.to_string()))
    };
    let (a, b) = match s.split_once('/') {
        Some((a, b)) => (part(a)?, part(b)?),
        None => (part(s)?, (BigUint::from(1u8), true)),
    };
    (b.0 != BigUint::from(0u8) && a.0 <= b.0).then_some(((a.0, b.0), a.1 && b.1))
}
pub fn clauses(cs: &[J]) -> Says {
    let mut plain = true;
    let mut out = vec![];
    for c in cs {
        let Some(c) = c.as_array() else { return Says::Bad };
        let mut clause = vec![];
        for w in c {
            match w.as_str().and_then(weight) {
                Some((f, p)) => {
                    plain &= p;
                    clause.push(f);
                }
                None => return Says::Bad,
            }
        }
        if !at_least_one(clause.iter()) {
            return Says::Bad;
        }
        out.push(clause);
    }
    if out.is_empty() {
        return Says::Bad;
    }
    let t = Th::Weights(out);
    if plain {
        Says::Is(t)
    } else {
        Says::Open(Some(t))
    }
}
fn number(n: u64) -> Says {
    // the library reports numeric thresholds as 32-bit numbers
    if n <= u32::MAX as u64 {
        Says::Is(Th::Num(n))
    } else {
        Says::Open(Some(Th::Num(n)))
    }
}
fn integer(v: &J) -> Option<Says> {
    let n = v.as_number()?;
    Some(match n.as_i64() {
        Some(i) if i >= 0 => number(i as u64),
        _ => Says::Bad,
    })
}
/// the meaning of an expression
pub fn sith(v: &J) -> Says {
    if let Some(s) = integer(v) {
        return s;
    }
    let a = match v {
        J::String(s) if s.trim_start().starts_with('[') => match serde_json::from_str::<J>(s) {
            Ok(J::Array(a)) => {
                return match array(&a) {
                    Says::Is(t) if !s.starts_with('[') => Says::Open(Some(t)),
                    x => x,
                }
            }
            _ => return Says::Bad,
        },
        J::String(s) => {
            let h = s.strip_prefix('+').unwrap_or(s);
            if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                // "-0" is zero
                let zero = s.strip_prefix('-').is_some_and(|z| !z.is_empty() && z.bytes().all(|b| b == b'0'));
                return if zero { Says::Open(Some(Th::Num(0))) } else { Says::Bad };
            }
            let t = h.trim_start_matches('0');
            let n = match t.len() {
                0 => 0,
                1..=16 => u64::from_str_radix(t, 16).unwrap(),
                _ => return Says::Open(None),
            };
            return match number(n) {
                Says::Is(t) if h != s => Says::Open(Some(t)),
                x => x,
            };
        }
        J::Array(a) => a,
        _ => return Says::Bad,
    };
    array(a)
}
fn array(a: &[J]) -> Says {
    if a.is_empty() {
        return Says::Bad;
    }
    if a.iter().all(|c| c.is_array()) {
        clauses(a)
    } else {
        clauses(&[J::Array(a.to_vec())])
    }
}
/// the meaning of a normalized value
pub fn thold(v: &J) -> Says {
    if let Some(s) = integer(v) {
        return s;
    }
    match v {
        J::Array(a) if !a.is_empty() && a.iter().all(|c| c.is_array()) => clauses(a),
        // expression forms that are not the normalized one: refused, or taken for what they say
        _ => match sith(v) {
            Says::Is(t) => Says::Open(Some(t)),
            x => x,
        },
    }
}
impl Th {
    pub fn value(&self) -> J {
        match self {
            Th::Num(n) => J::from(*n),
            Th::Weights(cs) => J::Array(cs.iter().map(|c| J::Array(c.iter().map(|f| J::String(frac_text(f, "/"))).collect())).collect()),
        }
    }
    pub fn expression(&self) -> J {
        match self {
            Th::Num(n) => J::String(format!("{n:x}")),
            Th::Weights(cs) if cs.len() == 1 => self.value()[0].clone(),
            _ => self.value(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Th::Num(n) => *n,
            Th::Weights(cs) => cs.iter().map(|c| c.len() as u64).sum(),
        }
    }
    /// the text carried by the compact encoding of weights
    pub fn bext(&self) -> Option<String> {
        match self {
            Th::Num(_) => None,
            Th::Weights(cs) => Some(cs.iter().map(|c| c.iter().map(|f| frac_text(f, "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a")),
        }
    }
    pub fn limen(&self) -> String {
        match self {
            Th::Num(n) => super::cesr::number(*n as u128).encode().0,
            Th::Weights(_) => super::cesr::bext(&self.bext().unwrap()).encode().0,
        }
    }
    pub fn satisfied(&self, indices: &[u32]) -> bool {
        let set: std::collections::BTreeSet<u64> = indices.iter().map(|i| *i as u64).collect();
        match self {
            Th::Num(n) => *n > 0 && set.len() as u64 >= *n,
            Th::Weights(cs) => {
                let mut at = 0;
                cs.iter().all(|c| {
                    let r = at_least_one(c.iter().enumerate().filter(|(i, _)| set.contains(&(at + *i as u64))).map(|(_, f)| f));
                    at += c.len() as u64;
                    r
                })
            }
        }
    }
}
