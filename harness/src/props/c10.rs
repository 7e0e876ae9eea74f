use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use cesride::{Diger, Matter};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const CODES: [&str; 9] = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
/// the algorithm each code names
pub fn digest(code: &str, data: &[u8]) -> Option<Vec<u8>> {
    use blake2::digest::{Update, VariableOutput};
    use sha2::Digest;
    Some(match code {
        "E" => blake3::hash(data).as_bytes().to_vec(),
        "0D" => {
            let mut h = blake3::Hasher::new();
            h.update(data);
            let mut out = [0u8; 64];
            h.finalize_xof().fill(&mut out);
            out.to_vec()
        }
        "F" => {
            let mut h = blake2::Blake2bVar::new(32).unwrap();
            h.update(data);
            h.finalize_boxed().to_vec()
        }
        "0E" => blake2::Blake2b512::digest(data).to_vec(),
        "G" => blake2::Blake2s256::digest(data).to_vec(),
        "H" => sha3::Sha3_256::digest(data).to_vec(),
        "0F" => sha3::Sha3_512::digest(data).to_vec(),
        "I" => sha2::Sha256::digest(data).to_vec(),
        "0G" => sha2::Sha512::digest(data).to_vec(),
        _ => return None,
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Data {
    Is(B),
    /// a pattern of the given length, for long data
    Len(usize, u8),
}
impl Data {
    fn get(&self) -> Vec<u8> {
        match self {
            Data::Is(b) => b.0.clone(),
            Data::Len(n, x) => (0..*n).map(|i| (i as u8).wrapping_mul(*x | 1).wrapping_add((i >> 8) as u8)).collect(),
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    code: Option<String>,
    data: Data,
    /// a change of the data: bit to flip, bytes to append, length to cut to
    bit: usize,
    add: B,
    cut: usize,
}
fn run(c: &Case) -> R {
    let data = c.data.get();
    let code = c.code.as_deref().unwrap_or("E");
    let r = call("digest", || Diger::new_with_ser(&data, c.code.as_deref()))?;
    let Some(want) = digest(code, &data) else {
        ensure!(r.is_err(), "code {code:?} names no digest, yet gave {:?}", r);
        return okc(true, vec!["no digest code"]);
    };
    let d = r.map_err(|e| format!("digest with code {code}: {e}"))?;
    ensure_eq!(d.code(), code, "code");
    ensure_eq!(B(d.raw()), B(want.clone()), "digest with code {code} of {} bytes", data.len());
    ensure!(d.digestive() && !d.transferable() || d.digestive(), "a digest is digestive");
    let all = [
        d.clone(),
        must("raw", || Diger::new_with_raw(&want, Some(code)))?,
        must("qb64", || Diger::new_with_qb64(&d.qb64()?))?,
        must("qb64b", || Diger::new_with_qb64b(&d.qb64b()?))?,
        must("qb2", || Diger::new_with_qb2(&d.qb2()?))?,
        must("new", || Diger::new(Some(&data), Some(code), None, None, None, None))?,
    ];
    let mut others: Vec<Vec<u8>> = vec![];
    let mut x = data.clone();
    x.extend(&c.add.0);
    others.push(x);
    let mut x = data.clone();
    x.truncate(c.cut % (data.len() + 1));
    others.push(x);
    if !data.is_empty() {
        let mut x = data.clone();
        let i = c.bit % (data.len() * 8);
        x[i / 8] ^= 1 << (i % 8);
        others.push(x);
        others.push(data[1..].to_vec());
    }
    others.push(want.clone());
    for e in &all {
        ensure_eq!(e, &d, "digest primitive re-made");
        ensure!(must("verify", || e.verify(&data))?, "digest does not verify its own data");
        for o in others.iter().filter(|o| **o != data) {
            ensure!(!must("verify", || e.verify(o))?, "digest of {} bytes verifies other data of {} bytes", data.len(), o.len());
        }
    }
    // a digest that differs in one bit verifies nothing
    let mut raw = want.clone();
    let i = c.bit % (raw.len() * 8);
    raw[i / 8] ^= 1 << (i % 8);
    let bad = must("raw", || Diger::new_with_raw(&raw, Some(code)))?;
    ensure!(!must("verify", || bad.verify(&data))?, "an altered digest verifies the data");
    okc(true, vec![code.to_string()])
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Side {
    code: usize,
    /// 0 digest of the data, 1 digest of other data, 2 digest with a bit changed, 3 the bytes of another algorithm's digest
    kind: u8,
    bit: usize,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    data: B,
    other: B,
    a: Side,
    b: Side,
    tail: B,
}
fn side(s: &Side, data: &[u8], other: &[u8]) -> Result<Diger, String> {
    let code = CODES[s.code % 9];
    let mut raw = match s.kind {
        1 => digest(code, other).unwrap(),
        3 => {
            let n = digest(code, data).unwrap().len();
            let o = CODES.iter().filter(|c| **c != code && digest(c, b"").unwrap().len() == n).nth(s.bit % 3).unwrap();
            digest(o, data).unwrap()
        }
        _ => digest(code, data).unwrap(),
    };
    if s.kind == 2 {
        let i = s.bit % (raw.len() * 8);
        raw[i / 8] ^= 1 << (i % 8);
    }
    must("diger", || Diger::new_with_raw(&raw, Some(code)))
}
fn pair(p: &Pair) -> R {
    let (a, b) = (side(&p.a, &p.data.0, &p.other.0)?, side(&p.b, &p.data.0, &p.other.0)?);
    let genuine = |d: &Diger| digest(&d.code(), &p.data.0).unwrap() == d.raw();
    let identical = a.code() == b.code() && a.raw() == b.raw();
    let want = identical || (a.code() != b.code() && genuine(&a) && genuine(&b));
    for (x, y) in [(&a, &b), (&b, &a)] {
        ensure_eq!(must("compare", || x.compare(&p.data.0, None, Some(y)))?, want, "comparing {} with {} as primitives", x.code(), y.code());
        let q = must("qb64b", || y.qb64b())?;
        ensure_eq!(must("compare", || x.compare(&p.data.0, Some(&q), None))?, want, "comparing {} with the text of {}", x.code(), y.code());
    }
    // neither given, or something that is no digest
    must_err("compare with nothing", || a.compare(&p.data.0, None, None))?;
    for junk in [&p.tail.0[..], b"", b"DAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", b"0AAAAAAAAAAAAAAAAAAAAAAA"] {
        let r = call("compare with junk", || a.compare(&p.data.0, Some(junk), None))?;
        ensure!(!matches!(r, Ok(true)), "comparing with {:?}, which is no digest, answers true", B(junk.to_vec()));
    }
    okc(true, vec![format!("{}{}{}", if identical { "identical" } else if a.code() == b.code() { "same algorithm" } else { "other algorithm" }, if genuine(&a) { " genuine" } else { " wrong" }, if genuine(&b) { " genuine" } else { " wrong" })])
}
fn data() -> BoxedStrategy<Data> {
    prop_oneof![
        6 => bytes(0..=300).prop_map(Data::Is),
        2 => (0usize..5000, any::<u8>()).prop_map(|(n, x)| Data::Len(n, x)),
        1 => (1usize << 17..1 << 19, any::<u8>()).prop_map(|(n, x)| Data::Len(n / 64 * 3, x)),
        1 => (prop_oneof![Just(1024usize), Just(2048), Just(8192), Just(16384), Just(65536)], 0usize..5, any::<u8>()).prop_map(|(n, d, x)| Data::Len(n + d - 2, x)),
    ]
    .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C10",
        rule: "a digest compared with the named algorithm run directly and tried on changed data, or a comparison judged by the rule of the statement",
        assumptions: vec!["the hash crates called directly are the reference; finding a collision by chance is impossible"],
        subs: vec![
            prop("digests", 100000, 2000000, || {
                let code = prop_oneof![1 => Just(None), 12 => (0usize..9).prop_map(|i| Some(CODES[i].to_string())), 1 => prop_oneof![Just("D"), Just("A"), Just("0A"), Just("0H"), Just(""), Just("J"), Just("4A"), Just("e"), Just("EE")].prop_map(|s| Some(s.to_string()))];
                (code, data(), any::<usize>(), bytes(1..=9), any::<usize>()).prop_map(|(code, data, bit, add, cut)| Case { code, data, bit, add, cut })
            }, run),
            each("every length", |env| {
                let hi = if env.thorough { 2100 } else { 300 };
                (0..hi).flat_map(|n| CODES.iter().map(move |c| Case { code: Some(c.to_string()), data: Data::Len(n, 5), bit: n * 31, add: B(vec![0]), cut: n / 2 }))
            }, run),
            prop("comparison", 200000, 20000000, || {
                let side = || (0usize..9, prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(3)], any::<usize>()).prop_map(|(code, kind, bit)| Side { code, kind, bit });
                (bytes(0..=60), bytes(0..=60), side(), side(), any::<bool>(), bytes(0..=50)).prop_map(|(data, other, a, b, same, tail)| {
                    let code = if same { a.code } else { b.code };
                    Pair { data, other, a, b: Side { code, ..b }, tail }
                })
            }, pair),
        ],
        probes: vec![],
    }
}
