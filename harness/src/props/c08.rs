use super::c07::{message, seed};
use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::curves::*;
use crate::{ensure, ensure_eq};
use cesride::{Matter, Signer, Verfer};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Change {
    MsgBit(usize),
    MsgCut(usize),
    MsgAdd(B),
    MsgIs(B),
    /// two different messages exchanged with a hash-boundary split
    MsgDrop(usize),
    SigBit(usize),
    SigSet(usize, u8),
    SigCut(usize),
    SigAdd(B),
    SigIs(B),
    /// the scalar part plus the group order
    SigOrder,
    /// the scalar part negated modulo the group order
    SigMirror,
    /// the two integers in ASN.1 DER
    SigDer,
    /// the message replaced by a hash of it
    MsgHash(u8),
    SigSwap,
    SigHalf(bool, u8),
    KeyBit(usize),
    KeyTag(u8),
    KeyOf(B),
    KeyIs(B),
    /// key of the same seed in another suite
    Suite(u8),
    /// same raw key under another suite's code
    Recode(u8, bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    suite: u8,
    transferable: bool,
    seed: B,
    msg: B,
    change: Change,
}
fn routes(v: &Verfer) -> Result<Vec<Verfer>, String> {
    Ok(vec![
        v.clone(),
        must("qb64", || Verfer::new_with_qb64(&v.qb64()?))?,
        must("qb64b", || Verfer::new_with_qb64b(&v.qb64b()?))?,
        must("qb2", || Verfer::new_with_qb2(&v.qb2()?))?,
    ])
}
/// verification by every loading of the key; all agree
fn judge(v: &Verfer, sig: &[u8], msg: &[u8]) -> Result<Option<bool>, String> {
    let mut first: Option<Option<bool>> = None;
    for k in routes(v)? {
        let r = call("verify", || k.verify(sig, msg))?.ok();
        if let Some(f) = first {
            ensure_eq!(r, f, "verification depends on where the key was loaded from");
        }
        first = Some(r);
    }
    Ok(first.unwrap())
}
fn run(c: &Case) -> R {
    let s = Suite::of(c.suite);
    let mut seed = c.seed.0.clone();
    if !s.seed_ok(&seed) {
        seed = vec![7; 32];
    }
    let signer = must("signer", || Signer::new_with_raw(&seed, Some(c.transferable), Some(s.seed_code())))?;
    let mut sig = must("sign", || signer.sign_unindexed(&c.msg.0))?.raw();
    let mut msg = c.msg.0.clone();
    let orig = signer.verfer();
    let (osig, omsg) = (sig.clone(), msg.clone());
    ensure_eq!(judge(&orig, &sig, &msg)?, Some(true), "the unchanged signature");
    // the non-transferable form is the same key
    let twin = must("twin key", || Verfer::new_with_raw(&orig.raw(), Some(s.key_code(!c.transferable))))?;
    ensure_eq!(judge(&twin, &sig, &msg)?, Some(true), "the key with the other transferability");
    let mut key = orig.raw();
    let mut code = orig.code();
    let flip = |v: &mut Vec<u8>, i: usize| {
        if !v.is_empty() {
            let i = i % (v.len() * 8);
            v[i / 8] ^= 1 << (i % 8);
        }
    };
    match &c.change {
        Change::MsgBit(i) => flip(&mut msg, *i),
        Change::MsgCut(i) => msg.truncate(i % (msg.len() + 1)),
        Change::MsgAdd(b) => msg.extend(&b.0),
        Change::MsgIs(b) => msg = b.0.clone(),
        Change::MsgDrop(i) => {
            if !msg.is_empty() {
                let i = i % msg.len();
                msg.remove(i);
            }
        }
        Change::SigBit(i) => flip(&mut sig, *i),
        Change::SigSet(i, x) => sig[i % 64] = *x,
        Change::SigCut(i) => sig.truncate(i % 65),
        Change::SigAdd(b) => sig.extend(&b.0),
        Change::SigIs(b) => sig = b.0.clone(),
        Change::SigOrder => {
            let le = s == Suite::Ed;
            let n = match s {
                Suite::Ed => ed().l,
                Suite::K1 => k1().n,
                Suite::R1 => r1().n,
            };
            let x = if le { BigUint::from_bytes_le(&sig[32..]) } else { BigUint::from_bytes_be(&sig[32..]) } + n;
            let mut b = if le { x.to_bytes_le() } else { x.to_bytes_be() };
            if b.len() > 32 {
                return okc(false, vec!["order does not fit"]);
            }
            while b.len() < 32 {
                if le {
                    b.push(0);
                } else {
                    b.insert(0, 0);
                }
            }
            sig[32..].copy_from_slice(&b);
        }
        Change::SigMirror => {
            let le = s == Suite::Ed;
            let n = match s {
                Suite::Ed => ed().l,
                Suite::K1 => k1().n,
                Suite::R1 => r1().n,
            };
            let x = n - if le { BigUint::from_bytes_le(&sig[32..]) } else { BigUint::from_bytes_be(&sig[32..]) };
            let mut b = if le { x.to_bytes_le() } else { x.to_bytes_be() };
            while b.len() < 32 {
                if le {
                    b.push(0);
                } else {
                    b.insert(0, 0);
                }
            }
            sig[32..].copy_from_slice(&b);
        }
        Change::SigDer => {
            let int = |x: &[u8]| {
                let mut v: Vec<u8> = x.iter().copied().skip_while(|b| *b == 0).collect();
                if v.first().map(|b| b & 0x80 != 0).unwrap_or(true) {
                    v.insert(0, 0);
                }
                let mut o = vec![2, v.len() as u8];
                o.extend(v);
                o
            };
            let body = [int(&sig[..32]), int(&sig[32..])].concat();
            sig = [vec![0x30, body.len() as u8], body].concat();
        }
        Change::MsgHash(i) => msg = super::c10::digest(super::c10::CODES[*i as usize % 9], &msg).unwrap(),
        Change::SigSwap => {
            let (a, b) = (sig[..32].to_vec(), sig[32..].to_vec());
            sig = [b, a].concat();
        }
        Change::SigHalf(first, x) => {
            let r = if *first { 0..32 } else { 32..64 };
            sig[r].fill(*x);
        }
        Change::KeyBit(i) => flip(&mut key, *i),
        Change::KeyTag(x) => key[0] = *x,
        Change::KeyOf(b) => {
            if s.seed_ok(&b.0) {
                key = must("other signer", || Signer::new_with_raw(&b.0, Some(true), Some(s.seed_code())))?.verfer().raw();
            }
        }
        Change::KeyIs(b) => key = b.0[..key.len()].to_vec(),
        Change::Suite(i) => {
            let o = Suite::of(*i);
            if o.seed_ok(&seed) {
                let v = must("other suite", || Signer::new_with_raw(&seed, Some(true), Some(o.seed_code())))?.verfer();
                if o != s {
                    key = v.raw();
                    code = v.code();
                }
            }
        }
        Change::Recode(i, t) => {
            let o = Suite::of(*i);
            if o != s {
                code = o.key_code(*t).into();
                // ECDSA keys are one byte longer
                match (s == Suite::Ed, o == Suite::Ed) {
                    (true, false) => key.insert(0, 2),
                    (false, true) => {
                        key.remove(0);
                    }
                    _ => {}
                }
            }
        }
    }
    let same = msg == omsg && sig == osig && key == orig.raw() && code == orig.code();
    let v = match call("changed key", || Verfer::new_with_raw(&key, Some(&code)))? {
        Ok(v) => v,
        Err(_) => return okc(true, vec!["key refused"]),
    };
    let r = judge(&v, &sig, &msg)?;
    if same {
        ensure_eq!(r, Some(true), "nothing was changed");
        return okc(false, vec!["unchanged"]);
    }
    // secp256r1 itself takes both (r, s) and (r, n - s); secp256k1 signatures have the low s only
    if s == Suite::R1 && matches!(c.change, Change::SigMirror) {
        return okc(false, vec!["mirror of secp256r1"]);
    }
    ensure!(r != Some(true), "{s:?}: verification accepts {:?}", c.change);
    let kind: String = format!("{:?}", c.change).chars().take_while(|c| c.is_alphanumeric()).collect();
    okc(true, vec![format!("{kind} {}", if r.is_some() { "false" } else { "error" })])
}
fn change() -> BoxedStrategy<Change> {
    use Change::*;
    prop_oneof![
        4 => any::<usize>().prop_map(MsgBit),
        1 => any::<usize>().prop_map(MsgCut),
        2 => bytes(1..=70).prop_map(MsgAdd),
        1 => message().prop_map(MsgIs),
        1 => any::<usize>().prop_map(MsgDrop),
        5 => (0usize..512).prop_map(SigBit),
        2 => (0usize..64, any::<u8>()).prop_map(|(a, b)| SigSet(a, b)),
        2 => (0usize..65).prop_map(SigCut),
        2 => bytes(1..=70).prop_map(SigAdd),
        3 => bytes(0..=130).prop_map(SigIs),
        1 => bytes_n(64).prop_map(SigIs),
        1 => Just(SigOrder),
        1 => Just(SigSwap),
        1 => Just(SigMirror),
        1 => Just(SigDer),
        1 => any::<u8>().prop_map(MsgHash),
        1 => (any::<bool>(), any::<u8>()).prop_map(|(a, b)| SigHalf(a, b)),
        4 => (0usize..264).prop_map(KeyBit),
        2 => prop_oneof![0u8..8, any::<u8>()].prop_map(KeyTag),
        2 => seed().prop_map(KeyOf),
        2 => bytes_n(33).prop_map(KeyIs),
        1 => (0u8..3).prop_map(Suite),
        2 => (0u8..3, any::<bool>()).prop_map(|(a, b)| Recode(a, b)),
    ]
    .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Small {
    key: B,
    r: B,
    s: B,
    msg: B,
    transferable: bool,
}
/// keys of small order have no private key; a signature forged for them would verify anything
fn small(c: &Small) -> R {
    let v = match call("key", || Verfer::new_with_raw(&c.key.0, Some(Suite::Ed.key_code(c.transferable))))? {
        Ok(v) => v,
        Err(_) => return okc(true, vec!["refused"]),
    };
    let sig = [&c.r.0[..], &c.s.0[..]].concat();
    let r = judge(&v, &sig, &c.msg.0)?;
    ensure!(r != Some(true), "a forged signature (R={:?}, S=0) under the small-order key {:?} verifies the message {:?}", c.r, c.key, c.msg);
    ok(true)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Every {
    suite: u8,
    seed: u8,
    /// 0 message, 1 signature, 2 key
    part: u8,
    bit: usize,
}
fn every(e: &Every) -> R {
    let change = match e.part {
        0 => Change::MsgBit(e.bit),
        1 => Change::SigBit(e.bit),
        _ => Change::KeyBit(e.bit),
    };
    run(&Case { suite: e.suite, transferable: e.seed % 2 == 0, seed: B(vec![e.seed; 32]), msg: B((0..24).collect()), change })
}
pub fn check() -> Check {
    Check {
        id: "C08",
        rule: "a case whose message, signature or key differs from the signed one, with the unchanged signature verified first",
        assumptions: vec![
            "finding a forgery by chance is impossible, so every acceptance of a changed case is a violation; the one algebraic symmetry, (r, n-s), counts as the same signature for secp256r1 (only)",
        ],
        subs: vec![
            prop("changed signed messages", 10000, 200000, || {
                (0u8..3, any::<bool>(), seed(), message(), change())
                    .prop_map(|(suite, transferable, seed, msg, change)| Case { suite, transferable, seed, msg, change })
            }, run),
            each("every bit", |env| {
                let seeds: u8 = if env.thorough { 20 } else { 1 };
                (0u8..3).flat_map(move |suite| {
                    (1..=seeds).flat_map(move |seed| {
                        [(0u8, 192usize), (1, 512), (2, 264)]
                            .into_iter()
                            .flat_map(move |(part, n)| (0..n).map(move |bit| Every { suite, seed, part, bit }))
                    })
                })
            }, every),
            each("small-order keys", |_| {
                let pts = ed().small_order();
                let p2 = pts.clone();
                pts.into_iter().flat_map(move |k| {
                    let p3 = p2.clone();
                    p3.into_iter().flat_map(move |r| {
                        let k = k.clone();
                        (0u8..8).map(move |m| Small { key: B(k.clone()), r: B(r.clone()), s: B(vec![0; 32]), msg: B(vec![m; m as usize]), transferable: m % 2 == 0 })
                    })
                })
            }, small),
        ],
        probes: vec![],
    }
}
