use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::curves::*;
use crate::{ensure, ensure_eq};
use cesride::{Cigar, Indexer, Matter, Siger, Signer, Verfer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    suite: u8,
    transferable: Option<bool>,
    /// None: a freshly generated seed
    seed: Option<B>,
    msg: B,
    only: bool,
    index: u32,
    ondex: Option<u32>,
    /// also judge with the textbook arithmetic
    deep: bool,
}
pub fn seed() -> BoxedStrategy<B> {
    let n = |s: &str| unhex(s).unwrap();
    let k = n("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    let r = n("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let near = prop_oneof![Just(k), Just(r)].prop_flat_map(|b| {
        (-2i16..3).prop_map(move |d| {
            let mut b = b.clone();
            b[31] = (b[31] as i16 + d) as u8;
            B(b)
        })
    });
    prop_oneof![10 => bytes_n(32), 2 => near, 1 => (0u8..4).prop_map(|x| { let mut v = vec![0u8; 32]; v[31] = x; B(v) })].boxed()
}
pub fn message() -> BoxedStrategy<B> {
    // now and then much longer ones, around sizes shortcuts would pick
    let n = prop_oneof![(12u32..18, 0usize..5).prop_map(|(b, d)| (1 << b) + d - 2), 5000usize..300000];
    let long = (n, any::<u8>()).prop_map(|(n, x)| B((0..n).map(|i| (i as u8).wrapping_mul(x | 1).wrapping_add((i >> 8) as u8)).collect()));
    prop_oneof![240 => bytes(0..=80), 60 => bytes(100..=300), 30 => bytes(1000..=5000), 3 => long].boxed()
}
fn dalek_public(s: Suite, seed: &[u8]) -> Vec<u8> {
    use k256::elliptic_curve::sec1::ToEncodedPoint;
    match s {
        Suite::Ed => ed25519_dalek::SigningKey::from_bytes(seed.try_into().unwrap()).verifying_key().to_bytes().to_vec(),
        Suite::K1 => k256::SecretKey::from_slice(seed).unwrap().public_key().to_encoded_point(true).as_bytes().to_vec(),
        Suite::R1 => p256::SecretKey::from_slice(seed).unwrap().public_key().to_encoded_point(true).as_bytes().to_vec(),
    }
}
fn crate_verify(s: Suite, key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    use ed25519_dalek::Verifier;
    match s {
        Suite::Ed => {
            let k = ed25519_dalek::VerifyingKey::from_bytes(key.try_into().unwrap()).unwrap();
            k.verify_strict(msg, &ed25519_dalek::Signature::from_bytes(sig.try_into().unwrap())).is_ok()
        }
        Suite::K1 => {
            let k = k256::ecdsa::VerifyingKey::from_sec1_bytes(key).unwrap();
            k.verify(msg, &k256::ecdsa::Signature::from_slice(sig).unwrap()).is_ok()
        }
        Suite::R1 => {
            let k = p256::ecdsa::VerifyingKey::from_sec1_bytes(key).unwrap();
            k.verify(msg, &p256::ecdsa::Signature::from_slice(sig).unwrap()).is_ok()
        }
    }
}
fn run(c: &Case) -> R {
    let s = Suite::of(c.suite);
    let tr = c.transferable.unwrap_or(true);
    let signer = match &c.seed {
        Some(B(seed)) => {
            let r = call("signer from seed", || Signer::new_with_raw(seed, c.transferable, Some(s.seed_code())))?;
            if !s.seed_ok(seed) {
                ensure!(r.is_err(), "a seed that is no private key of the curve was accepted");
                return okc(true, vec!["invalid seed"]);
            }
            let r = r.map_err(|e| format!("valid seed refused: {e}"))?;
            ensure_eq!(B(r.raw()), B(seed.clone()), "seed");
            r
        }
        None => {
            let a = must("fresh signer", || Signer::new_with_defaults(c.transferable, Some(s.seed_code())))?;
            let b = must("fresh signer", || Signer::new(c.transferable, Some(s.seed_code()), None, None, None, None))?;
            ensure!(a.raw() != b.raw(), "two fresh seeds are equal");
            ensure!(s.seed_ok(&a.raw()), "fresh seed is no private key of the curve: {}", hex(&a.raw()));
            a
        }
    };
    let seed = signer.raw();
    ensure_eq!(signer.code(), s.seed_code(), "seed code");
    let v = signer.verfer();
    ensure_eq!(v.code(), s.key_code(tr), "public key code");
    ensure_eq!(B(v.raw()), B(dalek_public(s, &seed)), "public key of seed {}", hex(&seed));
    if c.deep {
        ensure_eq!(B(v.raw()), B(s.public(&seed)), "public key by textbook arithmetic");
    }
    // keys re-parsed from every encoding
    let keys = [
        v.clone(),
        must("verfer raw", || Verfer::new_with_raw(&v.raw(), Some(&v.code())))?,
        must("verfer qb64", || Verfer::new_with_qb64(&v.qb64()?))?,
        must("verfer qb64b", || Verfer::new_with_qb64b(&v.qb64b()?))?,
        must("verfer qb2", || Verfer::new_with_qb2(&v.qb2()?))?,
    ];
    for k in &keys {
        ensure_eq!(k, &v, "public key re-parsed");
    }
    // signers reloaded
    for (how, r) in [
        ("raw", must("signer raw", || Signer::new_with_raw(&seed, c.transferable, Some(s.seed_code())))?),
        ("qb64", must("signer qb64", || Signer::new_with_qb64(&signer.qb64()?, c.transferable))?),
        ("qb64b", must("signer qb64b", || Signer::new_with_qb64b(&signer.qb64b()?, c.transferable))?),
        ("qb2", must("signer qb2", || Signer::new_with_qb2(&signer.qb2()?, c.transferable))?),
    ] {
        ensure_eq!(r, signer, "signer reloaded from {how}");
    }
    let msg = &c.msg.0;
    let accept = |what: &str, sig: &[u8]| -> Result<(), String> {
        for k in &keys {
            ensure!(must(&format!("{what}: verify"), || k.verify(sig, msg))?, "{what} does not verify under the signer's public key");
        }
        ensure!(crate_verify(s, &keys[0].raw(), sig, msg), "{what} refused by the suite's own crate");
        if s == Suite::Ed {
            use ed25519_dalek::Signer as _;
            let e = ed25519_dalek::SigningKey::from_bytes(seed.as_slice().try_into().unwrap()).sign(msg).to_bytes().to_vec();
            ensure_eq!(B(sig.to_vec()), B(e), "{what}: Ed25519 signatures are determined by seed and message");
        }
        if c.deep {
            ensure!(s.verify(&keys[0].raw(), sig, msg), "{what} refused by textbook arithmetic");
        }
        Ok(())
    };
    // unindexed
    let cigar = must("sign unindexed", || signer.sign_unindexed(msg))?;
    ensure_eq!(cigar.code(), s.sig_code(), "signature code");
    ensure_eq!(cigar.verfer(), v, "signature's public key");
    ensure_eq!(cigar.raw().len(), 64, "signature length");
    accept("unindexed signature", &cigar.raw())?;
    // reloaded from each encoding, a signature keeps the key it is given
    let k = Some(&v);
    let (t, b) = (must("cigar qb64", || cigar.qb64())?, must("cigar qb2", || cigar.qb2())?);
    for (how, again) in [
        ("new raw", must("cigar", || Cigar::new(k, Some(&cigar.code()), Some(&cigar.raw()), None, None, None))?),
        ("new qb64b", must("cigar", || Cigar::new(k, None, None, Some(t.as_bytes()), None, None))?),
        ("new qb64", must("cigar", || Cigar::new(k, None, None, None, Some(&t), None))?),
        ("new qb2", must("cigar", || Cigar::new(k, None, None, None, None, Some(&b)))?),
        ("new_with_raw", must("cigar", || Cigar::new_with_raw(&cigar.raw(), k, Some(&cigar.code())))?),
        ("new_with_qb64b", must("cigar", || Cigar::new_with_qb64b(t.as_bytes(), k))?),
        ("new_with_qb64", must("cigar", || Cigar::new_with_qb64(&t, k))?),
        ("new_with_qb2", must("cigar", || Cigar::new_with_qb2(&b, k))?),
    ] {
        ensure_eq!(again, cigar, "unindexed signature reloaded by {how}");
    }
    // indexed
    let od = c.ondex.unwrap_or(c.index);
    let (code, want_ondex, fits) = if c.only {
        (s.siger_code(c.index > 63, true), 0, c.index < 4096)
    } else if c.index == od && c.index < 64 {
        (s.siger_code(false, false), c.index, true)
    } else {
        (s.siger_code(true, false), od, c.index < 4096 && od < 4096)
    };
    let r = call("sign indexed", || signer.sign_indexed(msg, c.only, c.index, c.ondex))?;
    if !fits {
        ensure!(r.is_err(), "indices {} and {:?} beyond the format accepted", c.index, c.ondex);
    } else {
        let siger = r.map_err(|e| format!("sign indexed: {e}"))?;
        ensure_eq!((siger.code().as_str(), siger.index(), siger.ondex()), (code, c.index, want_ondex), "indexed signature code and indices");
        ensure_eq!(siger.verfer(), v, "indexed signature's public key");
        ensure_eq!(siger.raw().len(), 64, "indexed signature length");
        accept("indexed signature", &siger.raw())?;
        let (t, b) = (must("siger qb64", || siger.qb64())?, must("siger qb2", || siger.qb2())?);
        let (raw, index) = (siger.raw(), Some(siger.index()));
        let ondex = (!c.only).then(|| siger.ondex());
        for (how, again) in [
            ("new raw", must("siger", || Siger::new(k, index, ondex, Some(code), Some(&raw), None, None, None))?),
            ("new qb64b", must("siger", || Siger::new(k, None, None, None, None, Some(t.as_bytes()), None, None))?),
            ("new qb64", must("siger", || Siger::new(k, None, None, None, None, None, Some(&t), None))?),
            ("new qb2", must("siger", || Siger::new(k, None, None, None, None, None, None, Some(&b)))?),
            ("new_with_raw", must("siger", || Siger::new_with_raw(&raw, k, index, ondex, Some(code)))?),
            ("new_with_qb64b", must("siger", || Siger::new_with_qb64b(t.as_bytes(), k))?),
            ("new_with_qb64", must("siger", || Siger::new_with_qb64(&t, k))?),
            ("new_with_qb2", must("siger", || Siger::new_with_qb2(&b, k))?),
        ] {
            ensure_eq!(again, siger, "indexed signature reloaded by {how}");
        }
    }
    // signatures made elsewhere are accepted
    if c.deep {
        let sig = s.sign(&seed, msg);
        ensure!(must("verify", || v.verify(&sig, msg))?, "a valid signature of another implementation is refused");
    }
    okc(true, vec![format!("{s:?} {}{}{}", if tr { "T" } else { "N" }, if c.only { " only" } else { "" }, if fits { "" } else { " out of range" })])
}
fn case(seed: BoxedStrategy<Option<B>>, deep: bool) -> BoxedStrategy<Case> {
    let index = prop_oneof![5 => 0u32..70, 2 => 62u32..66, 1 => 4090u32..4100, 1 => 0u32..4096, 1 => index_like()];
    let ondex = prop_oneof![4 => Just(None), 4 => (0u32..70).prop_map(Some), 1 => index_like().prop_map(Some), 3 => Just(Some(u32::MAX))];
    (0u8..3, any::<Option<bool>>(), seed, message(), any::<bool>(), index, ondex)
        .prop_map(move |(suite, transferable, seed, msg, only, index, ondex)| {
            // the marker stands for "the same index, given explicitly"
            let ondex = if ondex == Some(u32::MAX) { Some(index) } else { ondex };
            Case { suite, transferable, seed, msg, only, index, ondex, deep }
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C07",
        rule: "a case with a signature (or a refused seed) that was judged by the library and by an independent verifier",
        assumptions: vec![
            "the reference arithmetic in harness/src/model/curves.rs (textbook ECDSA and Ed25519 over big integers) and, at full case counts, the suites' own crates called directly",
            "a seed is valid when the suite's definition says so: any 32 bytes for Ed25519, an integer in 1..n-1 for the two ECDSA curves",
        ],
        subs: vec![
            prop("sign and verify", 10000, 200000, || case(seed().prop_map(Some).boxed(), false), run),
            prop("fresh seeds", 7000, 100000, || case(Just(None).boxed(), false), run),
            prop("textbook arithmetic", 200, 4000, || case(seed().prop_map(Some).boxed(), true), run),
        ],
        probes: vec![],
    }
}
