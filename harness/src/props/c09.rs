use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::curves::Suite;
use crate::{ensure, ensure_eq};
use cesride::{Matter, Salter, Signer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Argon2id, version 1.3, one lane
fn argon(tier: &str, path: &[u8], salt: &[u8], size: usize) -> Option<Vec<u8>> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        "high" => (1048576, 4),
        _ => return None,
    };
    let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, argon2::Params::new(m, t, 1, Some(size)).ok()?);
    let mut out = vec![0u8; size];
    a.hash_password_into(path, salt, &mut out).ok()?;
    Some(out)
}
fn effective<'a>(own: &'a Option<String>, over: &'a Option<String>, temp: Option<bool>) -> &'a str {
    if temp == Some(true) {
        "min"
    } else {
        over.as_deref().or(own.as_deref()).unwrap_or("low")
    }
}
/// a salter loaded by the numbered route
fn salter(salt: &[u8], tier: Option<&str>, route: u8) -> Result<Salter, String> {
    let s = must("salter from raw", || Salter::new_with_raw(salt, None, tier))?;
    let s = match route % 4 {
        0 => s,
        1 => must("salter from qb64", || Salter::new_with_qb64(&s.qb64()?, tier))?,
        2 => must("salter from qb64b", || Salter::new_with_qb64b(&s.qb64b()?, tier))?,
        _ => must("salter from qb2", || Salter::new_with_qb2(&s.qb2()?, tier))?,
    };
    ensure_eq!(B(s.raw()), B(salt.to_vec()), "salt");
    ensure_eq!(s.code(), "0A", "salt code");
    ensure_eq!(s.tier(), tier.unwrap_or("low"), "tier of the salter");
    Ok(s)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stretch {
    salt: B,
    route: u8,
    own: Option<String>,
    over: Option<String>,
    temp: Option<bool>,
    path: Option<String>,
    size: Option<usize>,
}
fn stretch(c: &Stretch) -> R {
    let s = salter(&c.salt.0, c.own.as_deref(), c.route)?;
    let tier = effective(&c.own, &c.over, c.temp);
    let path = c.path.clone().unwrap_or_default();
    let want = argon(tier, path.as_bytes(), &c.salt.0, c.size.unwrap_or(32));
    let got = call("stretch", || s.stretch(c.size, c.path.as_deref(), c.over.as_deref(), c.temp))?;
    match (want, got) {
        (None, Err(_)) => okc(true, vec!["error"]),
        (None, Ok(v)) => Err(format!("tier {tier:?}, size {:?} is no parameter set, got {}", c.size, hex(&v))),
        (Some(_), Err(e)) => Err(format!("stretch failed: {e}")),
        (Some(w), Ok(g)) => {
            ensure_eq!(B(g), B(w), "stretch with tier {tier}, path {path:?}, size {:?}", c.size);
            if tier == "min" {
                // again, with unrelated calls in between
                let other = must("other salter", || Salter::new_with_raw(&[1; 16], None, None))?;
                let a = must("stretch", || other.stretch(Some(16), Some("x"), None, Some(true)))?;
                let w = argon("min", b"x", &[1; 16], 16).unwrap();
                ensure_eq!(B(a), B(w), "stretch of another salter");
                let g = must("stretch", || s.stretch(c.size, c.path.as_deref(), c.over.as_deref(), c.temp))?;
                let w = argon(tier, path.as_bytes(), &c.salt.0, c.size.unwrap_or(32)).unwrap();
                ensure_eq!(B(g), B(w), "second stretch");
            }
            okc(true, vec![format!("tier {tier}")])
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    salt: B,
    route: u8,
    own: Option<String>,
    over: Option<String>,
    temp: Option<bool>,
    path: Option<String>,
    code: Option<String>,
    transferable: Option<bool>,
    count: Option<usize>,
    start: Option<usize>,
}
fn batch(c: &Batch) -> R {
    let s = salter(&c.salt.0, c.own.as_deref(), c.route)?;
    let tier = effective(&c.own, &c.over, c.temp);
    let suite = match c.code.as_deref() {
        None | Some("A") => Some(Suite::Ed),
        Some("J") => Some(Suite::K1),
        Some("Q") => Some(Suite::R1),
        _ => None,
    };
    let base = c.path.clone().unwrap_or_default();
    let count = c.count.unwrap_or(1);
    let start = c.start.unwrap_or(0);
    let want = |path: &str| -> Option<(Vec<u8>, Suite)> {
        let seed = argon(tier, path.as_bytes(), &c.salt.0, 32)?;
        let su = suite?;
        su.seed_ok(&seed).then_some((seed, su))
    };
    let same = |what: &str, g: &Signer, path: &str| -> Result<(), String> {
        let (seed, su) = want(path).ok_or_else(|| format!("{what}: made a signer for tier {tier:?}, code {:?}", c.code))?;
        ensure_eq!(B(g.raw()), B(seed.clone()), "{what}: seed of path {path:?}");
        ensure_eq!(g.code(), su.seed_code(), "{what}: seed code");
        ensure_eq!(g.verfer().code(), su.key_code(c.transferable.unwrap_or(true)), "{what}: key code");
        let e = must("signer", || Signer::new_with_raw(&seed, c.transferable, Some(su.seed_code())))?;
        ensure_eq!(g, &e, "{what}: signer of path {path:?}");
        Ok(())
    };
    let single = |path: Option<&str>| {
        call("signer", || s.signer(c.code.as_deref(), c.transferable, path, c.over.as_deref(), c.temp))
    };
    match single(c.path.as_deref())? {
        Ok(g) => same("single derivation", &g, &base)?,
        Err(e) => ensure!(want(&base).is_none(), "single derivation at {base:?} failed: {e}"),
    }
    let r = call("signers", || {
        s.signers(c.count, c.start, c.path.as_deref(), c.code.as_deref(), c.transferable, c.over.as_deref(), c.temp)
    })?;
    let last = start.checked_add(count.saturating_sub(1));
    match r {
        Ok(v) => {
            ensure_eq!(v.len(), count, "number of derived signers");
            for (i, g) in v.iter().enumerate() {
                let n = start.checked_add(i).ok_or("a signer was derived at an index beyond the machine word")?;
                let path = format!("{base}{}", lower_hex(n));
                same(&format!("signer {i} of the batch"), g, &path)?;
                let one = single(Some(&path))?.map_err(|e| format!("single derivation at {path:?} failed: {e}"))?;
                ensure_eq!(&one, g, "signer {i} of the batch against the single derivation at {path:?}");
            }
        }
        Err(e) => ensure!(
            count > 0 && (last.is_none() || want(&format!("{base}{}", lower_hex(start))).is_none()),
            "batch of {count} from {start} failed: {e}"
        ),
    }
    okc(count > 0 || suite.is_none(), vec![format!("{} of {}", if suite.is_some() { tier } else { "bad code" }, count.min(9))])
}
fn lower_hex(mut n: usize) -> String {
    let mut v = vec![];
    loop {
        v.push(b"0123456789abcdef"[n & 15] as char);
        n >>= 4;
        if n == 0 {
            break;
        }
    }
    v.iter().rev().collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fresh {
    tier: Option<String>,
    path: String,
}
fn fresh(c: &Fresh) -> R {
    let mut seen: Vec<Salter> = vec![];
    for _ in 0..4 {
        let s = must("fresh salter", || Salter::new_with_defaults(c.tier.as_deref()))?;
        ensure_eq!(s.tier(), c.tier.clone().unwrap_or("low".into()), "tier");
        ensure_eq!(s.code(), "0A", "salt code");
        ensure_eq!(s.raw().len(), 16, "salt length");
        for o in &seen {
            ensure!(o.raw() != s.raw(), "two fresh salts are equal: {}", hex(&s.raw()));
        }
        for r in 0..4 {
            let o = salter(&s.raw(), c.tier.as_deref(), r)?;
            ensure_eq!(o, s, "fresh salter reloaded by route {r}");
        }
        let g = must("stretch", || s.stretch(None, Some(&c.path), None, Some(true)))?;
        ensure_eq!(B(g), B(argon("min", c.path.as_bytes(), &s.raw(), 32).unwrap()), "stretch of a fresh salt");
        seen.push(s);
    }
    ok(true)
}

fn path() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        1 => Just(None),
        4 => "[a-z0-9/]{0,12}".prop_map(Some),
        2 => any::<String>().prop_map(Some),
        1 => "[a-f0-9]{60,200}".prop_map(Some),
    ]
    .boxed()
}
fn tier(extra: bool) -> BoxedStrategy<Option<String>> {
    let s = |x: &str| Just(Some(x.to_string()));
    if extra {
        prop_oneof![3 => Just(None), 1 => s("low"), 1 => s("med"), 1 => s("high"), 1 => s("min"), 1 => s("LOW"), 1 => s(""), 1 => s("max"), 1 => s("min ")].boxed()
    } else {
        prop_oneof![3 => Just(None), 1 => s("low"), 1 => s("med"), 1 => s("high"), 1 => s("min")].boxed()
    }
}
/// counts no batch can have
pub fn huge() -> BoxedStrategy<usize> {
    prop_oneof![Just(usize::MAX), Just(usize::MAX / 2 + 1), Just(1usize << 56), Just(1usize << 48), Just(usize::MAX / 200)].boxed()
}
/// a batch that fails within its first few signers, however many are asked for
pub fn hopeless(code: &Option<String>, start: Option<usize>) -> bool {
    code.as_deref().is_some_and(|c| !["A", "J", "Q"].contains(&c)) || start.is_some_and(|s| s > usize::MAX - 8)
}
/// tiers whose effective one is cheap: temporary, explicitly minimal, or unknown
fn cheap() -> BoxedStrategy<(Option<String>, Option<String>, Option<bool>)> {
    let min = || Just(Some("min".to_string()));
    let bad = || prop_oneof!["[a-z]{0,5}", Just("LOW".to_string()), Just(String::new()), Just("0".into())].prop_map(|s| {
        Some(if ["low", "med", "high", "min"].contains(&s.as_str()) { "nope".into() } else { s })
    });
    let no = || prop_oneof![Just(None), Just(Some(false))];
    prop_oneof![
        6 => (tier(true), tier(false), Just(Some(true))),
        3 => (tier(true), min(), no()),
        2 => (min(), Just(None), no()),
        2 => (tier(false), bad(), no()),
        1 => (bad(), Just(None), no()),
    ]
    .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C09",
        rule: "a stretch or derivation compared with Argon2id run directly, or refused where the parameters name no parameter set",
        assumptions: vec![
            "the argon2 crate called directly with the parameters of the statement is the reference; all inputs cross the library's own option handling",
            "real tiers are sampled (a stretch takes up to seconds), the temporary tier densely",
        ],
        subs: vec![
            prop("stretch", 60000, 3000000, || {
                (bytes_n(16), any::<u8>(), cheap(), path(), prop_oneof![3 => Just(None), 2 => (0usize..100).prop_map(Some), 1 => (0usize..2000).prop_map(Some)])
                    .prop_map(|(salt, route, (own, over, temp), path, size)| Stretch { salt, route, own, over, temp, path, size })
            }, stretch),
            each("stretch at the real tiers", |env| {
                let n = if env.thorough { 6u8 } else { 1 };
                let seed = env.seed;
                (0..n).flat_map(move |k| {
                    [("low", 0u8), ("low", 1), ("med", 0), ("med", 1), ("high", 1), ("low", 2), ("low", 3), ("high", 0)].into_iter().map(move |(t, how)| {
                        let salt: Vec<u8> = (0..16).map(|i| (seed as u8).wrapping_mul(31).wrapping_add(k * 17 + i * 7 + how)).collect();
                        let s = Some(t.to_string());
                        // the tier is the salter's own, the explicit one, or the default
                        let (own, over) = match how {
                            0 => (s, None),
                            1 => (Some(if t == "low" { "high" } else { "low" }.to_string()), s),
                            2 => (None, None),
                            _ => (Some("bogus".into()), s),
                        };
                        Stretch { salt: B(salt), route: how + k, own, over, temp: if how == 0 { None } else { Some(false) }, path: Some(format!("p{k}")), size: if how == 0 { None } else { Some(16 + k as usize) } }
                    })
                })
            }, stretch),
            prop("derived signers", 30000, 500000, || {
                let code = prop_oneof![2 => Just(None), 3 => Just(Some("A")), 3 => Just(Some("J")), 3 => Just(Some("Q")), 1 => prop_oneof![Just("D"), Just("E"), Just("0A"), Just("4A"), Just(""), Just("K"), Just("-A"), Just("é")].prop_map(Some)]
                    .prop_map(|o| o.map(String::from));
                let count = prop_oneof![1 => Just(None), 6 => (0usize..5).prop_map(Some), 1 => (15usize..20).prop_map(Some)];
                let start = prop_oneof![2 => Just(None), 4 => (0usize..20).prop_map(Some), 2 => (0usize..70000).prop_map(Some), 1 => any::<usize>().prop_map(Some), 1 => (0usize..5).prop_map(|d| Some(usize::MAX - d))];
                (bytes_n(16), any::<u8>(), cheap(), path(), code, any::<Option<bool>>(), count, start, prop_oneof![Just(None), huge().prop_map(Some)]).prop_map(
                    |(salt, route, (own, over, temp), path, code, transferable, count, start, huge)| {
                        let count = if hopeless(&code, start) { huge.or(count) } else { count };
                        Batch { salt, route, own, over, temp, path, code, transferable, count, start }
                    },
                )
            }, batch),
            each("derived signers at the low tier", |env| {
                let n = if env.thorough { 24u8 } else { 4 };
                (0..n).map(|k| Batch {
                    salt: B(vec![k + 1; 16]),
                    route: k,
                    own: if k % 2 == 0 { None } else { Some("low".into()) },
                    over: None,
                    temp: if k % 3 == 0 { None } else { Some(false) },
                    path: Some("dir".into()),
                    code: [None, Some("J"), Some("Q"), Some("A")][k as usize % 4].map(String::from),
                    transferable: Some(k % 2 == 0),
                    count: Some(2),
                    start: Some(9 + k as usize),
                })
            }, batch),
            prop("fresh salts", 2000, 200000, || (tier(false), "[a-z]{0,6}").prop_map(|(tier, path)| Fresh { tier, path }), fresh),
        ],
        probes: vec![],
    }
}
