//! Fresh seeds, salts and signature nonces carry their full entropy and never repeat.
use super::c07::seed;
use crate::engine::*;
use crate::gen::*;
use crate::model::curves::*;
use crate::{ensure, ensure_eq};
use cesride::{Indexer, Matter, Salter, Signer};
use num_bigint::BigUint as N;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::result::Result;

/// every way to have a secret drawn
const ROUTES: [&str; 10] = [
    "signer A", "signer J", "signer Q", "signer A, not transferable", "signer J, not transferable", "signer Q, not transferable", "signer by default", "signer, all arguments absent", "salter by default",
    "salter, all arguments absent",
];
fn draw(route: usize) -> Result<Vec<u8>, String> {
    let signer = |t: Option<bool>, c: Option<&str>| call_raw(|| Signer::new(t, c, None, None, None, None).map(|s| s.raw()));
    match route {
        0..=5 => signer(Some(route < 3), Some(["A", "J", "Q"][route % 3])),
        6 => call_raw(|| Signer::new_with_defaults(None, None).map(|s| s.raw())),
        7 => signer(None, None),
        8 => call_raw(|| Salter::new_with_defaults(Some("med")).map(|s| s.raw())),
        _ => call_raw(|| Salter::new(None, None, None, None, None, None).map(|s| s.raw())),
    }
}
fn call_raw(f: impl FnOnce() -> cesride::Result<Vec<u8>>) -> Result<Vec<u8>, String> {
    no_panic(f)?.map_err(|e| format!("refused to draw: {e}"))
}
/// `harness --fresh ROUTE COUNT`: secrets of a process of its own, a line each
pub fn child(route: usize, count: usize) {
    for _ in 0..count {
        println!("{}", draw(route).map(|r| hex(&r)).unwrap_or_default());
    }
}
fn in_process(route: usize, count: usize) -> Result<Vec<Vec<u8>>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).args(["--fresh", &route.to_string(), &count.to_string()]).output().map_err(|e| e.to_string())?;
    String::from_utf8_lossy(&out.stdout).lines().map(|l| unhex(l).filter(|b| !b.is_empty()).ok_or_else(|| "another process refused to draw".to_string())).collect()
}
/// `bits`: how many of the low bits are free. The limits are those a uniform source passes but for
/// less than once in ten million runs.
fn uniform(what: &str, draws: &[Vec<u8>], bits: usize) -> Result<(), String> {
    distinct(what, draws)?;
    balanced(what, draws, bits)
}
/// no eight bytes anywhere twice
fn distinct(what: &str, draws: &[Vec<u8>]) -> Result<(), String> {
    for d in draws {
        ensure_eq!(d.len(), draws[0].len(), "{what}: length");
    }
    distinct_any(what, draws)
}
fn distinct_any(what: &str, draws: &[Vec<u8>]) -> Result<(), String> {
    let n = draws.len();
    let mut seen: HashMap<&[u8], (usize, usize)> = HashMap::new();
    for (i, d) in draws.iter().enumerate() {
        for (at, w) in d.windows(8).enumerate() {
            if let Some((j, b)) = seen.insert(w, (i, at)) {
                return Err(format!("{what}: the same eight bytes {} at {at} of draw {i} and at {b} of draw {j} of {n}", hex(w)));
            }
        }
    }
    Ok(())
}
/// every bit as often set as not, and no two of them together more often than apart
fn balanced(what: &str, draws: &[Vec<u8>], bits: usize) -> Result<(), String> {
    let (n, len) = (draws.len(), draws[0].len());
    // a column a bit
    let words = n.div_ceil(64);
    let mut col = vec![vec![0u64; words]; bits];
    for (i, d) in draws.iter().enumerate() {
        for (b, c) in col.iter_mut().enumerate() {
            if d[len - 1 - b / 8] >> (b % 8) & 1 == 1 {
                c[i / 64] |= 1 << (i % 64);
            }
        }
    }
    let limit = 8.0 * (n as f64).sqrt() / 2.0;
    let off = |ones: u32| (ones as f64 - n as f64 / 2.0).abs() > limit;
    for (b, c) in col.iter().enumerate() {
        let ones: u32 = c.iter().map(|w| w.count_ones()).sum();
        ensure!(!off(ones), "{what}: bit {b} is set in {ones} of {n} draws");
        for (e, d) in col[..b].iter().enumerate() {
            let diff: u32 = c.iter().zip(d).map(|(x, y)| (x ^ y).count_ones()).sum();
            ensure!(!off(diff), "{what}: bits {b} and {e} differ in {diff} of {n} draws");
        }
    }
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fresh {
    route: usize,
    /// draws of each thread and process, and how many there are of each
    draws: usize,
    threads: usize,
    processes: usize,
}
fn fresh(c: &Fresh) -> R {
    let what = ROUTES[c.route % ROUTES.len()];
    let all: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads)
            .map(|_| s.spawn(|| (0..c.draws).map(|_| draw(c.route)).collect()))
            .chain((0..c.processes).map(|_| s.spawn(|| in_process(c.route, c.draws))))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
    });
    let mut pool = vec![];
    for a in all {
        let a = a.map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(a.len(), c.draws, "{what}: draws of a source");
        pool.extend(a);
    }
    let len = if c.route < 8 { 32 } else { 16 };
    ensure_eq!(pool[0].len(), len, "{what}: bytes of a secret");
    uniform(what, &pool, len * 8)?;
    okc(true, vec![what])
}
/// what one kind of secret draws shares nothing with what another draws
fn mixed(routes: &Vec<usize>) -> R {
    let all: Vec<Vec<u8>> = routes.iter().map(|r| draw(*r)).collect::<Result<_, _>>()?;
    distinct_any("secrets drawn in turn", &all)?;
    okc(true, vec![format!("{} kinds", routes.iter().collect::<std::collections::HashSet<_>>().len())])
}
// ---- signatures ------------------------------------------------------------------------------------
/// the nonce behind an ECDSA signature, up to its sign
fn nonce(w: &Weier, seed: &[u8], msg: &[u8], sig: &[u8]) -> N {
    let d = N::from_bytes_be(seed);
    let z = N::from_bytes_be(&Sha256::digest(msg));
    let (r, s) = (N::from_bytes_be(&sig[..32]), N::from_bytes_be(&sig[32..]));
    let two = N::from(2u8);
    let k = s.modpow(&(&w.n - &two), &w.n) * (z + r * d) % &w.n;
    if &k * &two > w.n {
        &w.n - k
    } else {
        k
    }
}
fn be(x: &N) -> Vec<u8> {
    let b = x.to_bytes_be();
    let mut v = vec![0; 32usize.saturating_sub(b.len())];
    v.extend(b);
    v
}
fn sign(suite: u8, seed: &[u8], msg: &[u8], form: u8) -> Result<Vec<u8>, String> {
    let code = Suite::of(suite).seed_code();
    call_raw(|| {
        let s = Signer::new(Some(form & 1 == 0), Some(code), Some(seed), None, None, None)?;
        Ok(match form >> 1 & 1 {
            0 => s.sign_unindexed(msg)?.raw(),
            _ => s.sign_indexed(msg, form & 4 == 0, form as u32, None)?.raw(),
        })
    })
    .and_then(|b| if b.len() == 64 { Ok(b) } else { Err(format!("a signature of {} bytes", b.len())) })
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Signed {
    suite: u8,
    seeds: Vec<B>,
    msgs: Vec<B>,
    forms: Vec<u8>,
}
/// no two signatures under different keys or over different messages share their nonce
fn signed(c: &Signed) -> R {
    let suite = Suite::of(c.suite);
    let mut seen: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
    let mut pairs = vec![];
    let mut n = 0;
    for (i, f) in c.forms.iter().enumerate() {
        for (a, seed) in c.seeds.iter().enumerate() {
            if !suite.seed_ok(&seed.0) || c.seeds[..a].contains(seed) {
                continue;
            }
            for (b, msg) in c.msgs.iter().enumerate() {
                if c.msgs[..b].contains(msg) {
                    continue;
                }
                // every other round the other way about, so that any call can follow any other
                pairs.push((i, a, if i % 2 == 0 { b } else { c.msgs.iter().rposition(|m| m == &c.msgs[c.msgs.len() - 1 - b]).unwrap_or(b) }, *f));
            }
        }
    }
    for (_, a, b, f) in pairs {
        let (seed, msg) = (&c.seeds[a].0, &c.msgs[b].0);
        let b = c.msgs.iter().position(|m| &m.0 == msg).unwrap();
        let sig = sign(c.suite, seed, msg, f)?;
        n += 1;
        let r = sig[..32].to_vec();
        if let Some((x, y)) = seen.insert(r.clone(), (a, b)) {
            ensure!((x, y) == (a, b), "one nonce (commitment {}) for key {a} over message {b} and key {x} over message {y}", hex(&r));
        }
        if suite != Suite::Ed {
            let w = if suite == Suite::K1 { k1() } else { r1() };
            let k = be(&nonce(&w, seed, msg, &sig));
            ensure!(k[1..9] != [0; 8], "a nonce far too small: {}", hex(&k));
        }
    }
    okc(n > 1 && (c.seeds.len() > 1 || c.msgs.len() > 1), vec![suite.seed_code()])
}
fn signeds() -> BoxedStrategy<Signed> {
    let near = (bytes(0..=80), vec((any::<u8>(), any::<usize>(), any::<u8>()), 1..5)).prop_map(|(b, ms)| {
        let mut out = vec![b.clone()];
        for (how, at, x) in ms {
            let mut v = b.0.clone();
            let n = v.len();
            match how % 4 {
                0 if n > 0 => v[at % n] ^= 1 << (x % 8),
                1 => v.push(x),
                2 if n > 0 => v.truncate(at % n),
                _ => v.insert(at % (n + 1), x),
            }
            out.push(B(v));
        }
        out
    });
    (any::<u8>(), vec(seed(), 1..4), prop_oneof![3 => near, 1 => vec(bytes(0..=200), 1..5)], vec(any::<u8>(), 1..4))
        .prop_map(|(suite, seeds, msgs, forms)| Signed { suite, seeds, msgs, forms })
        .boxed()
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Nonces {
    suite: u8,
    seed: B,
    count: usize,
    form: u8,
}
/// the nonces of many signatures under one key look drawn uniformly, and so do their distances from
/// what else goes into the signature
fn nonces(c: &Nonces) -> R {
    let suite = Suite::of(c.suite);
    let w = if suite == Suite::K1 { k1() } else { r1() };
    let mut streams: [Vec<Vec<u8>>; 5] = Default::default();
    let d = N::from_bytes_be(&c.seed.0);
    for i in 0..c.count {
        let msg = format!("message {i}");
        let sig = sign(c.suite, &c.seed.0, msg.as_bytes(), c.form)?;
        let z = N::from_bytes_be(&Sha256::digest(&msg)) % &w.n;
        let k = nonce(&w, &c.seed.0, msg.as_bytes(), &sig);
        let fold = |x: N| {
            let x = x % &w.n;
            if &x * N::from(2u8) > w.n { &w.n - x } else { x }
        };
        // a nonce is known up to its sign
        streams[0].push(be(&k));
        streams[1].push(be(&fold(&k + &w.n - &z)));
        streams[2].push(be(&fold(&k + &z)));
        streams[3].push(be(&fold(&k + &w.n - &d)));
        streams[4].push(be(&fold(&k + &d)));
    }
    for (s, what) in streams.iter().zip(["the nonce", "nonce - hash", "nonce + hash", "nonce - key", "nonce + key"]) {
        distinct(what, s)?;
    }
    balanced("the nonce", &streams[0], 255)?;
    okc(true, vec![suite.seed_code()])
}
pub fn check() -> Check {
    Check {
        id: "C25",
        rule: "a batch of secrets drawn in several threads and processes; several signatures under different keys or over different messages; a batch of nonces worked out from signatures under a known key",
        assumptions: vec!["the limits are statistical: a uniform source fails them less than once in ten million runs; a source with a hidden short state (a seeded generator of full output) is only seen when it repeats within the draws of a run"],
        subs: vec![
            each("fresh secrets", |env| {
                let (draws, long) = if env.thorough { (2048, 65536) } else { (128, 4096) };
                (0..ROUTES.len()).flat_map(move |route| [Fresh { route, draws, threads: 8, processes: 8 }, Fresh { route, draws: long, threads: 1, processes: 0 }])
            }, fresh),
            prop("secrets of all kinds in turn", 400, 20000, || vec(0..ROUTES.len(), 2..120), mixed),
            prop("nonces of different signatures", 3000, 200000, signeds, signed),
            each("nonces under one key", |env| {
                let (keys, count) = if env.thorough { (16u8, 8192) } else { (2, 1024) };
                (0..keys).flat_map(move |k| (0..2u8).flat_map(move |suite| (0..2u8).map(move |f| Nonces { suite: suite + 1, seed: B(Sha256::digest([k, suite]).to_vec()), count, form: f * 2 })))
            }, nonces),
        ],
        probes: vec![],
    }
}
