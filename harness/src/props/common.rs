//! Strategies for encodings and the comparison helpers shared by several checks.
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;

/// raw lengths for variable material: every residue, and the code-promotion point
pub fn var_len() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 0usize..40,
        3 => 0usize..400,
        1 => 12270usize..12300,
        1 => 180usize..200,
        1 => 12288usize..13000,
    ]
    .boxed()
}
pub fn mprim_of(c: &'static MCode) -> BoxedStrategy<MPrim> {
    if c.var() {
        let hi = if c.ss == 2 { 4095 } else { 6000 };
        let lo = if c.ls > 0 { 1usize } else { 0 };
        prop_oneof![6 => lo..20, 2 => lo..120, 1 => 60usize..70, 1 => 4090usize..=hi]
            .prop_flat_map(move |size| {
                bytes_n(size * 3 - c.ls).prop_map(move |raw| MPrim { code: c.code.into(), size: size as u32, raw: raw.0 })
            })
            .boxed()
    } else {
        bytes_n(c.rs).prop_map(move |raw| MPrim { code: c.code.into(), size: 0, raw: raw.0 }).boxed()
    }
}
pub fn mprim() -> BoxedStrategy<MPrim> {
    (0..MATTER.len()).prop_flat_map(|i| mprim_of(&MATTER[i])).boxed()
}
pub fn small_mprim() -> BoxedStrategy<MPrim> {
    (0..MATTER.len())
        .prop_flat_map(|i| {
            let c = &MATTER[i];
            if c.var() {
                let lo = if c.ls > 0 { 1usize } else { 0 };
                (lo..14)
                    .prop_flat_map(move |size| {
                        bytes_n(size * 3 - c.ls).prop_map(move |raw| MPrim { code: c.code.into(), size: size as u32, raw: raw.0 })
                    })
                    .boxed()
            } else {
                mprim_of(c)
            }
        })
        .boxed()
}
pub fn field(n: usize) -> BoxedStrategy<u32> {
    let max = (1u64 << (6 * n)) as u32 - 1;
    prop_oneof![
        3 => 0..=max,
        2 => 0..=max.min(70),
        1 => Just(max),
        1 => Just(max / 64),
        1 => Just(max / 64 + 1),
        1 => Just(0u32),
    ]
    .boxed()
}
pub fn iprim_of(c: &'static ICode, big: bool) -> BoxedStrategy<IPrim> {
    let idx = if c.rs.is_none() {
        if big {
            prop_oneof![8 => 0u32..30, 2 => 0u32..200, 1 => 4090u32..4096].boxed()
        } else {
            (0u32..12).boxed()
        }
    } else {
        field(c.ms)
    };
    let os = c.os;
    idx.prop_flat_map(move |index| {
        let o = if c.current {
            Just(0).boxed()
        } else if os == 0 {
            Just(index).boxed()
        } else {
            prop_oneof![2 => field(os), 1 => Just(index)].boxed()
        };
        (bytes_n(c.raw_size(index)), o).prop_map(move |(raw, ondex)| IPrim { code: c.code.into(), index, ondex, raw: raw.0 })
    })
    .boxed()
}
pub fn iprim(big: bool) -> BoxedStrategy<IPrim> {
    (0..INDEXER.len()).prop_flat_map(move |i| iprim_of(&INDEXER[i], big)).boxed()
}
pub fn counter() -> BoxedStrategy<(String, u32)> {
    (0..COUNTER.len())
        .prop_flat_map(|i| {
            let (c, n) = COUNTER[i];
            field(n).prop_map(move |x| (c.to_string(), x))
        })
        .boxed()
}

/// A point mutation of a text encoding.
#[derive(Debug, Clone)]
pub enum Mut {
    Set(usize, char),
    Del(usize),
    Ins(usize, char),
    Cut(usize),
    Tail(String),
    Code(usize),
    PadEq(usize),
    Size(usize, u32),
}
fn any_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => (0usize..64).prop_map(|i| ALPHA[i] as char),
        1 => Just('='),
        1 => prop_oneof![Just('+'), Just('/'), Just(' '), Just('\n'), Just('\0'), Just('.'), Just('~'), Just('@'), Just('['), Just('`'), Just('{')],
        1 => prop_oneof![Just('é'), Just('€'), Just('𝄞'), Just('\u{7f}'), Just('\u{80}')],
        1 => any::<char>(),
    ]
    .boxed()
}
pub fn muts(max: usize) -> BoxedStrategy<Vec<Mut>> {
    let m = prop_oneof![
        6 => (0usize..120, any_char()).prop_map(|(i, c)| Mut::Set(i, c)),
        3 => (0usize..9, any_char()).prop_map(|(i, c)| Mut::Set(i, c)),
        1 => (0usize..120).prop_map(Mut::Del),
        1 => (0usize..120, any_char()).prop_map(|(i, c)| Mut::Ins(i, c)),
        2 => (0usize..120).prop_map(Mut::Cut),
        2 => junk_text().prop_map(Mut::Tail),
        2 => (0usize..64).prop_map(Mut::Code),
        2 => (1usize..5).prop_map(Mut::PadEq),
        1 => (2usize..5, any::<u32>()).prop_map(|(a, b)| Mut::Size(a, b)),
    ];
    vec(m, 0..=max).boxed()
}
pub fn apply(base: &str, ms: &[Mut], codes: &[String]) -> String {
    let mut v: Vec<char> = base.chars().collect();
    for m in ms {
        let n = v.len();
        match m {
            Mut::Set(i, c) if n > 0 => v[i % n] = *c,
            Mut::Del(i) if n > 0 => {
                v.remove(i % n);
            }
            Mut::Ins(i, c) => v.insert(i % (n + 1), *c),
            Mut::Cut(i) if n > 0 => v.truncate(if i % 2 == 0 { i % n } else { n - 1 - (i % n.min(8)) }),
            Mut::Tail(s) => v.extend(s.chars()),
            Mut::Code(i) => {
                let c: Vec<char> = codes[i % codes.len()].chars().collect();
                for (k, x) in c.iter().enumerate() {
                    if k < v.len() {
                        v[k] = *x;
                    } else {
                        v.push(*x);
                    }
                }
            }
            Mut::PadEq(k) => {
                for j in 0..(*k).min(n) {
                    v[n - 1 - j] = '=';
                }
            }
            Mut::Size(at, x) => {
                for k in 0..4 {
                    if at + k < n {
                        v[at + k] = ALPHA[(x >> (6 * k) & 63) as usize] as char;
                    }
                }
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}
/// mutations of a binary encoding
pub fn bmuts() -> BoxedStrategy<Vec<(u8, usize, u8)>> {
    vec((0u8..5, 0usize..1000, any::<u8>()), 0..4).boxed()
}
pub fn bapply(base: &[u8], ms: &[(u8, usize, u8)]) -> Vec<u8> {
    let mut v = base.to_vec();
    for (k, i, x) in ms {
        let n = v.len();
        match k {
            0 if n > 0 => v[(i / 8) % n] ^= 1 << (i % 8),
            1 if n > 0 => v[i % n] = *x,
            2 if n > 0 => v.truncate(if *x < 128 { i % n } else { n - 1 - i % n.min(6) }),
            3 => v.extend(std::iter::repeat(*x).take(i % 5)),
            _ if n > 0 => v[i % n.min(4)] = *x,
            _ => {}
        }
    }
    v
}

pub fn same_prim(o: &Obs, e: &MPrim, how: &str) -> Result<(), String> {
    let (t, b) = e.encode();
    ensure_eq!(o.code, e.code, "{how}: code");
    ensure_eq!(o.size, e.size, "{how}: size");
    if o.raw != e.raw {
        return Err(format!("{how}: raw: got {}, expected {}", hex(&o.raw), hex(&e.raw)));
    }
    ensure_eq!(o.qb64, t, "{how}: qb64");
    ensure_eq!(B(o.qb64b.clone()), B(t.clone().into_bytes()), "{how}: qb64b");
    ensure_eq!(B(o.qb2.clone()), B(b), "{how}: qb2");
    ensure_eq!(o.full, t.len(), "{how}: full_size");
    Ok(())
}
pub fn same_idx(o: &IObs, e: &IPrim, how: &str) -> Result<(), String> {
    let (t, b) = e.encode();
    ensure_eq!(o.code, e.code, "{how}: code");
    ensure_eq!(o.index, e.index, "{how}: index");
    ensure_eq!(o.ondex, e.ondex, "{how}: ondex");
    ensure_eq!(B(o.raw.clone()), B(e.raw.clone()), "{how}: raw");
    ensure_eq!(o.qb64, t, "{how}: qb64");
    ensure_eq!(B(o.qb64b.clone()), B(t.clone().into_bytes()), "{how}: qb64b");
    ensure_eq!(B(o.qb2.clone()), B(b), "{how}: qb2");
    ensure_eq!(o.full, t.len(), "{how}: full_size");
    Ok(())
}
pub fn seed_valid(code: &str, raw: &[u8]) -> bool {
    match code {
        "J" => k256::SecretKey::from_slice(raw).is_ok(),
        "Q" => p256::SecretKey::from_slice(raw).is_ok(),
        _ => true,
    }
}
/// result of a fallible call with panics turned into failures
pub fn call<T>(what: &str, f: impl FnOnce() -> cesride::Result<T>) -> Result<cesride::Result<T>, String> {
    no_panic(f).map_err(|m| format!("{what}: {m}"))
}
pub fn must<T>(what: &str, f: impl FnOnce() -> cesride::Result<T>) -> Result<T, String> {
    call(what, f)?.map_err(|e| format!("{what}: unexpected error: {e}"))
}
pub fn must_err<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> cesride::Result<T>) -> Result<(), String> {
    match call(what, f)? {
        Ok(v) => {
            let s: String = format!("{v:?}").chars().take(300).collect();
            Err(format!("{what}: accepted, expected an error; got {s}"))
        }
        Err(_) => Ok(()),
    }
}
pub fn all_codes() -> Vec<String> {
    let mut v: Vec<String> = MATTER.iter().map(|c| c.code.to_string()).collect();
    v.extend(INDEXER.iter().map(|c| c.code.to_string()));
    v.extend(COUNTER.iter().map(|c| c.0.to_string()));
    for x in ["4C", "4Z", "5Z", "6C", "7AAC", "8AAC", "9AAC", "7AAZ", "R", "Z", "a", "z", "0J", "0Z", "1AAK", "1AAZ", "2AAB", "3AAB", "-M", "-Z", "-0A", "--AAB", "_", "0C", "2G", "3C", "5A", "8"] {
        v.push(x.into());
    }
    v
}
pub use crate::ensure as _ensure;
#[allow(unused)]
fn _unused() -> Result<(), String> {
    ensure!(true, "x");
    Ok(())
}
