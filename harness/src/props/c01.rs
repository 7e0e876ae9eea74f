use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ty: usize,
    code: String,
    raw: B,
}

fn ty(i: usize) -> &'static Ty {
    if i == TYPES.len() {
        &BARE
    } else {
        &TYPES[i]
    }
}

fn check_case(ty: &Ty, code: &str, raw: &[u8]) -> R {
    let exp = matter_from_raw(code, raw);
    let exp = exp.filter(|e| ty.name != "Signer" || seed_valid(&e.code, &e.raw));
    for (name, make) in [("new_with_raw", ty.make), ("new", ty.make_new)] {
        let what = format!("{}::{name}(code {code:?}, raw of {} bytes)", ty.name, raw.len());
        match (&exp, call(&what, || make(Route::Raw(code, raw)))?) {
            (None, Err(_)) => {}
            (None, Ok(o)) => return Err(format!("{what}: accepted as code {} raw {} bytes, expected an error", o.code, o.raw.len())),
            (Some(_), Err(e)) => return Err(format!("{what}: unexpected error {e}")),
            (Some(e), Ok(o)) => same_prim(&o, e, &what)?,
        }
    }
    let Some(e) = exp else { return okc(true, vec![format!("{}:error", ty.name)]) };
    let (t, b) = e.encode();
    for (name, make) in [("new_with_*", ty.make), ("new", ty.make_new)] {
        for (how, r) in [("qb64", Route::Text(&t)), ("qb64b", Route::Bytes(t.as_bytes())), ("qb2", Route::Bin(&b))] {
            let what = format!("{} {name} from {how}", ty.name);
            let o = must(&what, || make(r))?;
            same_prim(&o, &e, &what)?;
        }
    }
    okc(!raw.is_empty(), vec![format!("{}:{}", ty.name, e.code)])
}
fn run(c: &Case) -> R {
    check_case(ty(c.ty), &c.code, &c.raw.0)
}

/// an object whose parts were set one by one
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Parts {
    ty: u8,
    code: String,
    size: u32,
    raw: B,
}
fn parts_strat() -> BoxedStrategy<Parts> {
    proptest::sample::select(MATTER.to_vec())
        .prop_flat_map(|c| {
            let len = if c.var() {
                prop_oneof![3 => 0usize..40, 1 => 12270usize..12310].boxed()
            } else {
                prop_oneof![4 => Just(c.rs), 3 => c.rs.saturating_sub(7)..c.rs + 8, 1 => 0usize..130].boxed()
            };
            len.prop_flat_map(move |n| {
                // the size that fits the raw and lead bytes, when there is one, and others
                let fit = ((n + c.ls) / 3) as u32;
                let size = prop_oneof![6 => Just(fit), 2 => fit.saturating_sub(2)..fit + 3, 1 => 4090u32..4100, 1 => index_like(), 1 => Just((1u32 << 24) + fit)];
                (0u8..4, size, bytes_n(n)).prop_map(move |(ty, size, raw)| Parts { ty, code: c.code.into(), size, raw })
            })
        })
        .boxed()
}
fn set_parts<M: cesride::Matter>(c: &Parts) -> Result<(), String> {
    let mut m = M::default();
    m.set_code(&c.code);
    m.set_size(c.size);
    m.set_raw(&c.raw.0);
    let k = mcode(&c.code).unwrap();
    let fits = match k.var() {
        true => c.raw.0.len() + k.ls == 3 * c.size as usize && (c.size as u64) < 1 << (6 * k.ss),
        false => c.raw.0.len() == k.rs,
    };
    let what = format!("an object given code {:?}, size {} and {} raw bytes", c.code, c.size, c.raw.0.len());
    let (t, b, v) = (call(&what, || m.qb64())?, call(&what, || m.qb2())?, call(&what, || m.qb64b())?);
    if fits {
        let (et, eb) = MPrim { code: c.code.clone(), size: c.size, raw: c.raw.0.clone() }.encode();
        ensure_eq!(t.map_err(|e| format!("{what}: qb64: {e}"))?, et, "{what}: qb64");
        ensure_eq!(v.map_err(|e| format!("{what}: qb64b: {e}"))?, et.into_bytes(), "{what}: qb64b");
        ensure_eq!(b.map_err(|e| format!("{what}: qb2: {e}"))?, eb, "{what}: qb2");
    } else {
        for (how, r) in [("qb64", t), ("qb64b", v.map(|v| String::from_utf8_lossy(&v).into_owned())), ("qb2", b.map(|b| format!("{b:02x?}")))] {
            if let Ok(o) = r {
                return Err(format!("{what} has {how} {o:?}, but its parts do not fit each other"));
            }
        }
    }
    Ok(())
}
fn run_parts(c: &Parts) -> R {
    match c.ty {
        0 | 1 => set_parts::<Bare>(c)?,
        2 => set_parts::<cesride::Verfer>(c)?,
        _ => set_parts::<cesride::Bexter>(c)?,
    }
    okc(true, vec![c.code.clone()])
}

/// lightweight check used for exhaustive enumerations
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lite {
    code: String,
    len: usize,
    fill: u8,
    /// a single bit set on top of the fill
    bit: Option<usize>,
}
fn lite_raw(c: &Lite) -> Vec<u8> {
    let mut r: Vec<u8> = (0..c.len).map(|i| if c.fill == 1 { (i % 251) as u8 ^ (i >> 8) as u8 } else { c.fill }).collect();
    if let Some(b) = c.bit {
        r[b / 8] ^= 0x80 >> (b % 8);
    }
    r
}

fn strat(i: usize) -> BoxedStrategy<Case> {
    let codes: Vec<String> = if i == TYPES.len() {
        MATTER.iter().map(|c| c.code.to_string()).collect()
    } else {
        TYPES[i].codes.iter().map(|c| c.to_string()).collect()
    };
    proptest::sample::select(codes)
        .prop_flat_map(move |code| {
            let c = mcode(&code).unwrap();
            let len = if c.var() {
                var_len()
            } else {
                prop_oneof![8 => Just(c.rs), 1 => c.rs..c.rs + 5, 1 => 0..c.rs, 1 => Just(c.rs - 1)].boxed()
            };
            len.prop_flat_map(bytes_n).prop_map(move |raw| Case { ty: i, code: code.clone(), raw })
        })
        .boxed()
}

pub fn check() -> Check {
    Check {
        id: "C01",
        rule: "a case is one (type, code, raw bytes) through all construction routes; nontrivial when raw is non-empty or the expected outcome is an error; distinct by the serialised case",
        assumptions: vec![
            "reference tables and layout in harness/src/model/cesr.rs, written from the CESR specification; code 1AAE uses the 56-character size the repository's own tests pin",
            "random cases cover raw lengths up to 13000 bytes; the 64^4-quadlet limit is covered by fixed lengths at the boundary",
        ],
        subs: vec![
            prop("C01/bare", 300000, 6000000, || strat(TYPES.len()), run),
            prop("C01/typed", 200000, 5000000, || (0..TYPES.len()).prop_flat_map(strat), run),
            prop("C01/parts", 150000, 6000000, parts_strat, run_parts),
            // every length of every variable code from a bounded range, and each fixed code's every bit
            each(
                "C01/every-length",
                |env| {
                    let max = if env.thorough { 12600usize } else { 700 };
                    let codes: Vec<&str> = MATTER.iter().filter(|c| c.var()).map(|c| c.code).collect();
                    (0..=max)
                        .chain(12270..12310)
                        .flat_map(move |len| codes.clone().into_iter().map(move |c| Lite { code: c.into(), len, fill: 1, bit: None }))
                },
                |c: &Lite| check_case(&BARE, &c.code, &lite_raw(c)),
            ),
            each(
                "C01/every-bit",
                |_| {
                    MATTER.iter().filter(|c| !c.var()).flat_map(|c| {
                        (0..c.rs * 8).flat_map(move |bit| {
                            [0u8, 0xff].into_iter().map(move |fill| Lite { code: c.code.into(), len: c.rs, fill, bit: Some(bit) })
                        })
                    })
                },
                |c: &Lite| check_case(&BARE, &c.code, &lite_raw(c)),
            ),
            each(
                "C01/limit",
                |env| {
                    let d: Vec<usize> = if env.thorough { vec![VAR_MAX - 3, VAR_MAX - 2, VAR_MAX - 1, VAR_MAX, VAR_MAX + 1, VAR_MAX + 2, VAR_MAX + 3, VAR_MAX + 4] } else { vec![VAR_MAX - 1, VAR_MAX, VAR_MAX + 1] };
                    let codes: &[&str] = if env.thorough { &["4A", "5B", "6A", "7AAA", "8AAB", "9AAA"] } else { &["4B", "9AAA"] };
                    let codes = codes.to_vec();
                    d.into_iter().flat_map(move |len| codes.clone().into_iter().map(move |c| Lite { code: c.into(), len, fill: 0x5a, bit: None }))
                },
                |c: &Lite| {
                    use cesride::Matter;
                    let raw = lite_raw(c);
                    let exp = matter_from_raw(&c.code, &raw);
                    let got = call("new_with_code_and_raw", || <Bare as Matter>::new_with_code_and_raw(&c.code, &raw))?;
                    match (exp, got) {
                        (None, Err(_)) => okc(true, vec!["rejected"]),
                        (None, Ok(_)) => Err(format!("raw of {} bytes accepted, beyond the format limit", c.len)),
                        (Some(_), Err(e)) => Err(format!("raw of {} bytes rejected: {e}", c.len)),
                        (Some(e), Ok(m)) => {
                            ensure_eq!(m.code, e.code, "code");
                            ensure_eq!(m.size, e.size, "size");
                            let t = must("qb64", || m.qb64())?;
                            let b = must("qb2", || m.qb2())?;
                            ensure!(dec(t.as_bytes()).as_deref() == Some(&b[..]), "qb2 is not the decoding of qb64");
                            ensure!(t.starts_with(&format!("{}{}", e.code, int_b64(e.size as u64, 4))), "code and size field");
                            ensure_eq!(t.len(), e.fs(), "length");
                            ensure_eq!(must("full_size", || m.full_size())?, t.len(), "full_size");
                            let p = must("parse", || <Bare as Matter>::new_with_qb64(&t))?;
                            ensure!(p == m, "text round trip differs");
                            let p = must("parse", || <Bare as Matter>::new_with_qb2(&b))?;
                            ensure!(p == m, "binary round trip differs");
                            okc(true, vec!["accepted"])
                        }
                    }
                },
            ),
            // lengths that do not fit 32 bits (untouched zero pages, so they cost nothing)
            each(
                "C01/beyond-32-bits",
                |_| [1usize << 32, (1 << 32) + 5].into_iter().map(|len| Lite { code: "".into(), len, fill: 0, bit: None }),
                |c: &Lite| {
                    use cesride::Matter;
                    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
                    let _one = ONE.lock();
                    let raw = vec![0u8; c.len];
                    for code in ["4A", "4B", "5A", "6B", "7AAA", "8AAB", "9AAA"] {
                        must_err(&format!("{} bytes with {code}", c.len), || <Bare as Matter>::new_with_code_and_raw(code, &raw))?;
                    }
                    okc(true, vec!["rejected"])
                },
            ),
            // unknown and malformed codes are errors for any raw
            prop(
                "C01/bad-code",
                200000,
                20000000,
                || {
                    let code = prop_oneof![proptest::sample::select(all_codes()), junk_text(), "[4-9][A-Z]{0,4}", "[0-3][A-Z]{0,4}"];
                    (code, bytes(0..=100)).prop_map(|(code, raw)| Case { ty: TYPES.len(), code, raw })
                },
                |c: &Case| {
                    if mcode(&c.code).is_some() {
                        return run(c);
                    }
                    use cesride::Matter;
                    must_err("new_with_code_and_raw", || <Bare as Matter>::new_with_code_and_raw(&c.code, &c.raw.0))?;
                    for t in TYPES {
                        must_err(t.name, || (t.make)(Route::Raw(&c.code, &c.raw.0)))?;
                    }
                    ok(true)
                },
            ),
        ],
        probes: vec![],
    }
}
