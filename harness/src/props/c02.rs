use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Text {
    t: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Bin {
    b: B,
}

fn judge(what: &str, got: cesride::Result<Obs>, exp: &Option<MPrim>) -> Result<(), String> {
    match (exp, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(o)) => Err(format!("{what}: accepted (code {:?}, raw {}), expected an error", o.code, hex(&o.raw).chars().take(80).collect::<String>())),
        (Some(_), Err(e)) => Err(format!("{what}: canonical encoding rejected: {e}")),
        (Some(p), Ok(o)) => same_prim(&o, p, what),
    }
}
fn text_bare(t: &str) -> R {
    let exp = matter_parse(t.as_bytes());
    judge("Matter from qb64", call("Matter from qb64", || (BARE.make)(Route::Text(t)))?, &exp)?;
    judge("Matter from qb64b", call("Matter from qb64b", || (BARE.make_new)(Route::Bytes(t.as_bytes())))?, &exp)?;
    if let Some(p) = &exp {
        // the property itself, independently of the layout model
        ensure!(p.encode().0.as_bytes() == &t.as_bytes()[..p.fs()], "model is not canonical");
    }
    okc(!t.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}
fn typed_exp(ty: &Ty, exp: &Option<MPrim>) -> Option<MPrim> {
    exp.clone().filter(|p| ty.codes.contains(&p.code.as_str()) && (ty.name != "Signer" || seed_valid(&p.code, &p.raw)))
}
fn text_typed(t: &str) -> R {
    let exp = matter_parse(t.as_bytes());
    for ty in TYPES {
        let e = typed_exp(ty, &exp);
        judge(ty.name, call(ty.name, || (ty.make)(Route::Text(t)))?, &e)?;
        judge(ty.name, call(ty.name, || (ty.make)(Route::Bytes(t.as_bytes())))?, &e)?;
    }
    okc(!t.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}
fn bin_bare(b: &[u8]) -> R {
    let exp = matter_parse_bin(b);
    judge("Matter from qb2", call("Matter from qb2", || (BARE.make)(Route::Bin(b)))?, &exp)?;
    if let Some(p) = &exp {
        ensure!(p.encode().1 == b[..p.fs() * 3 / 4], "model is not canonical");
    }
    okc(!b.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}
fn bin_typed(b: &[u8]) -> R {
    let exp = matter_parse_bin(b);
    for ty in TYPES {
        judge(ty.name, call(ty.name, || (ty.make)(Route::Bin(b)))?, &typed_exp(ty, &exp))?;
    }
    okc(!b.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}

/// one canonical example of every code (variable ones at a few sizes)
pub fn examples() -> Vec<MPrim> {
    let mut v = vec![];
    for c in MATTER {
        if c.var() {
            for size in [1usize, 2, 5] {
                let raw = (0..size * 3 - c.ls).map(|i| 0x95u8.wrapping_mul(i as u8 + 1)).collect();
                v.push(MPrim { code: c.code.into(), size: size as u32, raw });
            }
        } else {
            let raw = (0..c.rs).map(|i| 0x95u8.wrapping_mul(i as u8 + 1)).collect();
            v.push(MPrim { code: c.code.into(), size: 0, raw });
        }
    }
    v
}
fn mutated() -> BoxedStrategy<Text> {
    let codes = all_codes();
    (small_mprim(), muts(3)).prop_map(move |(p, m)| Text { t: apply(&p.encode().0, &m, &codes) }).boxed()
}

pub fn check() -> Check {
    Check {
        id: "C02",
        rule: "a case is one input text or byte string; nontrivial when non-empty; distinct by the serialised input; classes count accepted and rejected inputs",
        assumptions: vec![
            "accepted iff the reference parser accepts (canonical layout of harness/src/model/cesr.rs); text inputs are valid UTF-8, byte inputs need not be",
        ],
        subs: vec![
            prop("C02/text-mutated", 900000, 20000000, mutated, |c: &Text| text_bare(&c.t)),
            prop("C02/text-typed", 200000, 10000000, mutated, |c: &Text| text_typed(&c.t)),
            prop(
                "C02/text-large",
                60000,
                6000000,
                || {
                    let codes = all_codes();
                    (mprim(), muts(2)).prop_map(move |(p, m)| Text { t: apply(&p.encode().0, &m, &codes) })
                },
                |c: &Text| text_bare(&c.t),
            ),
            prop("C02/text-junk", 500000, 20000000, || prop_oneof![junk_text(), "[0-9A-Z][A-Za-z0-9_-]{0,100}"].prop_map(|t| Text { t }), |c: &Text| {
                text_bare(&c.t)?;
                text_typed(&c.t)
            }),
            prop(
                "C02/bin-mutated",
                1000000,
                20000000,
                || (small_mprim(), bmuts()).prop_map(|(p, m)| Bin { b: B(bapply(&p.encode().1, &m)) }),
                |c: &Bin| bin_bare(&c.b.0),
            ),
            prop(
                "C02/bin-typed",
                200000,
                20000000,
                || (small_mprim(), bmuts()).prop_map(|(p, m)| Bin { b: B(bapply(&p.encode().1, &m)) }),
                |c: &Bin| bin_typed(&c.b.0),
            ),
            prop("C02/bin-junk", 800000, 20000000, || bytes(0..=120).prop_map(|b| Bin { b }), |c: &Bin| bin_bare(&c.b.0)),
            // bytes that need not be UTF-8, in the primitive or after it
            prop(
                "C02/bytes-non-utf8",
                300000,
                20000000,
                || {
                    (small_mprim(), bmuts(), proptest::option::of(bytes(1..=8)))
                        .prop_map(|(p, m, tail)| Bin { b: B(match tail {
                            Some(tail) => [p.encode().0.as_bytes(), &tail.0].concat(),
                            None => bapply(p.encode().0.as_bytes(), &m),
                        }) })
                },
                |c: &Bin| {
                    let exp = matter_parse(&c.b.0);
                    let got = call("Matter from qb64b", || (BARE.make)(Route::Bytes(&c.b.0)))?;
                    judge("Matter from qb64b", got, &exp)?;
                    for ty in TYPES {
                        judge(ty.name, call(ty.name, || (ty.make)(Route::Bytes(&c.b.0)))?, &typed_exp(ty, &exp))?;
                    }
                    okc(!c.b.0.is_empty(), vec![match (exp.is_some(), std::str::from_utf8(&c.b.0).is_ok()) {
                        (true, true) => "accepted",
                        (true, false) => "accepted before bytes that are not text",
                        (false, true) => "rejected",
                        (false, false) => "rejected, not text",
                    }])
                },
            ),
            // exhaustive single-symbol substitutions, truncations and one-symbol extensions
            each(
                "C02/text-substitutions",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t: Vec<char> = p.encode().0.chars().collect();
                        let n = t.len();
                        let mut symbols: Vec<char> = ALPHA.iter().map(|b| *b as char).collect();
                        symbols.extend("=+/ \n.~\u{7f}é€𝄞".chars());
                        (0..n).flat_map(move |i| {
                            let t = t.clone();
                            symbols.clone().into_iter().map(move |c| {
                                let mut u = t.clone();
                                u[i] = c;
                                Text { t: u.into_iter().collect() }
                            })
                        })
                    })
                },
                |c: &Text| text_bare(&c.t),
            ),
            each(
                "C02/text-truncations",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t = p.encode().0;
                        (0..=t.len()).flat_map(move |n| {
                            let h = t[..n].to_string();
                            ["", "=", "==", "A", "é", "-", "\u{0}", "ABCD"].into_iter().map(move |x| Text { t: format!("{h}{x}") })
                        })
                    })
                },
                |c: &Text| {
                    text_bare(&c.t)?;
                    text_typed(&c.t)
                },
            ),
            each(
                "C02/text-eq-pads",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t = p.encode().0;
                        (1..=8usize.min(t.len())).map(move |k| Text { t: format!("{}{}", &t[..t.len() - k], "=".repeat(k)) })
                    })
                },
                |c: &Text| text_bare(&c.t),
            ),
            each(
                "C02/bin-bits",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let b = p.encode().1;
                        let n = b.len();
                        let b2 = b.clone();
                        (0..n * 8)
                            .map(move |i| {
                                let mut u = b.clone();
                                u[i / 8] ^= 0x80 >> (i % 8);
                                Bin { b: B(u) }
                            })
                            .chain((0..n).map(move |i| Bin { b: B(b2[..i].to_vec()) }))
                    })
                },
                |c: &Bin| {
                    bin_bare(&c.b.0)?;
                    bin_typed(&c.b.0)
                },
            ),
            each(
                "C02/short-text",
                |env| {
                    let mut sym: Vec<String> = ALPHA.iter().map(|b| (*b as char).to_string()).collect();
                    sym.extend(["=", "+", "é", "€", "𝄞", " "].map(String::from));
                    let s3: Vec<String> = if env.thorough { sym.clone() } else { ["A", "B", "0", "4", "9", "_", "-", "=", "é", "𝄞"].map(String::from).to_vec() };
                    let mut all = vec![String::new()];
                    for a in &sym {
                        all.push(a.clone());
                        for b in &sym {
                            all.push(format!("{a}{b}"));
                            for c in &s3 {
                                all.push(format!("{a}{b}{c}"));
                            }
                        }
                    }
                    for f in ["4A", "5A", "6B", "7AAA", "8AAB", "9AAA", "1AAF", "M", "2AAA", "3AAA"] {
                        for b in &sym {
                            for c in &sym {
                                all.push(format!("{f}{b}{c}"));
                                all.push(format!("{f}AA{b}{c}"));
                            }
                        }
                    }
                    all.into_iter().map(|t| Text { t })
                },
                |c: &Text| text_bare(&c.t),
            ),
            each(
                "C02/short-bin",
                |env| {
                    let step = if env.thorough { 1u32 } else { 17 };
                    (0..256u32).map(|a| Bin { b: B(vec![a as u8]) }).chain((0..65536u32).map(|a| Bin { b: B(vec![(a >> 8) as u8, a as u8]) })).chain(
                        (0..1u32 << 24).step_by(step as usize * 37).map(|a| Bin { b: B(vec![(a >> 16) as u8, (a >> 8) as u8, a as u8]) }),
                    )
                },
                |c: &Bin| bin_bare(&c.b.0),
            ),
        ],
        probes: vec![],
    }
}
