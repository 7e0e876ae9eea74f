use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    t: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bin {
    b: B,
}
fn judge(what: &str, got: cesride::Result<IObs>, exp: &Option<IPrim>) -> Result<(), String> {
    match (exp, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(o)) => Err(format!("{what}: accepted (code {:?}, index {}, ondex {}, raw {} bytes), expected an error", o.code, o.index, o.ondex, o.raw.len())),
        (Some(_), Err(e)) => Err(format!("{what}: canonical encoding rejected: {e}")),
        (Some(p), Ok(o)) => same_idx(&o, p, what),
    }
}
fn siger(e: &Option<IPrim>) -> Option<IPrim> {
    e.clone().filter(|p| SIGER_CODES.contains(&p.code.as_str()))
}
fn text(t: &str) -> R {
    let exp = indexer_parse(t.as_bytes());
    judge("Indexer from qb64", call("Indexer from qb64", || make_bare_idx(IRoute::Text(t)))?, &exp)?;
    judge("Indexer from qb64b", call("Indexer from qb64b", || make_bare_idx(IRoute::Bytes(t.as_bytes())))?, &exp)?;
    let s = siger(&exp);
    judge("Siger from qb64", call("Siger from qb64", || make_siger(IRoute::Text(t)))?, &s)?;
    judge("Siger from qb64b", call("Siger from qb64b", || make_siger(IRoute::Bytes(t.as_bytes())))?, &s)?;
    if let Some(p) = &exp {
        ensure!(p.encode().0.as_bytes() == &t.as_bytes()[..p.fs()], "model is not canonical");
    }
    okc(!t.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}
fn bin(b: &[u8]) -> R {
    let exp = indexer_parse_bin(b);
    judge("Indexer from qb2", call("Indexer from qb2", || make_bare_idx(IRoute::Bin(b)))?, &exp)?;
    judge("Siger from qb2", call("Siger from qb2", || make_siger(IRoute::Bin(b)))?, &siger(&exp))?;
    if let Some(p) = &exp {
        ensure!(p.encode().1 == b[..p.fs() * 3 / 4], "model is not canonical");
    }
    okc(!b.is_empty(), vec![if exp.is_some() { "accepted" } else { "rejected" }])
}
fn examples() -> Vec<IPrim> {
    let mut v = vec![];
    for c in INDEXER {
        for index in [0u32, 5] {
            let ondex = if c.current {
                0
            } else if c.os > 0 {
                index + 1
            } else {
                index
            };
            let raw = (0..c.raw_size(index)).map(|i| 0x95u8.wrapping_mul(i as u8 + 1)).collect();
            v.push(IPrim { code: c.code.into(), index, ondex, raw });
        }
    }
    v
}
pub fn check() -> Check {
    Check {
        id: "C04",
        rule: "a case is one input text or byte string; nontrivial when non-empty; distinct by the serialised input; classes count accepted and rejected inputs",
        assumptions: vec!["accepted iff the reference parser accepts (canonical layout of harness/src/model/cesr.rs); text inputs are valid UTF-8, byte inputs need not be"],
        subs: vec![
            prop(
                "C04/text-mutated",
                600000,
                20000000,
                || {
                    let codes = all_codes();
                    (iprim(false), muts(3)).prop_map(move |(p, m)| Text { t: apply(&p.encode().0, &m, &codes) })
                },
                |c: &Text| text(&c.t),
            ),
            prop(
                "C04/text-large",
                60000,
                6000000,
                || {
                    let codes = all_codes();
                    (iprim_of(icode("0z").unwrap(), true), muts(2)).prop_map(move |(p, m)| Text { t: apply(&p.encode().0, &m, &codes) })
                },
                |c: &Text| text(&c.t),
            ),
            prop("C04/text-junk", 600000, 20000000, || prop_oneof![junk_text(), "[0-4A-F][A-Za-z0-9_-]{0,170}"].prop_map(|t| Text { t }), |c: &Text| text(&c.t)),
            prop(
                "C04/bin-mutated",
                900000,
                20000000,
                || (iprim(false), bmuts()).prop_map(|(p, m)| Bin { b: B(bapply(&p.encode().1, &m)) }),
                |c: &Bin| bin(&c.b.0),
            ),
            // bytes that need not be UTF-8, in the primitive or after it
            prop(
                "C04/bytes-non-utf8",
                200000,
                6000000,
                || {
                    (iprim(false), bmuts(), proptest::option::of(bytes(1..=8)))
                        .prop_map(|(p, m, tail)| Bin { b: B(match tail {
                            Some(tail) => [p.encode().0.as_bytes(), &tail.0].concat(),
                            None => bapply(p.encode().0.as_bytes(), &m),
                        }) })
                },
                |c: &Bin| {
                    let exp = indexer_parse(&c.b.0);
                    judge("Indexer from qb64b", call("Indexer from qb64b", || make_bare_idx(IRoute::Bytes(&c.b.0)))?, &exp)?;
                    judge("Siger from qb64b", call("Siger from qb64b", || make_siger(IRoute::Bytes(&c.b.0)))?, &siger(&exp))?;
                    okc(!c.b.0.is_empty(), vec![match (exp.is_some(), std::str::from_utf8(&c.b.0).is_ok()) {
                        (true, true) => "accepted",
                        (true, false) => "accepted before bytes that are not text",
                        (false, true) => "rejected",
                        (false, false) => "rejected, not text",
                    }])
                },
            ),
            prop("C04/bin-junk", 800000, 20000000, || bytes(0..=130).prop_map(|b| Bin { b }), |c: &Bin| bin(&c.b.0)),
            each(
                "C04/text-substitutions",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t: Vec<char> = p.encode().0.chars().collect();
                        let n = t.len();
                        let mut symbols: Vec<char> = ALPHA.iter().map(|b| *b as char).collect();
                        symbols.extend("=+/ \n.~\u{7f}é€𝄞".chars());
                        (0..n).flat_map(move |i| {
                            let t = t.clone();
                            symbols.clone().into_iter().map(move |c| {
                                let mut u = t.clone();
                                u[i] = c;
                                Text { t: u.into_iter().collect() }
                            })
                        })
                    })
                },
                |c: &Text| text(&c.t),
            ),
            each(
                "C04/text-truncations",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t = p.encode().0;
                        (0..=t.len()).flat_map(move |n| {
                            let h = t[..n].to_string();
                            ["", "=", "==", "A", "é", "-", "\u{0}", "ABCD"].into_iter().map(move |x| Text { t: format!("{h}{x}") })
                        })
                    })
                },
                |c: &Text| text(&c.t),
            ),
            each(
                "C04/text-eq-pads",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let t = p.encode().0;
                        (1..=8usize.min(t.len())).map(move |k| Text { t: format!("{}{}", &t[..t.len() - k], "=".repeat(k)) })
                    })
                },
                |c: &Text| text(&c.t),
            ),
            each(
                "C04/bin-bits",
                |_| {
                    examples().into_iter().flat_map(|p| {
                        let b = p.encode().1;
                        let n = b.len();
                        let b2 = b.clone();
                        (0..n * 8)
                            .map(move |i| {
                                let mut u = b.clone();
                                u[i / 8] ^= 0x80 >> (i % 8);
                                Bin { b: B(u) }
                            })
                            .chain((0..n).map(move |i| Bin { b: B(b2[..i].to_vec()) }))
                    })
                },
                |c: &Bin| bin(&c.b.0),
            ),
            // every value of both index fields of the current-list-only codes: a non-zero other index is refused
            each(
                "C04/current-ondex",
                |_| {
                    INDEXER.iter().filter(|c| c.current && c.os > 0).flat_map(|c| {
                        (0..=c.max_ondex().min(4200)).map(move |o| {
                            let t = IPrim { code: c.code.into(), index: 1, ondex: o, raw: vec![7; c.raw_size(1)] }.encode().0;
                            Text { t }
                        })
                    })
                },
                |c: &Text| {
                    text(&c.t)?;
                    bin(&dec(c.t.as_bytes()).unwrap())
                },
            ),
            each(
                "C04/short-text",
                |env| {
                    let mut sym: Vec<String> = ALPHA.iter().map(|b| (*b as char).to_string()).collect();
                    sym.extend(["=", "+", "é", "€", "𝄞", " "].map(String::from));
                    let s3: Vec<String> = if env.thorough { sym.clone() } else { ["A", "B", "0", "z", "9", "_", "-", "=", "é", "𝄞"].map(String::from).to_vec() };
                    let mut all = vec![String::new()];
                    for a in &sym {
                        all.push(a.clone());
                        for b in &sym {
                            all.push(format!("{a}{b}"));
                            for c in &s3 {
                                all.push(format!("{a}{b}{c}"));
                            }
                        }
                    }
                    for b in &sym {
                        for c in &sym {
                            all.push(format!("0z{b}{c}"));
                            all.push(format!("0z{b}{c}AAAA"));
                        }
                    }
                    all.into_iter().map(|t| Text { t })
                },
                |c: &Text| text(&c.t),
            ),
            each(
                "C04/short-bin",
                |_| (0..256u32).map(|a| Bin { b: B(vec![a as u8]) }).chain((0..65536u32).map(|a| Bin { b: B(vec![(a >> 8) as u8, a as u8]) })),
                |c: &Bin| bin(&c.b.0),
            ),
        ],
        probes: vec![],
    }
}
