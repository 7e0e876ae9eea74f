use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::Counter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pair {
    code: String,
    count: u32,
}
fn same(what: &str, c: &Counter, code: &str, count: u32) -> Result<(), String> {
    let (t, b) = counter_encode(code, count);
    ensure_eq!(c.code(), code.to_string(), "{what}: code");
    ensure_eq!(c.count(), count, "{what}: count");
    ensure_eq!(must(what, || c.qb64())?, t, "{what}: qb64");
    ensure_eq!(B(must(what, || c.qb64b())?), B(t.clone().into_bytes()), "{what}: qb64b");
    ensure_eq!(B(must(what, || c.qb2())?), B(b), "{what}: qb2");
    ensure_eq!(must(what, || c.full_size())?, t.len(), "{what}: full_size");
    let ss = ccode(code).unwrap();
    for l in [0, ss, ss + 1, ss + 4] {
        let e = int_b64(count as u64, if l == 0 { ss } else { l });
        ensure_eq!(must(what, || c.count_as_b64(l))?, e, "{what}: count_as_b64({l})");
    }
    Ok(())
}
fn pair(c: &Pair) -> R {
    let exp = ccode(&c.code).filter(|ss| (c.count as u64) < 1u64 << (6 * ss)).is_some();
    let code = c.code.as_str();
    let mut shortest = int_b64(c.count as u64, 6);
    while shortest.len() > 1 && shortest.starts_with('A') {
        shortest.remove(0);
    }
    let wide = int_b64(c.count as u64, 12);
    for (how, r) in [
        ("new_with_code_and_count", call("new_with_code_and_count", || Counter::new_with_code_and_count(code, c.count))?),
        ("new(count)", call("new(count)", || Counter::new(Some(c.count), None, Some(code), None, None, None))?),
        ("new(count_b64)", call("new(count_b64)", || Counter::new(None, Some(&shortest), Some(code), None, None, None))?),
        ("new(count_b64 padded)", call("new(count_b64)", || Counter::new(None, Some(&wide), Some(code), None, None, None))?),
    ] {
        let what = format!("{how} code {code:?} count {}", c.count);
        match (exp, r) {
            (true, Ok(x)) => same(&what, &x, code, c.count)?,
            (true, Err(e)) => return Err(format!("{what}: unexpected error {e}")),
            (false, Ok(x)) => return Err(format!("{what}: accepted as {:?}", x)),
            (false, Err(_)) => {}
        }
    }
    if !exp {
        return okc(true, vec![format!("refused {}", if ccode(code).is_some() { code } else { "unknown code" })]);
    }
    let (t, b) = counter_encode(code, c.count);
    same("qb64", &must("qb64", || Counter::new_with_qb64(&t))?, code, c.count)?;
    same("qb64b", &must("qb64b", || Counter::new_with_qb64b(t.as_bytes()))?, code, c.count)?;
    same("qb2", &must("qb2", || Counter::new_with_qb2(&b))?, code, c.count)?;
    same("new(qb64)", &must("new(qb64)", || Counter::new(None, None, None, None, Some(&t), None))?, code, c.count)?;
    same("new(qb64b)", &must("new(qb64b)", || Counter::new(None, None, None, Some(t.as_bytes()), None, None))?, code, c.count)?;
    same("new(qb2)", &must("new(qb2)", || Counter::new(None, None, None, None, None, Some(&b)))?, code, c.count)?;
    okc(true, vec![code.to_string()])
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CountText {
    code: String,
    b64: String,
}
fn count_text(c: &CountText) -> R {
    let t = c.b64.trim_start_matches('A');
    let v = if t.len() > 10 { Some(u64::MAX) } else { b64_int(t.as_bytes()) };
    let foreign = c.b64.bytes().any(|b| sextet(b).is_none());
    let ss = ccode(&c.code).unwrap();
    let r = call("count_b64", || Counter::new(None, Some(&c.b64), Some(&c.code), None, None, None))?;
    let what = format!("Counter::new(code {:?}, count_b64 {:?})", c.code, c.b64);
    match (v.filter(|v| !foreign && *v < 1 << (6 * ss)), r) {
        (Some(n), Ok(x)) => {
            same(&what, &x, &c.code, n as u32)?;
            okc(true, vec!["accepted"])
        }
        (Some(_), Err(e)) => Err(format!("{what}: unexpected error {e}")),
        (None, Ok(x)) => Err(format!("{what}: accepted as count {}", x.count())),
        (None, Err(_)) => okc(true, vec!["refused"]),
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    t: String,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bin {
    b: B,
}
fn judge(what: &str, exp: &Option<(String, u32)>, r: cesride::Result<Counter>) -> Result<(), String> {
    match (exp, r) {
        (Some((code, n)), Ok(x)) => same(what, &x, code, *n),
        (Some(_), Err(e)) => Err(format!("{what}: unexpected error {e}")),
        (None, Ok(x)) => Err(format!("{what}: accepted as {x:?}")),
        (None, Err(_)) => Ok(()),
    }
}
fn text(c: &Text) -> R {
    let exp = counter_parse(c.t.as_bytes());
    judge("new_with_qb64", &exp, call("new_with_qb64", || Counter::new_with_qb64(&c.t))?)?;
    judge("new_with_qb64b", &exp, call("new_with_qb64b", || Counter::new_with_qb64b(c.t.as_bytes()))?)?;
    okc(!c.t.is_empty(), vec![if exp.is_some() { "accepted" } else { "refused" }])
}
fn bin(c: &Bin) -> R {
    let exp = counter_parse_bin(&c.b.0);
    judge("new_with_qb2", &exp, call("new_with_qb2", || Counter::new_with_qb2(&c.b.0))?)?;
    // the same bytes as text, and a text followed by them
    judge("new_with_qb64b", &counter_parse(&c.b.0), call("new_with_qb64b", || Counter::new_with_qb64b(&c.b.0))?)?;
    if let Some((code, n)) = &exp {
        let t = [counter_encode(code, *n).0.as_bytes(), &c.b.0].concat();
        judge("new_with_qb64b of text before binary", &exp, call("new_with_qb64b", || Counter::new_with_qb64b(&t))?)?;
    }
    okc(!c.b.0.is_empty(), vec![if exp.is_some() { "accepted" } else { "refused" }])
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ver {
    a: u8,
    b: u8,
    c: u8,
}
fn ver(v: &Ver) -> R {
    let exp = (v.a < 64 && v.b < 64 && v.c < 64).then(|| [v.a, v.b, v.c].iter().map(|x| b64char(*x)).collect::<String>());
    let s = format!("{}.{}.{}", v.a, v.b, v.c);
    for (what, r) in [
        ("sem_ver_to_b64", call("sem_ver_to_b64", || Counter::sem_ver_to_b64(v.a, v.b, v.c))?),
        ("sem_ver_str_to_b64", call("sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s))?),
    ] {
        match (&exp, r) {
            (Some(e), Ok(g)) => ensure_eq!(g, *e, "{what}({s})"),
            (Some(_), Err(e)) => return Err(format!("{what}({s}): unexpected error {e}")),
            (None, Ok(g)) => return Err(format!("{what}({s}): gave {g}, expected an error")),
            (None, Err(_)) => {}
        }
    }
    okc(true, vec![if exp.is_some() { "in range" } else { "out of range" }])
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct VerText {
    s: String,
}
/// plain decimal, empty meaning zero; None = not a number at all; Some(None) = not specified (signs, leading zeros)
fn ver_text(c: &VerText) -> R {
    let parts: Vec<&str> = c.s.split('.').collect();
    let mut vals = vec![];
    let mut bad = parts.len() > 3;
    let mut unspecified = false;
    for p in &parts {
        if p.is_empty() {
            vals.push(0u8);
        } else if p.bytes().all(|b| b.is_ascii_digit()) {
            if p.len() > 1 && p.starts_with('0') {
                unspecified = true;
            }
            match p.parse::<u64>() {
                Ok(n) if n < 64 => vals.push(n as u8),
                _ => bad = true,
            }
        } else {
            let u = p.trim_start_matches(['+', '-']);
            if p.len() == u.len() + 1 && !u.is_empty() && u.bytes().all(|b| b.is_ascii_digit()) && (p.starts_with('+') || u.trim_start_matches('0').is_empty()) {
                unspecified = true;
            } else {
                bad = true;
            }
        }
    }
    let r = call("sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&c.s))?;
    if bad {
        ensure!(r.is_err(), "sem_ver_str_to_b64({:?}): gave {r:?}, expected an error", c.s);
        return okc(true, vec!["refused"]);
    }
    if unspecified {
        return okc(false, vec!["unspecified"]);
    }
    while vals.len() < 3 {
        vals.push(0);
    }
    let e: String = vals.iter().map(|x| b64char(*x)).collect();
    match r {
        Ok(g) => ensure_eq!(g, e, "sem_ver_str_to_b64({:?})", c.s),
        Err(x) => return Err(format!("sem_ver_str_to_b64({:?}): unexpected error {x}", c.s)),
    }
    okc(true, vec!["accepted"])
}
fn code_strat() -> BoxedStrategy<String> {
    prop_oneof![12 => (0..COUNTER.len()).prop_map(|i| COUNTER[i].0.to_string()), 1 => proptest::sample::select(all_codes()), 1 => junk_text()].boxed()
}
pub fn check() -> Check {
    Check {
        id: "C05",
        rule: "a case is a (code, count) pair through every construction route, a count text, one input to the parsers, or a version; nontrivial unless the input is empty or its outcome is not specified; distinct by the serialised case",
        assumptions: vec!["reference counter table in harness/src/model/cesr.rs; signed and zero-padded version parts and an empty count text are not specified"],
        subs: vec![
            each(
                "C05/all-small-counts",
                |_| COUNTER.iter().flat_map(|(c, _)| (0..=4098u32).map(move |count| Pair { code: c.to_string(), count })),
                pair,
            ),
            each(
                "C05/boundaries",
                |_| {
                    COUNTER.iter().flat_map(|(c, _)| {
                        (0..32u32)
                            .flat_map(|k| {
                                let p = 1u32 << k;
                                [p.wrapping_sub(2), p - 1, p, p.wrapping_add(1), !p, p | 1, p | 63]
                            })
                            .chain([u32::MAX, u32::MAX - 1])
                            .map(move |count| Pair { code: c.to_string(), count })
                    })
                },
                pair,
            ),
            prop("C05/random", 800000, 20000000, || (code_strat(), prop_oneof![index_like(), field(2), field(3), field(5)]).prop_map(|(code, count)| Pair { code, count }), pair),
            prop(
                "C05/count-text",
                1000000,
                20000000,
                || {
                    (
                        (0..COUNTER.len()).prop_map(|i| COUNTER[i].0.to_string()),
                        prop_oneof![4 => "[A-Za-z0-9_-]{1,7}", 1 => "A{0,14}[A-Za-z0-9_-]{1,5}", 1 => "[B-Za-z0-9_-][A-Za-z0-9_-]{4,11}", 1 => "[B-Z]A{5,14}[A-Za-z0-9_-]{1,2}", 1 => junk_text().prop_filter("empty", |s| !s.is_empty())],
                    )
                        .prop_map(|(code, b64)| CountText { code, b64 })
                },
                count_text,
            ),
            prop(
                "C05/text",
                1000000,
                20000000,
                || {
                    let codes = all_codes();
                    (counter(), muts(3)).prop_map(move |((c, n), m)| Text { t: apply(&counter_encode(&c, n).0, &m, &codes) })
                },
                text,
            ),
            prop("C05/junk", 800000, 20000000, || prop_oneof![junk_text(), "-[-0A-Z][A-Za-z0-9_-]{0,9}"].prop_map(|t| Text { t }), text),
            each(
                "C05/short-text",
                |_| {
                    let mut sym: Vec<String> = ALPHA.iter().map(|b| (*b as char).to_string()).collect();
                    sym.extend(["=", "+", "é", "€", "𝄞", " ", "\u{0}"].map(String::from));
                    let mut all = vec![String::new()];
                    for a in &sym {
                        all.push(a.clone());
                        all.push(format!("--AA{a}"));
                        all.push(format!("-0{a}"));
                        for b in &sym {
                            all.push(format!("{a}{b}"));
                            all.push(format!("{a}{b}A"));
                            all.push(format!("{a}{b}AB"));
                            all.push(format!("-A{a}{b}"));
                            all.push(format!("-{a}{b}BCDEFG"));
                            all.push(format!("--AA{a}A{b}C"));
                            all.push(format!("--A{a}{b}ABC"));
                            all.push(format!("-0VA{a}BC{b}"));
                        }
                    }
                    all.into_iter().map(|t| Text { t })
                },
                text,
            ),
            prop(
                "C05/bin",
                2000000,
                20000000,
                || prop_oneof![3 => (counter(), bmuts()).prop_map(|((c, n), m)| Bin { b: B(bapply(&counter_encode(&c, n).1, &m)) }), 1 => bytes(0..=9).prop_map(|b| Bin { b })],
                bin,
            ),
            each(
                "C05/short-bin",
                |_| {
                    (0..256u32)
                        .map(|a| Bin { b: B(vec![a as u8]) })
                        .chain((0..65536u32).map(|a| Bin { b: B(vec![(a >> 8) as u8, a as u8]) }))
                        .chain((0..65536u32).map(|a| Bin { b: B(vec![0xf8 | (a >> 14) as u8, (a >> 6) as u8, (a << 2) as u8]) }))
                        .chain((0..65536u32).map(|a| Bin { b: B(vec![0xfb, 0xe0 | (a >> 14) as u8, (a >> 6) as u8, (a << 2) as u8, 1, 2]) }))
                },
                bin,
            ),
            each(
                "C05/every-version",
                |_| (0..=66u8).flat_map(|a| (0..=66u8).flat_map(move |b| (0..=66u8).map(move |c| Ver { a, b, c }))),
                ver,
            ),
            prop("C05/version", 200000, 20000000, || any::<(u8, u8, u8)>().prop_map(|(a, b, c)| Ver { a, b, c }), ver),
            prop(
                "C05/version-text",
                800000,
                20000000,
                || {
                    let part = prop_oneof![4 => (0u32..70).prop_map(|n| n.to_string()), 1 => Just(String::new()), 1 => "[0-9]{1,4}", 1 => "[-+]?[0-9]{1,3}", 1 => "[0-9a-z +-]{1,4}", 1 => Just("64".to_string()), 1 => Just("256".to_string()), 1 => Just("128".to_string())];
                    prop_oneof![9 => proptest::collection::vec(part, 0..5).prop_map(|v| VerText { s: v.join(".") }), 1 => junk_text().prop_map(|s| VerText { s })]
                },
                ver_text,
            ),
        ],
        probes: vec![],
    }
}
