use super::c13::well_formed;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::model::thold::*;
use crate::{ensure, ensure_eq};
use cesride::data::Value;
use cesride::{Bext, Matter, Tholder};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;

fn same(th: &Tholder, t: &Th, what: &str) -> Result<(), String> {
    ensure_eq!(must("thold", || th.thold().to_json())?, compact(&t.value()), "{what}: normalized value");
    ensure_eq!(th.weighted(), matches!(t, Th::Weights(_)), "{what}: weighted");
    ensure_eq!(th.size() as u64, t.size(), "{what}: size");
    ensure_eq!(must("sith", || th.sith()?.to_json())?, compact(&t.expression()), "{what}: expression");
    ensure_eq!(must("json", || th.to_json())?, compact(&t.expression()), "{what}: JSON");
    let limen = must("limen", || th.limen())?;
    ensure_eq!(String::from_utf8_lossy(&limen), t.limen(), "{what}: compact encoding");
    let num = must("num", || th.num())?;
    match t {
        Th::Num(n) => {
            ensure_eq!(num.map(|n| n as u64), Some(*n), "{what}: number");
            ensure!(th.bexter().is_none(), "{what}: a number has no Base64 text");
            let x = th.number().ok_or("no number primitive")?;
            ensure_eq!(must("num", || x.num())?, *n as u128, "{what}: number primitive");
        }
        Th::Weights(_) => {
            ensure_eq!(num, None, "{what}: number");
            ensure!(th.number().is_none(), "{what}: weights have no number");
            let x = th.bexter().ok_or("no Base64 primitive")?;
            ensure_eq!(must("bext", || x.bext())?, t.bext().unwrap(), "{what}: Base64 text");
        }
    }
    Ok(())
}
fn reload(th: &Tholder, what: &str) -> Result<(), String> {
    let json = must("json", || th.to_json())?;
    let parsed: J = serde_json::from_str(&json).map_err(|e| format!("JSON of a threshold: {e}"))?;
    let mut all = vec![
        ("its normalized value", must("thold", || Tholder::new_with_thold(&th.thold()))?),
        ("its expression", must("sith", || Tholder::new_with_sith(&th.sith()?))?),
        ("its JSON, parsed", must("json", || Tholder::new_with_sith(&lib(&parsed)))?),
        ("its compact encoding", must("limen", || Tholder::new_with_limen(&th.limen()?))?),
        ("new(limen)", must("limen", || Tholder::new(None, Some(&th.limen()?), None))?),
        ("new(sith)", must("sith", || Tholder::new(None, None, Some(&th.sith()?)))?),
        ("new(thold)", must("thold", || Tholder::new(Some(&th.thold()), None, None))?),
    ];
    if th.weighted() {
        all.push(("its JSON text", must("json", || Tholder::new_with_sith(&Value::from(&json)))?));
        // the nested form of a single clause
        all.push(("its normalized value as expression", must("sith", || Tholder::new_with_sith(&th.thold()))?));
    }
    for (how, r) in all {
        ensure_eq!(&r, th, "{what} reloaded from {how}");
    }
    Ok(())
}
fn judge(says: Says, got: cesride::Result<Tholder>, what: &str) -> R {
    match (says, got) {
        (Says::Bad, Ok(th)) => Err(format!("{what} is malformed, yet gave {:?}", th.to_json())),
        (Says::Bad, Err(_)) => okc(true, vec!["refused"]),
        (Says::Open(_), Err(_)) => okc(false, vec!["left open"]),
        (Says::Open(None), Ok(th)) => Err(format!("{what} gave {:?}", th.to_json())),
        (Says::Is(t), Err(e)) => Err(format!("{what} means {}, but: {e}", compact(&t.expression()))),
        (Says::Open(Some(t)) | Says::Is(t), Ok(th)) => {
            same(&th, &t, what)?;
            reload(&th, what)?;
            okc(true, vec![if th.weighted() { "weighted" } else { "number" }])
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Route {
    Sith,
    Thold,
    /// the JSON text as the expression
    Text,
}
fn run(c: &(J, Route)) -> R {
    let (v, r) = c;
    match r {
        Route::Sith => judge(sith(v), call("sith", || Tholder::new_with_sith(&lib(v)))?, &format!("expression {v}")),
        Route::Thold => judge(thold(v), call("thold", || Tholder::new_with_thold(&lib(v)))?, &format!("value {v}")),
        Route::Text => {
            let t = compact(v);
            judge(sith(&J::String(t.clone())), call("sith", || Tholder::new_with_sith(&Value::from(&t)))?, &format!("expression text {t}"))
        }
    }
}
fn route() -> BoxedStrategy<Route> {
    prop_oneof![3 => Just(Route::Sith), 2 => Just(Route::Thold), 2 => Just(Route::Text)].boxed()
}
fn weight_text() -> BoxedStrategy<String> {
    let n = || prop_oneof![6 => (0u64..6).prop_map(|n| n.to_string()), 1 => any::<u64>().prop_map(|n| n.to_string()), 1 => Just(String::new()), 1 => prop_oneof![Just("00"), Just("01"), Just("+1"), Just("-1"), Just("-0"), Just("1.0"), Just(" 1"), Just("1e0"), Just("0x1"), Just("1_0"), Just("２"), Just("4294967297"), Just("2147483648"), Just("340282366920938463463374607431768211457")].prop_map(String::from)];
    prop_oneof![
        4 => prop_oneof![Just("1"), Just("0"), Just("1/1"), Just("1/2"), Just("2/4")].prop_map(String::from),
        3 => n(),
        4 => (n(), n()).prop_map(|(a, b)| format!("{a}/{b}")),
        1 => (n(), n(), n()).prop_map(|(a, b, c)| format!("{a}/{b}/{c}")),
        1 => prop_oneof![Just("0/0"), Just("1/0"), Just("/"), Just("1/"), Just("/1"), Just("0/x/y"), Just("1//1"), Just("3/2"), Just("-1/-1"), Just("-1/1"), Just("1/-1"), Just("1s2")].prop_map(String::from),
        1 => text(),
    ]
    .boxed()
}
pub fn odd() -> BoxedStrategy<J> {
    let w = prop_oneof![8 => weight_text().prop_map(J::String), 1 => scalar(), 1 => Just(J::Array(vec![]))].boxed();
    let clause = vec(w.clone(), 0..5).prop_map(J::Array).boxed();
    let hexy = prop_oneof!["[0-9a-fA-F]{1,8}", "[0-9a-f]{0,20}", "[0-9a-fx+_. -]{0,8}", "-?[0-9a-f]{1,4}", "\\+?[0-9A-F]{1,4}"];
    prop_oneof![
        3 => clause.clone(),
        3 => vec(prop_oneof![6 => clause, 1 => w], 0..4).prop_map(J::Array),
        2 => hexy.prop_map(J::String),
        1 => any::<i64>().prop_map(J::from),
        1 => prop_oneof![Just(-1i64), Just(0), Just(u32::MAX as i64), Just(u32::MAX as i64 + 1), Just(i64::MAX), Just(i64::MIN)].prop_map(J::from),
        1 => scalar(),
        1 => json(),
        1 => prop_oneof![Just("["), Just("[]"), Just("[[]]"), Just("[\"1\""), Just("[1]"), Just(" [\"1\"]"), Just("[\"1\"] "), Just("[\"1\"]x"), Just("{}"), Just("\"1\""), Just("[\"1/2\",\"1/2\"]"), Just("é"), Just("[é")].prop_map(J::from),
    ]
    .boxed()
}
/// compact encodings: of numbers, of weights, of other primitives, and mutated
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Limen {
    base: B,
    muts: Vec<(u8, usize, u8)>,
}
fn limen(c: &Limen) -> R {
    let b = bapply(&c.base.0, &c.muts);
    let got = call("limen", || Tholder::new_with_limen(&b))?;
    let what = format!("compact encoding {:?}", String::from_utf8_lossy(&b));
    let says = match std::str::from_utf8(&b).ok().and_then(|t| matter_parse(t.as_bytes())) {
        None => Says::Bad,
        Some(p) => match p.code.as_str() {
            "M" | "0H" | "N" | "0A" => {
                let mut n: u128 = 0;
                for x in &p.raw {
                    n = n << 8 | *x as u128;
                }
                if n <= u32::MAX as u128 {
                    // other than the smallest code: taken for its value, or refused
                    let t = Th::Num(n as u64);
                    if p.code == number(n).code { Says::Is(t) } else { Says::Open(Some(t)) }
                } else if n <= u64::MAX as u128 {
                    Says::Open(Some(Th::Num(n as u64)))
                } else {
                    Says::Open(None)
                }
            }
            "4A" | "5A" | "6A" | "7AAA" | "8AAA" | "9AAA" => {
                let t = bext_text(&p);
                if t.contains(|c: char| !(c.is_ascii_digit() || "sca".contains(c))) {
                    Says::Bad
                } else {
                    let v: Vec<J> = t.split('a').map(|c| J::Array(c.split('c').map(|w| J::String(w.replace('s', "/"))).collect())).collect();
                    clauses(&v)
                }
            }
            _ => Says::Bad,
        },
    };
    let bad = says == Says::Bad;
    let o = judge(says, got, &what)?;
    okc(o.nontrivial, vec![if bad { "refused".to_string() } else { o.classes.first().cloned().unwrap_or_default() }])
}
fn limens() -> BoxedStrategy<Limen> {
    let text = prop_oneof![
        3 => "[01][sca][0-9][sca0-9]{0,12}".prop_map(|s| s),
        2 => "[0-9sca]{1,16}",
        1 => "[A-Za-z0-9_-]{1,12}",
        1 => "1(s1)?(c[01]s[0-9]{1,11}){1,5}(a1){0,3}",
    ];
    let base = prop_oneof![
        4 => well_formed().prop_map(|v| match sith(&v) { Says::Is(t) => t.limen(), _ => unreachable!() }),
        3 => text.prop_map(|t| bext(&t).encode().0),
        2 => (any::<u128>(), 0u32..128).prop_map(|(n, s)| number(n >> s).encode().0),
        1 => (bytes_n(16), 0usize..4).prop_map(|(b, i)| { let (c, n) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][i]; MPrim { code: c.into(), size: 0, raw: b.0[..n].to_vec() }.encode().0 }),
        1 => small_mprim().prop_map(|p| p.encode().0),
        1 => junk_text(),
    ];
    (base, prop_oneof![3 => Just(vec![]), 1 => bmuts()]).prop_map(|(b, muts)| Limen { base: B(b.into_bytes()), muts }).boxed()
}
pub fn check() -> Check {
    Check {
        id: "C14",
        rule: "an expression whose meaning the reference rule decides: loaded, compared in every view and reloaded from each of them, or refused",
        assumptions: vec![
            "numeric thresholds above 32 bits may be refused (the size accessor is 32 bits wide), but are never misread",
            "weights spelled with a sign or leading zeros may be refused or taken for their value",
            "forms of the expression that are not the normalized value may be refused when given as the normalized value",
        ],
        subs: vec![
            prop("well-formed expressions", 200000, 3000000, || (well_formed(), route()), run),
            prop("arbitrary expressions", 1000000, 20000000, || (odd(), route()), run),
            prop("compact encodings", 400000, 7000000, limens, limen),
        ],
        probes: vec![],
    }
}
