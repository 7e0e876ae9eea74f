//! JSON documents: generators, the reference SAID computation and conversions.
use super::c10::digest;
use crate::engine::*;
use crate::model::cesr::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde_json::{Map, Value as J};

/// floats that every decimal reader agrees on: the digits and the power of ten are both exact doubles
pub fn float() -> BoxedStrategy<J> {
    let wide = (-99_999_999_999_999i64..=99_999_999_999_999, -20i32..1);
    let short = (-999i64..=999, -20i32..20);
    prop_oneof![wide, short]
        .prop_map(|(m, e)| {
            let x: f64 = format!("{m}e{e}").parse().unwrap();
            J::from(x)
        })
        .boxed()
}
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z0-9_-]{0,10}",
        2 => any::<String>(),
        1 => "[\u{0}-\u{1f}\"\\\\/ \u{7f}é€𝄞]{0,8}",
        1 => Just("KERI10JSON000000_".to_string()),
        1 => "[a\u{2028}\u{2029}\u{feff}\u{fffd}\u{ffff}\u{e000}\u{d7ff}\u{80}\u{a0}\u{ad}\u{10ffff}\u{301}]{1,4}",
        1 => prop_oneof![Just("null"), Just("true"), Just("0"), Just("[]"), Just("{}"), Just("#"), Just("")].prop_map(String::from),
    ]
    .boxed()
}
pub fn scalar() -> BoxedStrategy<J> {
    prop_oneof![
        1 => Just(J::Null),
        1 => any::<bool>().prop_map(J::Bool),
        2 => (-5i64..300).prop_map(J::from),
        1 => any::<i64>().prop_map(J::from),
        1 => prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(1i64 << 53), Just(u32::MAX as i64 + 1)].prop_map(J::from),
        1 => float(),
        6 => text().prop_map(J::String),
    ]
    .boxed()
}
pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        5 => prop_oneof![Just("a"), Just("b"), Just("d"), Just("e"), Just("i"), Just("s"), Just("t"), Just("k"), Just("n"), Just("id"), Just("$id"), Just("x"), Just("A"), Just("p")].prop_map(String::from),
        3 => "[a-z]{1,6}",
        1 => text(),
        1 => "[0-9]{1,2}",
    ]
    .boxed()
}
pub fn object_of(v: BoxedStrategy<J>, max: usize) -> BoxedStrategy<J> {
    vec((key(), v), 0..=max).prop_map(|kv| J::Object(kv.into_iter().collect())).boxed()
}
pub fn json() -> BoxedStrategy<J> {
    scalar()
        .prop_recursive(4, 24, 5, |inner| {
            prop_oneof![
                1 => vec(inner.clone(), 0..5).prop_map(J::Array),
                1 => object_of(inner.boxed(), 5),
            ]
        })
        .boxed()
}
/// A field list without "v".
pub fn fields(max: usize) -> BoxedStrategy<Map<String, J>> {
    let v = prop_oneof![3 => scalar(), 2 => json()].boxed();
    object_of(v, max)
        .prop_map(|o| match o {
            J::Object(mut m) => {
                m.shift_remove("v");
                m
            }
            _ => unreachable!(),
        })
        .boxed()
}
/// now and then a value much longer than the others: text, or a list, with a size around what shortcuts would pick
pub fn long() -> BoxedStrategy<Option<J>> {
    let n = prop_oneof![2 => 200usize..5000, 2 => 4080usize..4110, 2 => 65300usize..65600, 1 => 100000usize..300000];
    prop_oneof![
        250 => Just(None),
        3 => (n.clone(), any::<u8>()).prop_map(|(n, x)| Some(J::String((0..n).map(|i| (b'a' + (i as u8).wrapping_mul(x | 1) % 26) as char).collect()))),
        1 => (n, scalar()).prop_map(|(n, x)| Some(J::Array(vec![x; n / 8]))),
    ]
    .boxed()
}
pub fn compact(v: &J) -> String {
    serde_json::to_string(v).unwrap()
}
pub fn compact_map(m: &Map<String, J>) -> String {
    serde_json::to_string(m).unwrap()
}
pub fn lib(v: &J) -> cesride::data::Value {
    cesride::data::Value::from(v)
}
pub fn libm(m: &Map<String, J>) -> cesride::data::Value {
    lib(&J::Object(m.clone()))
}
/// inserts a field at a position
pub fn insert_at(m: &Map<String, J>, at: usize, k: &str, v: J) -> Map<String, J> {
    let mut kv: Vec<(String, J)> = m.iter().filter(|(x, _)| *x != k).map(|(k, v)| (k.clone(), v.clone())).collect();
    let at = at.min(kv.len());
    kv.insert(at, (k.to_string(), v));
    kv.into_iter().collect()
}

#[derive(Debug, Clone, PartialEq)]
pub struct Ver {
    pub ident: String,
    pub major: u8,
    pub minor: u8,
    pub kind: String,
    pub size: u32,
}
pub fn ver_text(v: &Ver) -> String {
    format!("{}{:x}{:x}{}{:06x}_", v.ident, v.major, v.minor, v.kind, v.size)
}
/// the fixed grammar, at the start of the bytes
pub fn ver_at(b: &[u8]) -> Option<Ver> {
    if b.len() < 17 {
        return None;
    }
    let up = |r: std::ops::Range<usize>| -> Option<String> {
        b[r.clone()].iter().all(|c| c.is_ascii_uppercase()).then(|| String::from_utf8(b[r].to_vec()).unwrap())
    };
    let hexv = |r: std::ops::Range<usize>| -> Option<u32> {
        let mut n = 0;
        for c in &b[r] {
            n = n * 16
                + match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    _ => return None,
                } as u32;
        }
        Some(n)
    };
    if b[16] != b'_' {
        return None;
    }
    Some(Ver { ident: up(0..4)?, major: hexv(4..5)? as u8, minor: hexv(5..6)? as u8, kind: up(6..10)?, size: hexv(10..16)? })
}
pub fn parse_ver(s: &str) -> Option<Ver> {
    let v = ver_at(s.as_bytes())?;
    (s.len() == 17 && (v.ident == "KERI" || v.ident == "ACDC") && v.kind == "JSON").then_some(v)
}
/// Sizes a document: the document with the true size, and its serialization. None when the
/// version string is missing, malformed, of another version, or not near the start.
pub fn size_doc(m: &Map<String, J>) -> Option<(Map<String, J>, String)> {
    let v = parse_ver(m.get("v")?.as_str()?)?;
    if (v.major, v.minor) != (1, 0) {
        return None;
    }
    let n = compact_map(m).len();
    if n >= 1 << 24 {
        return None;
    }
    let mut out = m.clone();
    let t = ver_text(&Ver { size: n as u32, ..v });
    out.insert("v".into(), J::String(t.clone()));
    let s = compact_map(&out);
    // the first version string of the serialization states the document's size
    let first = (0..13.min(s.len())).find(|i| ver_at(&s.as_bytes()[*i..]).is_some())?;
    (s.as_bytes()[first..first + 17] == *t.as_bytes()).then_some((out, s))
}
pub fn said_len(code: &str) -> usize {
    mcode(code).unwrap().fs().unwrap()
}
pub fn qualify(code: &str, raw: &[u8]) -> String {
    MPrim { code: code.into(), size: 0, raw: raw.to_vec() }.encode().0
}
/// The identifier of a document and the document filled in.
pub fn said_model(m: &Map<String, J>, code: &str, label: &str, ignore: &[String]) -> Option<(String, Map<String, J>)> {
    let mut d = m.clone();
    d.insert(label.into(), J::String("#".repeat(said_len(code))));
    if d.contains_key("v") {
        d = size_doc(&d)?.0;
    }
    let mut cut = d.clone();
    for k in ignore {
        cut.shift_remove(k);
    }
    let said = qualify(code, &digest(code, compact_map(&cut).as_bytes())?);
    d.insert(label.into(), J::String(said.clone()));
    Some((said, d))
}
pub fn same_doc(got: &cesride::data::Value, want: &Map<String, J>, what: &str) -> Result<(), String> {
    let g = got.to_json().map_err(|e| e.to_string())?;
    let w = compact_map(want);
    if g != w {
        return Err(format!("{what}: got {g}, expected {w}"));
    }
    Ok(())
}
#[allow(unused)]
pub fn b(s: &str) -> B {
    B(s.as_bytes().to_vec())
}
