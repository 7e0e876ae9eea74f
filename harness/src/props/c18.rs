use super::docs::*;
use super::common::call;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use cesride::dat;
use cesride::data::Value;
use indexmap::IndexMap;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as J};
use std::collections::HashMap;

// ---- text forms ----------------------------------------------------------------------------
/// Renders a document as JSON text with free choices of white space, escapes and number forms.
struct Pen<'a> {
    choices: &'a [u8],
    at: usize,
    out: String,
}
impl Pen<'_> {
    fn pick(&mut self) -> u8 {
        if self.choices.is_empty() {
            return 0;
        }
        let c = self.choices[self.at % self.choices.len()];
        self.at += 1;
        c
    }
    fn space(&mut self) {
        let s = ["", "", "", " ", "\n", "\t", "\r\n  ", "   "][self.pick() as usize % 8];
        self.out.push_str(s);
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            let how = self.pick() % 6;
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '/' if how < 2 => Some("\\/"),
                _ => None,
            };
            if how == 5 || ((c as u32) < 0x20 && short.is_none()) {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if how % 2 == 0 {
                        self.out.push_str(&format!("\\u{u:04x}"));
                    } else {
                        self.out.push_str(&format!("\\u{u:04X}"));
                    }
                }
            } else if let Some(x) = short {
                self.out.push_str(x);
            } else {
                self.out.push(c);
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, v: &J) {
        self.space();
        match v {
            J::String(s) => self.string(s),
            J::Array(a) => {
                self.out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.value(x);
                }
                self.space();
                self.out.push(']');
            }
            J::Object(o) => {
                self.out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.space();
                    self.string(k);
                    self.space();
                    self.out.push(':');
                    self.value(x);
                }
                self.space();
                self.out.push('}');
            }
            J::Number(n) if n.is_f64() => {
                let f = n.as_f64().unwrap();
                let s = match self.pick() % 4 {
                    0 => format!("{f:e}"),
                    1 => format!("{f:E}"),
                    _ => n.to_string(),
                };
                // an exponent form keeps a float a float only with a point or an exponent: e0 has both
                self.out.push_str(&s);
            }
            _ => self.out.push_str(&v.to_string()),
        }
        self.space();
    }
}
/// The compact form, written without the serializer.
fn plain(v: &J, out: &mut String) {
    fn s(t: &str, out: &mut String) {
        out.push('"');
        for c in t.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push_str("\\t"),
                '\u{8}' => out.push_str("\\b"),
                '\u{c}' => out.push_str("\\f"),
                c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                c => out.push(c),
            }
        }
        out.push('"');
    }
    match v {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Number(n) => match n.as_i64() {
            Some(i) => out.push_str(&format!("{i}")),
            None => out.push_str(&n.to_string()),
        },
        J::String(t) => s(t, out),
        J::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                plain(x, out);
            }
            out.push(']');
        }
        J::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                s(k, out);
                out.push(':');
                plain(x, out);
            }
            out.push('}');
        }
    }
}
/// every node's accessors
fn walk(v: &Value, j: &J, at: &str) -> Result<usize, String> {
    let e = |x: cesride::Result<String>| x.ok();
    ensure_eq!(v.to_bool().ok(), j.as_bool(), "{at}: to_bool");
    ensure_eq!(e(v.to_string()), j.as_str().map(String::from), "{at}: to_string");
    ensure_eq!(v.to_i64().ok(), j.as_i64(), "{at}: to_i64");
    let f = if j.as_i64().is_none() && j.is_number() { j.as_f64().map(f64::to_bits) } else { None };
    ensure_eq!(v.to_f64().ok().map(f64::to_bits), f, "{at}: to_f64");
    ensure_eq!(v.to_vec().ok().map(|x| x.len()), j.as_array().map(|x| x.len()), "{at}: to_vec");
    ensure_eq!(
        v.to_map().ok().map(|x| x.keys().cloned().collect::<Vec<_>>()),
        j.as_object().map(|x| x.keys().cloned().collect::<Vec<_>>()),
        "{at}: to_map"
    );
    ensure_eq!(matches!(v, Value::Null), j.is_null(), "{at}: null");
    ensure_eq!(v.to_json().map_err(|e| e.to_string())?, compact(j), "{at}: to_json");
    ensure_eq!(format!("{v}"), compact(j), "{at}: display");
    let kind_ok = |ok: bool, want: bool, what: &str| -> Result<(), String> {
        ensure!(ok == want, "{at}: conversion to {what} answers {ok}, expected {want} for {}", compact(j));
        Ok(())
    };
    match (String::try_from(v), j.as_str()) {
        (Ok(a), Some(b)) => ensure_eq!(a, b, "{at}: String::try_from"),
        (r, w) => kind_ok(r.is_ok(), w.is_some(), "String")?,
    }
    match (bool::try_from(v), j.as_bool()) {
        (Ok(a), Some(b)) => ensure_eq!(a, b, "{at}: bool::try_from"),
        (r, w) => kind_ok(r.is_ok(), w.is_some(), "bool")?,
    }
    match (i64::try_from(v), j.as_i64()) {
        (Ok(a), Some(b)) => ensure_eq!(a, b, "{at}: i64::try_from"),
        (r, _) => kind_ok(r.is_ok(), j.is_number(), "i64")?,
    }
    match (f64::try_from(v), f) {
        (Ok(a), Some(b)) => ensure_eq!(a.to_bits(), b, "{at}: f64::try_from"),
        (r, _) => kind_ok(r.is_ok(), j.is_number(), "f64")?,
    }
    match (Vec::<Value>::try_from(v), v.to_vec()) {
        (Ok(a), Ok(b)) => ensure_eq!(a, b, "{at}: Vec::try_from"),
        (r, _) => kind_ok(r.is_ok(), j.is_array(), "Vec")?,
    }
    match (IndexMap::<String, Value>::try_from(v), v.to_map()) {
        (Ok(a), Ok(b)) => ensure_eq!(Value::from(&a).to_json().ok(), Value::from(&b).to_json().ok(), "{at}: IndexMap::try_from"),
        (r, _) => kind_ok(r.is_ok(), j.is_object(), "IndexMap")?,
    }
    let mut n = 1;
    match j {
        J::Array(a) => {
            let items = v.to_vec().map_err(|e| e.to_string())?;
            ensure_eq!(Value::from(items.as_slice()), *v, "{at}: rebuilt from its items");
            for (i, x) in a.iter().enumerate() {
                ensure_eq!(items[i], v[i], "{at}[{i}]: to_vec and index");
                n += walk(&v[i], x, &format!("{at}[{i}]"))?;
            }
        }
        J::Object(o) => {
            let m = v.to_map().map_err(|e| e.to_string())?;
            ensure_eq!(Value::from(&m).to_json().map_err(|e| e.to_string())?, compact(j), "{at}: rebuilt from its fields");
            for (i, (k, x)) in o.iter().enumerate() {
                ensure_eq!(v[i], v[k.as_str()], "{at}: position {i} and label {k:?}");
                ensure_eq!(m[k.as_str()], v[k.as_str()], "{at}: to_map and label {k:?}");
                n += walk(&v[k.as_str()], x, &format!("{at}.{k}"))?;
            }
        }
        _ => {}
    }
    Ok(n)
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    doc: J,
    choices: Vec<u8>,
}
fn text_case(c: &Text) -> R {
    let mut pen = Pen { choices: &c.choices, at: 0, out: String::new() };
    pen.value(&c.doc);
    let text = pen.out;
    let parsed: J = serde_json::from_str(&text).map_err(|e| format!("the generated text is no JSON: {e}: {text}"))?;
    ensure_eq!(parsed, c.doc, "reference parser on the generated text");
    let v = Value::from(&parsed);
    let n = walk(&v, &c.doc, "$")?;
    let json = v.to_json().map_err(|e| e.to_string())?;
    let mut own = String::new();
    plain(&c.doc, &mut own);
    ensure_eq!(json, own, "compact form");
    let again: J = serde_json::from_str(&json).map_err(|e| e.to_string())?;
    let w = Value::from(&again);
    ensure_eq!(w, v, "parsed again");
    ensure_eq!(w.to_json().map_err(|e| e.to_string())?, json, "serialized again");
    ensure_eq!(v.clone(), v, "clone");
    okc(n > 1, vec![format!("{} nodes", match n { 1 => "1", 2..=5 => "2-5", 6..=20 => "6-20", _ => ">20" })])
}
fn double(bits: &u64) -> R {
    let x = f64::from_bits(*bits);
    if !x.is_finite() {
        // no JSON for it: nothing to agree with, but no panic either
        let _ = call("to_json", || Value::from(x).to_json())?;
        return ok(false);
    }
    let j = json!({ "x": x, "l": [x] });
    let v = Value::from(&j);
    walk(&v, &j, "$")?;
    ensure_eq!(Value::from(x).to_json().map_err(|e| e.to_string())?, compact(&json!(x)), "a value made from a double");
    ensure_eq!(Value::from(x), v["x"], "a value made from a double");
    ensure_eq!(Value::from(x).to_f64().map_err(|e| e.to_string())?.to_bits(), *bits, "a value made from a double");
    okc(true, vec![format!("2^{}..", (x.abs().log2() / 128.0).floor() * 128.0)])
}
fn deep() -> BoxedStrategy<J> {
    (vec(any::<u8>(), 1..120), scalar())
        .prop_map(|(b, s)| {
            let mut v = s;
            for x in b {
                v = match x % 4 {
                    0 => json!([v]),
                    1 => json!({ "a": v }),
                    2 => json!([0, v, null]),
                    _ => json!({"b": [], "a": v, "A": {}}),
                }
            }
            v
        })
        .boxed()
}
fn wide() -> BoxedStrategy<J> {
    prop_oneof![
        vec(scalar(), 20..200).prop_map(J::Array),
        vec(("[a-z]{1,3}", scalar()), 20..200).prop_map(|kv| J::Object(kv.into_iter().collect())),
    ]
    .boxed()
}

// ---- editing histories -----------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
    /// walk by the choices to a node and replace it
    Set(Vec<usize>, J),
    /// walk to an object and set a label, new or not
    Label(Vec<usize>, String, J),
    /// replace by the value at another place
    Copy(Vec<usize>, Vec<usize>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hist {
    doc: J,
    edits: Vec<Edit>,
}
enum Step {
    Pos(usize),
    Key(String),
}
/// resolves choices to a path in the reference document
fn steps(j: &J, choices: &[usize]) -> Vec<Step> {
    let mut at = j;
    let mut out = vec![];
    for c in choices {
        match at {
            J::Array(a) if !a.is_empty() => {
                out.push(Step::Pos(c % a.len()));
                at = &a[c % a.len()];
            }
            J::Object(o) if !o.is_empty() => {
                let (i, (k, x)) = o.iter().enumerate().nth(c % o.len()).unwrap();
                out.push(if c / o.len() % 2 == 0 { Step::Key(k.clone()) } else { Step::Pos(i) });
                at = x;
            }
            _ => break,
        }
    }
    out
}
fn jat<'a>(j: &'a mut J, p: &[Step]) -> &'a mut J {
    p.iter().fold(j, |j, s| match (s, j) {
        (Step::Pos(i), J::Array(a)) => &mut a[*i],
        (Step::Pos(i), J::Object(o)) => o.iter_mut().nth(*i).unwrap().1,
        (Step::Key(k), J::Object(o)) => o.get_mut(k).unwrap(),
        _ => unreachable!(),
    })
}
fn vat<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::Pos(i) => &mut v[*i],
        Step::Key(k) => &mut v[k.as_str()],
    })
}
fn hist(c: &Hist) -> R {
    let mut j = c.doc.clone();
    let mut v = lib(&j);
    let mut classes = vec![];
    for e in &c.edits {
        let before = v.clone();
        let text = compact(&j);
        match e {
            Edit::Set(p, x) => {
                let p = steps(&j, p);
                *jat(&mut j, &p) = x.clone();
                *vat(&mut v, &p) = lib(x);
                classes.push("set");
            }
            Edit::Label(p, k, x) => {
                let p = steps(&j, p);
                if let J::Object(o) = jat(&mut j, &p) {
                    classes.push(if o.contains_key(k) { "label set" } else { "label added" });
                    o.insert(k.clone(), x.clone());
                    vat(&mut v, &p)[k.as_str()] = lib(x);
                }
            }
            Edit::Copy(p, q) => {
                let (p, q) = (steps(&j, p), steps(&j, q));
                let x = jat(&mut j, &p).clone();
                *jat(&mut j, &q) = x;
                let x = vat(&mut v, &p).clone();
                *vat(&mut v, &q) = x;
                classes.push("copied");
            }
        }
        ensure_eq!(before.to_json().map_err(|e| e.to_string())?, text, "a clone taken before the edit");
        ensure_eq!(v.to_json().map_err(|e| e.to_string())?, compact(&j), "after {e:?}");
        // equality of values is equality of content
        ensure_eq!(before == v, serde_json::from_str::<J>(&text).unwrap() == j, "equality of {text} and {}", compact(&j));
    }
    walk(&v, &j, "$")?;
    okc(c.edits.len() > 1, classes)
}
fn edit() -> BoxedStrategy<Edit> {
    let path = || vec(0usize..40, 0..5);
    prop_oneof![
        2 => (path(), prop_oneof![scalar(), json()]).prop_map(|(p, x)| Edit::Set(p, x)),
        2 => (path(), key(), prop_oneof![scalar(), json()]).prop_map(|(p, k, x)| Edit::Label(p, k, x)),
        1 => (path(), path()).prop_map(|(p, q)| Edit::Copy(p, q)),
    ]
    .boxed()
}

// ---- conversions and literals -----------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
    i: i64,
    f: J,
    f32: u32,
    s: String,
    k: String,
    b: bool,
    items: Vec<J>,
    fields: Map<String, J>,
}
fn one(v: Value, j: J, what: &str) -> Result<(), String> {
    ensure_eq!(v.to_json().map_err(|e| e.to_string())?, compact(&j), "{what}");
    walk(&v, &j, what).map(|_| ())
}
fn conv(c: &Conv) -> R {
    let i = c.i;
    one(Value::from(i), json!(i), "i64")?;
    one(Value::from(i as i32), json!(i as i32), "i32")?;
    one(Value::from(i as i16), json!(i as i16), "i16")?;
    one(Value::from(i as i8), json!(i as i8), "i8")?;
    one(Value::from(i as u32), json!(i as u32), "u32")?;
    one(Value::from(i as u16), json!(i as u16), "u16")?;
    one(Value::from(i as u8), json!(i as u8), "u8")?;
    let f = c.f.as_f64().unwrap();
    one(Value::from(f), json!(f), "f64")?;
    let g = f32::from_bits(c.f32);
    if g.is_finite() {
        one(Value::from(g), json!(g as f64), "f32")?;
    }
    one(Value::from(c.s.as_str()), json!(c.s), "&str")?;
    one(Value::from(&c.s), json!(c.s), "&String")?;
    let items: Vec<Value> = c.items.iter().map(lib).collect();
    one(Value::from(items.as_slice()), J::Array(c.items.clone()), "slice")?;
    let map: IndexMap<String, Value> = c.fields.iter().map(|(k, v)| (k.clone(), lib(v))).collect();
    one(Value::from(&map), J::Object(c.fields.clone()), "IndexMap")?;
    let hash: HashMap<String, Value> = c.fields.iter().map(|(k, v)| (k.clone(), lib(v))).collect();
    let h = Value::from(&hash);
    ensure_eq!(h, Value::from(&map), "HashMap");
    ensure_eq!(h.to_map().map_err(|e| e.to_string())?.len(), c.fields.len(), "HashMap length");
    // literals
    let (s, k, b, n) = (c.s.as_str(), c.k.as_str(), c.b, c.i);
    let first = || c.items.first().cloned().unwrap_or(J::Null);
    let x = first();
    let xv = lib(&x);
    let all = || items.as_slice();
    let fl = J::Object(c.fields.clone());
    // a boolean expression has no conversion; literals true and false do
    let (yes, no) = (dat!(true), dat!(false));
    ensure_eq!(yes, lib(&json!(true)), "true");
    ensure_eq!(no, lib(&json!(false)), "false");
    one(dat!(null), json!(null), "null")?;
    one(dat!([]), json!([]), "[]")?;
    one(dat!({}), json!({}), "{{}}")?;
    one(dat!(n), json!(n), "expression")?;
    one(dat!([n, s, f, null, true, false, [], {}, all()]), json!([n, s, f, null, true, false, [], {}, c.items]), "list literal")?;
    one(dat!([[n,], [[s], [f, [null,],],], n + 0,]), json!([[n,], [[s], [f, [null,],],], n + 0,]), "nested lists")?;
    one(dat!([null, true]), json!([null, true]), "null first")?;
    one(dat!([{ "a": n }, { "a": n, "b": s }, n]), json!([{ "a": n }, { "a": n, "b": s }, n]), "objects in a list")?;
    one(dat!([[true, false], {"x": null}, [null], s]), json!([[true, false], {"x": null}, [null], s]), "mixed list")?;
    one(dat!({"z": n, "a": s, "m": f, "b": null, "A": true, "0": false}), json!({"z": n, "a": s, "m": f, "b": null, "A": true, "0": false}), "object literal")?;
    one(
        dat!({"q": {"z": [n, {"y": {}}], "a": []}, "p": all(), "o": &map, "n": &s.to_string(),}),
        json!({"q": {"z": [n, {"y": {}}], "a": []}, "p": c.items, "o": fl, "n": s,}),
        "nested object literal",
    )?;
    one(dat!({k: n}), json!({k: n}), "label expression")?;
    one(dat!({(k): s, "other": [true,]}), json!({(k): s, "other": [true,]}), "parenthesized label")?;
    one(dat!({"v": null, k: true, "a": false, (format!("{k}.")): {}}), json!({"v": null, k: true, "a": false, (format!("{k}.")): {}}), "labels computed")?;
    one(dat!({"a": n, "b": s, "a": f}), json!({"a": n, "b": s, "a": f}), "a label given twice")?;
    let w = dat!({"a": [s, n], "d": {"e": f}, "t": true});
    ensure_eq!(w["a"], w[0], "literal: label and position");
    ensure_eq!(w["a"][0], dat!(s), "literal: first item");
    ensure_eq!(w["a"][1], dat!(n), "literal: second item");
    ensure_eq!(w["d"]["e"], w[1][0], "literal: inner field");
    ensure_eq!(w["d"]["e"].to_f64().map_err(|e| e.to_string())?.to_bits(), f.to_bits(), "literal: inner field value");
    ensure!(w["t"].to_bool().map_err(|e| e.to_string())?, "literal: true");
    let mut y = dat!({"k": b as u8});
    y["k"] = xv.clone();
    ensure_eq!(y["k"], xv, "assigned");
    ok(true)
}

// ---- equality ---------------------------------------------------------------------------------
/// Values of different kinds are different.
fn pair(c: &(J, J)) -> R {
    let (a, b) = (lib(&c.0), lib(&c.1));
    ensure_eq!(a == b, c.0 == c.1, "equality of {} and {}", compact(&c.0), compact(&c.1));
    ensure_eq!(b == a, c.0 == c.1, "equality of {} and {}", compact(&c.1), compact(&c.0));
    ok(c.0 != c.1)
}
fn close(j: J) -> BoxedStrategy<(J, J)> {
    let text = compact(&j);
    let mut alts = vec![J::String(text), J::Null, json!(0), json!(0.0), json!(""), json!(false), json!([]), json!({}), json!([j.clone()])];
    if let Some(i) = j.as_i64() {
        alts.push(json!(i as f64));
        alts.push(json!(i.wrapping_add(1)));
    }
    if let Some(f) = j.as_f64() {
        alts.push(json!(f as i64));
    }
    if let J::Array(a) = &j {
        let mut r = a.clone();
        r.reverse();
        alts.push(J::Array(r));
        alts.push(J::Array(a.iter().skip(1).cloned().collect()));
    }
    if let J::Object(o) = &j {
        alts.push(J::Object(o.iter().skip(1).map(|(k, v)| (k.clone(), v.clone())).collect()));
        let ks: Vec<_> = o.keys().rev().cloned().collect();
        alts.push(J::Object(ks.into_iter().zip(o.values().cloned()).collect()));
        alts.push(J::Object(o.iter().rev().map(|(k, v)| (k.clone(), v.clone())).collect()));
    }
    (0..alts.len()).prop_map(move |i| (j.clone(), alts[i].clone())).boxed()
}

/// The bundled parser (serde_json without float_roundtrip) reads this double as its neighbour.
pub const ODD_FLOAT: f64 = 1.0715660391465826e-75;
pub fn float_probe() -> Result<(), String> {
    let doc = lib(&json!({"v": "KERI10JSON000000_", "t": "ixn", "d": "", "i": "", "s": "0", "a": [ODD_FLOAT]}));
    let (_, doc) = cesride::Saider::saidify(&doc, None, None, None, None).map_err(|e| e.to_string())?;
    let a = cesride::Serder::new_with_ked(&doc, None, None).map_err(|e| e.to_string())?;
    let b = cesride::Serder::new_with_raw(&cesride::Sadder::raw(&a)).map_err(|e| format!("the serialized event is refused: {e}"))?;
    ensure_eq!(cesride::Sadder::ked(&b), doc, "document after a round trip");
    Ok(())
}

pub fn check() -> Check {
    let doc = || prop_oneof![6 => json(), 3 => fields(8).prop_map(J::Object), 1 => deep(), 1 => wide()];
    Check {
        id: "C18",
        rule: "a document of more than one node, a history of more than one edit, every conversion case, or two different values compared",
        assumptions: vec![
            "integers outside the signed 64-bit range and non-finite floats have no exact document value and are only required not to panic",
            "i64/f64::try_from convert between the two number kinds on purpose (pinned by the repository's own test); the typed accessors to_i64/to_f64 do not",
            "floats are restricted to those with at most 15 significant digits; for others see the recorded finding float-reparse",
        ],
        subs: vec![
            prop("text, accessors, order", 40000, 2000000, move || (doc(), vec(any::<u8>(), 0..40)).prop_map(|(doc, choices)| Text { doc, choices }), text_case),
            prop("editing histories", 100000, 3000000, || (prop_oneof![json(), fields(6).prop_map(J::Object)], vec(edit(), 0..10)).prop_map(|(doc, edits)| Hist { doc, edits }), hist),
            prop(
                "conversions and literals",
                40000,
                800000,
                || {
                    (prop_oneof![any::<i64>(), -300i64..300], float(), any::<u32>(), text(), text(), any::<bool>(), vec(json(), 0..4), fields(5))
                        .prop_map(|(i, f, f32, s, k, b, items, fields)| Conv { i, f, f32, s, k, b, items, fields })
                },
                conv,
            ),
            // every character of Unicode, as a name and in a value
            each(
                "every character",
                |env| {
                    let chars: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
                    let step = if env.thorough { 1 } else { 8 };
                    let blocks = chars.len() / 16;
                    // (quick: all of the first planes' special areas, and one block in eight of the rest)
                    (0..blocks).filter(move |b| b % step == 0 || *b < 1024 || (0xd700 / 16..0x10000 / 16).contains(b)).map(move |b| {
                        let c = &chars[b * 16..b * 16 + 16];
                        let all: String = c.iter().collect();
                        let mut m: serde_json::Map<String, J> = c.iter().map(|c| (c.to_string(), J::String(format!("{c}a{c}")))).collect();
                        m.insert(all.clone(), J::Array(vec![J::String(all)]));
                        Text { doc: J::Object(m), choices: vec![(b % 251) as u8, (b % 13) as u8, (b % 7) as u8] }
                    })
                },
                text_case,
            ),
            // integers around the powers of two and ten
            each(
                "round integers",
                |_| {
                    let mut v: Vec<i128> = vec![];
                    v.extend((0..64).map(|k| 1i128 << k));
                    v.extend((0..19).map(|k| 10i128.pow(k)));
                    v.extend((1..9).flat_map(|d| (0..19).map(move |k| d * 10i128.pow(k))));
                    v.into_iter()
                        .flat_map(|n| (-2i128..3).flat_map(move |d| [n + d, -n + d]))
                        .filter(|n| i64::try_from(*n).is_ok())
                        .map(|n| Text { doc: json!([n as i64, {"n": n as i64}]), choices: vec![] })
                },
                text_case,
            ),
            // any double at all: written, read by the accessors, compared (reading its text is the finding float-reparse)
            prop("all doubles", 200000, 8000000, || prop_oneof![3 => any::<u64>(), 1 => (any::<u64>(), 0u64..2047, 0u32..52).prop_map(|(m, e, z)| (e << 52) | (m & 0x800fffffffffffff) >> z << z), 1 => Just(1u64 << 63), 1 => (0u64..8).prop_map(|x| x)], double),
            prop("equality", 800000, 20000000, || prop_oneof![scalar(), json()].prop_flat_map(close), pair),
        ],
        probes: vec![Probe { key: "float-reparse", run: float_probe }],
    }
}
