use super::c10::CODES;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::{Matter, Saider};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value as J};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Change {
    /// give the n-th other field this value
    Value(usize, J),
    /// change inside a nested value or flip a character
    Inside(usize),
    Rename(usize, String),
    Remove(usize),
    Insert(usize, String, J),
    Swap(usize, usize),
    /// the version string: 0 other protocol, 1 other size, 2 other version, 3 broken, 4 absent
    Version(u8),
    Ident(J),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    fields: Map<String, J>,
    /// protocol identifier and stated size of the version string
    version: Option<(String, u32)>,
    /// fields before the version string, which then may be too far from the start
    ahead: usize,
    label: Option<String>,
    at: usize,
    previous: J,
    other_previous: J,
    code: Option<usize>,
    kind: Option<String>,
    ignore: Vec<String>,
    ignore_own: Vec<usize>,
    changes: Vec<Change>,
    /// a bit of the identifier's digest
    #[serde(default)]
    bit: usize,
}
fn saidify(m: &Map<String, J>, c: &Case, code: Option<&str>, ignore: &[String]) -> Result<cesride::Result<(Saider, cesride::data::Value)>, String> {
    let ig: Vec<&str> = ignore.iter().map(|s| s.as_str()).collect();
    let ig = if ignore.is_empty() && c.at % 2 == 0 { None } else { Some(&ig[..]) };
    let v = libm(m);
    call("saidify", || Saider::saidify(&v, code, c.kind.as_deref(), c.label.as_deref(), ig))
}
fn inside(v: &J) -> J {
    match v {
        J::String(s) if s.is_empty() => J::String("x".into()),
        J::String(s) => {
            let mut t: Vec<char> = s.chars().collect();
            let n = t.len() / 2;
            t[n] = if t[n] == 'q' { 'r' } else { 'q' };
            J::String(t.into_iter().collect())
        }
        J::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            let n = a.len() - 1;
            a[n] = inside(&a[n]);
            J::Array(a)
        }
        J::Object(o) if !o.is_empty() => {
            let mut o = o.clone();
            let k = o.keys().next_back().unwrap().clone();
            let x = inside(&o[&k]);
            o.insert(k, x);
            J::Object(o)
        }
        J::Bool(x) => J::Bool(!x),
        J::Null => J::String("null".into()),
        J::Number(n) => match n.as_i64() {
            Some(i) => J::from(i ^ 1),
            None => J::String(n.to_string()),
        },
        _ => J::Null,
    }
}
fn run(c: &Case) -> R {
    let label = c.label.as_deref().unwrap_or("d");
    let code = c.code.map(|i| CODES[i % 9]);
    let cd = code.unwrap_or("E");
    // the document: version string first (after `ahead` fields), identifier somewhere
    let mut doc = c.fields.clone();
    doc.shift_remove("v");
    doc.shift_remove(label);
    doc = insert_at(&doc, c.at, label, c.previous.clone());
    if let Some((p, size)) = &c.version {
        doc = insert_at(&doc, c.ahead, "v", J::String(format!("{p}10JSON{:06x}_", size & 0xffffff)));
    }
    let keys: Vec<String> = doc.keys().cloned().collect();
    let mut ignore = c.ignore.clone();
    ignore.extend(c.ignore_own.iter().map(|i| keys[i % keys.len()].clone()));
    let igr: Vec<&str> = ignore.iter().map(|s| s.as_str()).collect();
    let ig = Some(&igr[..]);
    let kind = c.kind.as_deref();
    let lb = c.label.as_deref();

    let got = saidify(&doc, c, code, &ignore)?;
    let kind_ok = kind.is_none() || kind == Some("JSON");
    let want = if kind_ok { said_model(&doc, cd, label, &ignore) } else { None };
    let (said, out) = match (want, got) {
        (None, Err(_)) => {
            // nor is there any other way to an identifier of it, and none verifies it
            let some = match said_model(&doc, cd, label, &ignore) {
                Some((s, d)) => {
                    let v = libm(&d);
                    for v in [&libm(&doc), &v] {
                        for code in [code, Some(cd)] {
                            for (what, x) in [
                                ("new_with_sad", call("new_with_sad", || Saider::new_with_sad(v, lb, kind, ig, code))?),
                                ("new", call("new", || Saider::new(Some(v), lb, kind, ig, code, None, None, None, None))?),
                            ] {
                                ensure!(x.is_err(), "{what} with kind {kind:?}: identifier {:?}", x.unwrap().qb64().ok());
                            }
                        }
                    }
                    Some((s, v))
                }
                None => None,
            };
            if let Some((s, v)) = some {
                let said = must("the identifier", || Saider::new_with_qb64(&s))?;
                for p in [None, Some(false), Some(true)] {
                    for ver in [None, Some(false), Some(true)] {
                        let got = call("verify", || said.verify(&v, p, ver, kind, lb, ig))?;
                        ensure!(!matches!(got, Ok(true)), "verifies as kind {kind:?} (prefixed {p:?}, versioned {ver:?})");
                    }
                }
            }
            return okc(true, vec![if kind_ok { "refused" } else { "unsupported kind" }]);
        }
        (None, Ok((s, _))) => return Err(format!("a document that cannot be sized or serialized was given the identifier {:?}", s.qb64().ok())),
        (Some(_), Err(e)) => return Err(format!("saidify failed: {e}")),
        (Some(w), Ok((s, v))) => {
            ensure_eq!(s.qb64().map_err(|e| e.to_string())?, w.0, "identifier");
            ensure_eq!(s.code(), cd, "identifier code");
            same_doc(&v, &w.1, "saidified document")?;
            (s, w.1)
        }
    };
    let text = said.qb64().map_err(|e| e.to_string())?;
    // every way to the same identifier
    let (vdoc, vout) = (libm(&doc), libm(&out));
    ensure_eq!(must("from the document", || Saider::new_with_sad(&vout, lb, kind, ig, code))?, said, "identifier of the saidified document");
    ensure_eq!(must("from the document, code from its identifier", || Saider::new_with_sad(&vout, lb, kind, ig, None))?, said, "identifier of the saidified document without a code");
    ensure_eq!(must("from the original", || Saider::new_with_sad(&vdoc, lb, kind, ig, Some(cd)))?, said, "identifier of the original document");
    // independence of the previous value, idempotence
    let mut other = doc.clone();
    other.insert(label.into(), c.other_previous.clone());
    for (what, d) in [("with another previous identifier", &other), ("already saidified", &out)] {
        let (s, v) = saidify(d, c, code, &ignore)?.map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(s, said, "identifier of the document {what}");
        same_doc(&v, &out, what)?;
    }
    // verification
    let verify = |m: &Map<String, J>, prefixed: Option<bool>, versioned: Option<bool>| {
        let v = libm(m);
        call("verify", || said.verify(&v, prefixed, versioned, kind, lb, ig))
    };
    for p in [None, Some(false), Some(true)] {
        for v in [None, Some(false), Some(true)] {
            ensure!(matches!(verify(&out, p, v)?, Ok(true)), "the identifier does not verify its own document (prefixed {p:?}, versioned {v:?})");
        }
    }
    // the rule for any document
    let judge = |m: &Map<String, J>, what: &str| -> Result<bool, String> {
        let base = said_model(m, cd, label, &ignore).map(|(s, d)| (s == text, d.get("v") == m.get("v")));
        let idok = m.get(label).and_then(|x| x.as_str()) == Some(&text);
        for p in [false, true] {
            for v in [false, true] {
                let want = match base {
                    None => false,
                    Some((eq, ver)) => eq && (!v || ver) && (!p || idok),
                };
                let got = matches!(verify(m, Some(p), Some(v))?, Ok(true));
                ensure!(got == want, "{what} (prefixed {p}, versioned {v}): verification answers {got}, expected {want}; document {}", compact_map(m));
            }
        }
        Ok(base.map(|b| b.0).unwrap_or(false))
    };
    judge(&doc, "the original document")?;
    judge(&other, "the document with another identifier value")?;
    let mut classes = vec![format!("{}{}", if c.version.is_some() { "versioned " } else { "plain " }, cd)];
    for ch in &c.changes {
        let keys: Vec<String> = out.keys().filter(|k| *k != label).cloned().collect();
        let pick = |i: usize| keys.get(i % keys.len().max(1)).cloned();
        let mut m = out.clone();
        match ch {
            Change::Value(i, x) => {
                if let Some(k) = pick(*i) {
                    m.insert(k, x.clone());
                }
            }
            Change::Inside(i) => {
                if let Some(k) = pick(*i) {
                    let x = inside(&m[&k]);
                    m.insert(k, x);
                }
            }
            Change::Rename(i, n) => {
                if let Some(k) = pick(*i) {
                    if !m.contains_key(n) {
                        m = m.iter().map(|(a, b)| (if *a == k { n.clone() } else { a.clone() }, b.clone())).collect();
                    }
                }
            }
            Change::Remove(i) => {
                if let Some(k) = pick(*i) {
                    m.shift_remove(&k);
                }
            }
            Change::Insert(at, k, v) => {
                if !m.contains_key(k) {
                    m = insert_at(&m, *at, k, v.clone());
                }
            }
            Change::Swap(i, j) => {
                let mut kv: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                let n = kv.len();
                kv.swap(i % n, j % n);
                m = kv.into_iter().collect();
            }
            Change::Version(how) => {
                if let Some(v) = m.get("v").and_then(|v| v.as_str()).map(String::from) {
                    match how {
                        0 => m.insert("v".into(), J::String(v.replace("KERI", "#").replace("ACDC", "KERI").replace('#', "ACDC"))),
                        1 => m.insert("v".into(), J::String(format!("{}{:06x}_", &v[..10], u32::from_str_radix(&v[10..16], 16).unwrap() ^ 1))),
                        2 => m.insert("v".into(), J::String(v.replace("10JSON", "11JSON"))),
                        3 => m.insert("v".into(), J::String(v.replace('_', "."))),
                        _ => m.shift_remove("v"),
                    };
                }
            }
            Change::Ident(x) => {
                m.insert(label.into(), x.clone());
            }
        }
        let verified = judge(&m, &format!("after {ch:?}"))?;
        // a change to what is covered is never accepted, whatever the model says
        let cover = |m: &Map<String, J>| {
            let mut x = m.clone();
            x.insert(label.into(), J::Null);
            if let Some(J::String(v)) = x.get("v") {
                if parse_ver(v).is_some() {
                    let t = v[..10].to_string();
                    x.insert("v".into(), J::String(t));
                }
            }
            for k in &ignore {
                x.shift_remove(k);
            }
            compact_map(&x)
        };
        let changed = cover(&m) != cover(&out);
        ensure!(!(changed && verified), "harness: a covered change verifies: {ch:?}");
        let kind: String = format!("{ch:?}").chars().take_while(|c| c.is_alphanumeric()).collect();
        classes.push(format!("{kind} {}", if changed { "covered" } else { "not covered" }));
    }
    // any other identifier: one bit of the digest changed, or the same digest under another code
    let raw = said.raw();
    let mut near = raw.clone();
    near[(c.bit / 8) % raw.len()] ^= 1 << (c.bit % 8);
    let swap = CODES[(CODES.iter().position(|x| *x == cd).unwrap() + 1 + c.bit % 8) % 9];
    let mut wrong = vec![("one bit off".to_string(), cd, near)];
    let mut resized = raw.clone();
    resized.resize(mcode(swap).unwrap().rs, 0);
    wrong.push((format!("the same digest under {swap}"), swap, resized));
    for (what, code, raw) in wrong {
        let w = must("another identifier", || Saider::new_with_raw(&raw, Some(code)))?;
        let mut d = out.clone();
        d.insert(label.into(), J::String(qualify(code, &raw)));
        // (one digest can be the beginning of another: Blake3 is extendable)
        if said_model(&out, code, label, &ignore).map(|w| w.0) == Some(qualify(code, &raw)) {
            continue;
        }
        for (doc, filled) in [(&vout, ""), (&libm(&d), " filled in")] {
            for p in [None, Some(false), Some(true)] {
                for v in [None, Some(false), Some(true)] {
                    let got = call("verify", || w.verify(doc, p, v, kind, lb, ig))?;
                    ensure!(!matches!(got, Ok(true)), "an identifier {what} verifies (prefixed {p:?}, versioned {v:?}{filled})");
                }
            }
        }
    }
    // without the identifier field there is nothing to fill in, and prefixed verification has nothing to match
    let mut m = out.clone();
    m.shift_remove(label);
    ensure!(saidify(&m, c, code, &ignore)?.is_err(), "a document without the identifier field was saidified");
    ensure!(!matches!(verify(&m, Some(true), None)?, Ok(true)), "prefixed verification accepts a document without the identifier field");
    okc(true, classes)
}
fn change() -> BoxedStrategy<Change> {
    let v = || prop_oneof![3 => scalar(), 1 => json()];
    prop_oneof![
        3 => (any::<usize>(), v()).prop_map(|(i, x)| Change::Value(i, x)),
        3 => any::<usize>().prop_map(Change::Inside),
        2 => (any::<usize>(), key()).prop_map(|(i, x)| Change::Rename(i, x)),
        2 => any::<usize>().prop_map(Change::Remove),
        2 => (0usize..6, key(), v()).prop_map(|(i, k, x)| Change::Insert(i, k, x)),
        2 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Change::Swap(i, j)),
        2 => (0u8..5).prop_map(Change::Version),
        1 => v().prop_map(Change::Ident),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let previous = || prop_oneof![4 => Just(J::String(String::new())), 2 => text().prop_map(J::String), 1 => json(), 1 => Just(J::String("EBG9LuUbFzV4OV5cGS9IeQWzy9SuyVFyVrpRc4l1xzPA".into())), 1 => Just(J::String("#".repeat(44)))];
    let label = prop_oneof![
        3 => Just(None),
        4 => prop_oneof![Just("d"), Just("$id"), Just("@id"), Just("id"), Just("i"), Just("said")].prop_map(|s| Some(s.to_string())),
        1 => text().prop_map(|s| Some(if s == "v" { "w".into() } else { s })),
    ];
    let version = prop_oneof![
        4 => Just(None),
        6 => (prop_oneof![Just("KERI".to_string()), Just("ACDC".to_string())], prop_oneof![Just(0u32), any::<u32>()]).prop_map(Some),
        1 => ("[A-Z]{4}", any::<u32>()).prop_map(Some),
    ];
    let kind = prop_oneof![6 => Just(None), 4 => Just(Some("JSON".to_string())), 1 => prop_oneof![Just("CBOR"), Just("json"), Just("")].prop_map(|s| Some(s.to_string()))];
    let ahead = prop_oneof![12 => Just(0usize), 1 => 1usize..4];
    let fields = (fields(7), long(), 0usize..8).prop_map(|(f, x, at)| match x {
        Some(x) => insert_at(&f, at, "long", x),
        None => f,
    });
    (
        (fields, version, ahead, label, 0usize..9),
        (previous(), previous(), prop_oneof![1 => Just(None), 4 => (0usize..9).prop_map(Some)], kind),
        (prop_oneof![3 => Just(vec![]), 1 => vec(key(), 0..3)], prop_oneof![3 => Just(vec![]), 1 => vec(any::<usize>(), 0..3)], vec(change(), 0..8)),
        any::<usize>(),
    )
        .prop_map(|((fields, version, ahead, label, at), (previous, other_previous, code, kind), (ignore, ignore_own, changes), bit)| Case {
            fields,
            version,
            ahead,
            label,
            at,
            previous,
            other_previous,
            code,
            kind,
            ignore,
            ignore_own,
            changes,
            bit,
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C11",
        rule: "a generated document whose identifier was computed by the reference, or which the reference cannot size",
        assumptions: vec![
            "serde_json's compact serialization with preserved order is the reference serialization; floats have at most 15 significant digits",
            "with ignored fields the version string states the size of the whole document (ignored fields included) and only the digest leaves them out",
        ],
        subs: vec![prop("saidify and verify", 20000, 400000, case, run)],
        probes: vec![],
    }
}
