use super::c10::{digest, CODES};
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::{Matter, Prefixer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value as J};

const BASIC: [&str; 6] = ["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ"];
type Doc = Map<String, J>;

fn incepting(d: &Doc) -> bool {
    matches!(d.get("t").and_then(|t| t.as_str()), Some("icp" | "dip" | "vcp"))
}
/// the single key of an event: code and canonical text
fn single(d: &Doc) -> Option<MPrim> {
    match d.get("k")?.as_array()?.as_slice() {
        [J::String(k)] => matter_parse(k.as_bytes()).filter(|p| BASIC.contains(&p.code.as_str())),
        _ => None,
    }
}
fn empty(d: &Doc, label: &str) -> bool {
    match d.get(label) {
        None => true,
        Some(J::String(s)) => s.is_empty(),
        Some(J::Array(a)) => a.is_empty(),
        _ => false,
    }
}
fn event_digest(d: &Doc, code: &str) -> Option<String> {
    let mut d = d.clone();
    let dummy = J::String("#".repeat(said_len(code)));
    d.insert("i".into(), dummy.clone());
    d.insert("d".into(), dummy);
    Some(qualify(code, &digest(code, size_doc(&d)?.1.as_bytes())?))
}
pub fn derive_model(d: &Doc, code: Option<&str>, allows: Option<&[&str]>) -> Option<String> {
    let code = match code {
        Some(c) => c.to_string(),
        None => matter_parse(d.get("i")?.as_str()?.as_bytes())?.code,
    };
    let basic = BASIC.contains(&code.as_str());
    if !basic && !CODES.contains(&code.as_str()) {
        return None;
    }
    if let Some(a) = allows {
        if !a.is_empty() && !a.contains(&code.as_str()) {
            return None;
        }
    }
    if !incepting(d) {
        return None;
    }
    if !basic {
        return event_digest(d, &code);
    }
    let k = single(d)?;
    if k.code != code {
        return None;
    }
    if ["B", "1AAA", "1AAI"].contains(&code.as_str()) && !["n", "b", "a"].iter().all(|l| empty(d, l)) {
        return None;
    }
    Some(k.encode().0)
}
/// None: not decided by the property
fn verify_model(d: &Doc, code: &str, pre: &str, prefixed: bool) -> Option<bool> {
    if !incepting(d) {
        return Some(false);
    }
    let idok = !prefixed || d.get("i").and_then(|i| i.as_str()) == Some(pre);
    if CODES.contains(&code) {
        return Some(idok && event_digest(d, code).as_deref() == Some(pre));
    }
    let key = match d.get("k").and_then(|k| k.as_array()).map(|k| k.as_slice()) {
        Some([J::String(k)]) => k == pre,
        _ => false,
    };
    if !key || !idok {
        return Some(false);
    }
    if ["B", "1AAA", "1AAI"].contains(&code) {
        if let Some(J::String(_) | J::Array(_)) = d.get("n") {
            if !empty(d, "n") {
                return Some(false);
            }
        }
        if d.get("n").is_some_and(|n| !n.is_string() && !n.is_array()) || !empty(d, "b") || !empty(d, "a") {
            return None;
        }
    }
    Some(true)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Change {
    Value(usize, J),
    /// the last character of the n-th field's (first) string
    Inside(usize),
    Remove(usize),
    Insert(usize, String, J),
    Swap(usize, usize),
    Key(B),
    AddKey(B),
    Ident(J),
    Said(J),
    Ilk(String),
    Field(String, J),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    doc: Doc,
    code: Option<String>,
    allows: Option<Vec<String>>,
    changes: Vec<Change>,
    /// a bit of the prefix's material
    #[serde(default)]
    bit: usize,
}
fn bump(v: &J) -> J {
    match v {
        J::String(s) => {
            let mut t: Vec<char> = s.chars().collect();
            match t.last_mut() {
                Some(c) => *c = if *c == 'A' { 'Q' } else { 'A' },
                None => t.push('x'),
            }
            J::String(t.into_iter().collect())
        }
        J::Array(a) if !a.is_empty() => {
            let mut a = a.clone();
            a[0] = bump(&a[0]);
            J::Array(a)
        }
        J::Array(_) => J::from(vec!["x"]),
        _ => J::String("other".into()),
    }
}
fn run(c: &Case) -> R {
    let al: Option<Vec<&str>> = c.allows.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let v = libm(&c.doc);
    let want = derive_model(&c.doc, c.code.as_deref(), al.as_deref());
    let got = call("derive", || Prefixer::new_with_ked(&v, al.as_deref(), c.code.as_deref()))?;
    let p = match (&want, got) {
        (None, Ok(p)) => return Err(format!("an event without a derivable prefix gave {:?}: {}", p.qb64().ok(), compact_map(&c.doc))),
        (None, Err(_)) => {
            // the prefix of some other event must not verify it either, unless it should
            return okc(true, vec!["refused"]);
        }
        (Some(w), Err(e)) => return Err(format!("deriving {w} failed: {e}; event {}", compact_map(&c.doc))),
        (Some(w), Ok(p)) => {
            ensure_eq!(&p.qb64().map_err(|e| e.to_string())?, w, "prefix of {}", compact_map(&c.doc));
            p
        }
    };
    let pre = want.unwrap();
    let code = p.code();
    if let Some(c) = &c.code {
        ensure_eq!(&code, c, "prefix code");
    }
    // the prefix re-parsed
    for (how, q) in [
        ("qb64", must("qb64", || Prefixer::new_with_qb64(&pre))?),
        ("qb64b", must("qb64b", || Prefixer::new_with_qb64b(pre.as_bytes()))?),
        ("qb2", must("qb2", || Prefixer::new_with_qb2(&p.qb2()?))?),
        ("raw", must("raw", || Prefixer::new_with_raw(&p.raw(), Some(&code)))?),
    ] {
        ensure_eq!(q, p, "prefix re-made from {how}");
    }
    let judge = |d: &Doc, what: &str| -> Result<[Option<bool>; 2], String> {
        let v = libm(d);
        let mut out = [None; 2];
        for (i, prefixed) in [(0, None), (0, Some(false)), (1, Some(true))] {
            let got = matches!(call("verify", || p.verify(&v, prefixed))?, Ok(true));
            if let Some(want) = verify_model(d, &code, &pre, prefixed == Some(true)) {
                ensure!(got == want, "{what}: verification (prefixed {prefixed:?}) answers {got}, expected {want}; prefix {pre}, event {}", compact_map(d));
                out[i] = Some(got);
            }
        }
        Ok(out)
    };
    // without prefixed, the event the prefix was derived from verifies
    let r = judge(&c.doc, "the event itself")?;
    ensure_eq!(r[0], Some(true), "verification against the event itself");
    let mut own = c.doc.clone();
    own.insert("i".into(), J::String(pre.clone()));
    let r = judge(&own, "the event with its prefix filled in")?;
    ensure_eq!(r, [Some(true), Some(true)], "verification against the event with its prefix filled in");
    let mut classes = vec![format!("code {code}")];
    // any other prefix: one bit of its material changed, or the same material under another code
    let mut near = p.raw();
    let n = near.len();
    near[(c.bit / 8) % n] ^= 1 << (c.bit % 8);
    let all: Vec<&str> = BASIC.iter().chain(CODES.iter()).copied().filter(|x| *x != code && mcode(x).unwrap().rs == n).collect();
    let mut wrong = vec![(code.as_str(), near)];
    if !all.is_empty() {
        wrong.push((all[c.bit % all.len()], p.raw()));
    }
    for (wc, raw) in wrong {
        let q = must("another prefix", || Prefixer::new_with_raw(&raw, Some(wc)))?;
        let wpre = qualify(wc, &raw);
        let mut d = c.doc.clone();
        d.insert("i".into(), J::String(wpre.clone()));
        for (doc, what) in [(&c.doc, "the event"), (&own, "the event with its prefix"), (&d, "the event with the other prefix")] {
            for prefixed in [None, Some(false), Some(true)] {
                let got = matches!(call("verify", || q.verify(&libm(doc), prefixed))?, Ok(true));
                if let Some(want) = verify_model(doc, wc, &wpre, prefixed == Some(true)) {
                    ensure!(got == want, "another prefix {wpre} (derived {pre}) on {what}: verification (prefixed {prefixed:?}) answers {got}, expected {want}; {}", compact_map(doc));
                }
            }
        }
    }
    for ch in &c.changes {
        let keys: Vec<String> = own.keys().cloned().collect();
        let pick = |i: usize| keys[i % keys.len()].clone();
        let mut m = own.clone();
        let keytext = |b: &B| qualify("D", &b.0[..32]);
        match ch {
            Change::Value(i, x) => {
                m.insert(pick(*i), x.clone());
            }
            Change::Inside(i) => {
                let k = pick(*i);
                let x = bump(&m[&k]);
                m.insert(k, x);
            }
            Change::Remove(i) => {
                m.shift_remove(&pick(*i));
            }
            Change::Insert(at, k, v) => {
                if !m.contains_key(k) {
                    m = insert_at(&m, *at, k, v.clone());
                }
            }
            Change::Swap(i, j) => {
                let mut kv: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                let n = kv.len();
                kv.swap(i % n, j % n);
                m = kv.into_iter().collect();
            }
            Change::Key(b) => {
                m.insert("k".into(), J::from(vec![keytext(b)]));
            }
            Change::AddKey(b) => {
                if let Some(J::Array(a)) = m.get_mut("k") {
                    a.push(J::String(keytext(b)));
                }
            }
            Change::Ident(x) => {
                m.insert("i".into(), x.clone());
            }
            Change::Said(x) => {
                m.insert("d".into(), x.clone());
            }
            Change::Ilk(x) => {
                m.insert("t".into(), J::String(x.clone()));
            }
            Change::Field(k, x) => {
                m.insert(k.clone(), x.clone());
            }
        }
        let r = judge(&m, &format!("after {ch:?}"))?;
        let kind: String = format!("{ch:?}").chars().take_while(|c| c.is_alphanumeric()).collect();
        classes.push(format!("{kind} {}", match r[1] { Some(true) => "holds", Some(false) => "fails", None => "open" }));
    }
    okc(true, classes)
}
pub fn key_text() -> BoxedStrategy<J> {
    (0usize..6, bytes_n(33)).prop_map(|(i, b)| {
        let c = BASIC[i];
        J::String(qualify(c, &b.0[..mcode(c).unwrap().rs]))
    })
    .boxed()
}
pub fn digest_text() -> BoxedStrategy<J> {
    (0usize..9, bytes_n(64)).prop_map(|(i, b)| J::String(qualify(CODES[i], &b.0[..mcode(CODES[i]).unwrap().rs]))).boxed()
}
fn list(item: BoxedStrategy<J>, max: usize) -> BoxedStrategy<Option<J>> {
    prop_oneof![
        2 => Just(Some(J::Array(vec![]))),
        1 => Just(Some(J::String(String::new()))),
        1 => Just(None),
        2 => vec(item, 0..=max).prop_map(|v| Some(J::Array(v))),
    ]
    .boxed()
}
fn keys() -> BoxedStrategy<Option<J>> {
    prop_oneof![
        12 => key_text().prop_map(|k| Some(J::Array(vec![k]))),
        2 => vec(key_text(), 0..4).prop_map(|v| Some(J::Array(v))),
        1 => digest_text().prop_map(|k| Some(J::Array(vec![k]))),
        1 => key_text().prop_map(Some),
        1 => Just(None),
        1 => json().prop_map(Some),
    ]
    .boxed()
}
fn ilk() -> BoxedStrategy<Option<J>> {
    prop_oneof![
        6 => Just("icp"), 2 => Just("dip"), 2 => Just("vcp"), 1 => Just("rot"), 1 => Just("ixn"), 1 => Just("ICP"), 1 => Just("drt"), 1 => Just("")
    ]
    .prop_map(|s| Some(J::from(s)))
    .boxed()
}
fn ident() -> BoxedStrategy<J> {
    prop_oneof![2 => Just(J::from("")), 3 => key_text(), 3 => digest_text(), 1 => text().prop_map(J::String), 1 => json(), 1 => Just(J::from("#".repeat(44)))].boxed()
}
fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        2 => (any::<usize>(), prop_oneof![scalar(), json()]).prop_map(|(i, x)| Change::Value(i, x)),
        3 => any::<usize>().prop_map(Change::Inside),
        2 => any::<usize>().prop_map(Change::Remove),
        1 => (0usize..9, key(), scalar()).prop_map(|(i, k, v)| Change::Insert(i, k, v)),
        2 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Change::Swap(i, j)),
        1 => bytes_n(32).prop_map(Change::Key),
        1 => bytes_n(32).prop_map(Change::AddKey),
        2 => ident().prop_map(Change::Ident),
        1 => ident().prop_map(Change::Said),
        1 => prop_oneof![Just("dip"), Just("vcp"), Just("icp"), Just("rot"), Just("drt"), Just("vrt"), Just("iss"), Just("")].prop_map(|s| Change::Ilk(s.into())),
        1 => (prop_oneof![Just("n"), Just("b"), Just("a"), Just("kt"), Just("nt"), Just("s")], prop_oneof![list(digest_text(), 2).prop_map(|x| x.unwrap_or(J::Null)), scalar()]).prop_map(|(k, x)| Change::Field(k.into(), x)),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let version = prop_oneof![
        12 => any::<u32>().prop_map(|s| Some(format!("KERI10JSON{:06x}_", s & 0xffffff))),
        2 => Just(Some("ACDC10JSON000000_".to_string())),
        1 => Just(None),
        1 => prop_oneof![Just("KERI11JSON000000_"), Just("KERI10CBOR000000_"), Just("nope")].prop_map(|s| Some(s.to_string())),
    ];
    let code = prop_oneof![
        3 => Just(Some(None)),
        // the code of the event's own key
        6 => Just(None),
        5 => (0usize..9).prop_map(|i| Some(Some(CODES[i].to_string()))),
        2 => (0usize..6).prop_map(|i| Some(Some(BASIC[i].to_string()))),
        1 => prop_oneof![Just("A"), Just("0A"), Just("0B"), Just(""), Just("M"), Just("é"), Just("EE"), Just("4A")].prop_map(|s| Some(Some(s.to_string()))),
    ];
    let allow = || prop_oneof![4 => Just(None), 1 => vec((0usize..15).prop_map(|i| if i < 6 { BASIC[i].to_string() } else { CODES[i - 6].to_string() }), 0..8).prop_map(Some)];
    let rest = (
        ilk(),
        keys(),
        list(digest_text(), 2),
        list(key_text(), 2),
        list(scalar(), 2),
        prop_oneof![4 => ident().prop_map(Some), 1 => Just(None)],
        prop_oneof![9 => ident().prop_map(Some), 1 => Just(None)],
        (fields(3), long(), 0usize..3).prop_map(|(f, x, at)| match x {
            Some(x) => insert_at(&f, at, "long", x),
            None => f,
        }),
    );
    (version, rest, code, allow(), vec(change(), 0..8), any::<bool>(), vec(any::<usize>(), 12), any::<usize>())
        .prop_map(|(version, (t, k, n, b, a, i, d, extra), code, allows, changes, usual, order, bit)| {
            let mut kv: Vec<(String, J)> = vec![];
            for (l, x) in [("t", t), ("d", d), ("i", i), ("k", k), ("n", n), ("b", b), ("a", a)] {
                if let Some(x) = x {
                    kv.push((l.into(), x));
                }
            }
            for (l, x) in [("s", "0"), ("kt", "1"), ("nt", "1"), ("bt", "0")] {
                if usual || order[0] % 3 == 0 {
                    kv.push((l.into(), J::from(x)));
                }
            }
            for (l, x) in extra {
                if !kv.iter().any(|(k, _)| *k == l) {
                    kv.push((l, x));
                }
            }
            if !usual {
                for (j, o) in order.iter().enumerate() {
                    let n = kv.len();
                    kv.swap(j % n, o % n);
                }
            }
            if let Some(v) = version {
                kv.insert(0, ("v".into(), J::String(v)));
            }
            let doc: Doc = kv.into_iter().collect();
            let code = match code {
                Some(c) => c,
                None => single(&doc).map(|k| k.code).or(Some("E".into())),
            };
            Case { doc, code, allows, changes, bit }
        })
        .boxed()
}
/// events and the code they are derived with
pub fn coded() -> BoxedStrategy<(Doc, Option<String>)> {
    case().prop_map(|c| (c.doc, c.code)).boxed()
}
pub fn check() -> Check {
    Check {
        id: "C12",
        rule: "an event whose prefix was derived by the reference rule and tried on changed events, or which the rule refuses",
        assumptions: vec![
            "an empty list and an empty string both count as no next keys, witnesses or anchors",
            "verification of a non-transferable prefix against an event that has witnesses or anchors, or whose next keys are neither text nor a list, is left open (derivation refuses such events, the library's verification looks at next keys only)",
            "the version string's size is recomputed like the identifier and SAID fields, so a wrong stated size alone does not fail verification",
        ],
        subs: vec![prop("derive and verify", 100000, 3000000, case, run)],
        probes: vec![],
    }
}
