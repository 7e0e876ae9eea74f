use super::c10::CODES;
use super::c12::{digest_text, key_text};
use super::c13::well_formed;
use super::c19::tail;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::model::thold::{sith, Says};
use crate::{ensure, ensure_eq};
use cesride::common::CURRENT_VERSION;
use cesride::data::Value;
use cesride::{Creder, Matter, Sadder, Serder, Tholder};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as J};

type Doc = Map<String, J>;
const KEYS: [&str; 6] = ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    acdc: bool,
    doc: Doc,
    kind: Option<String>,
    code: Option<String>,
    /// fill in a true SAID
    saidify: bool,
    tail: B,
    cuts: Vec<usize>,
    grow: u32,
    pretty: usize,
}
/// Both object types through one shape.
trait Object: Sadder + PartialEq + std::fmt::Debug {
    const IDENT: &'static str;
    fn make(code: Option<&str>, raw: Option<&[u8]>, kind: Option<&str>, ked: Option<&Value>, sad: Option<&Self>) -> cesride::Result<Self>;
    fn of_ked(ked: &Value, code: Option<&str>, kind: Option<&str>) -> cesride::Result<Self>;
    fn of_raw(raw: &[u8]) -> cesride::Result<Self>;
    fn fields(&self, d: &Doc) -> Result<Vec<String>, String>;
}
macro_rules! object {
    ($t:ty, $i:literal, $f:path) => {
        impl Object for $t {
            const IDENT: &'static str = $i;
            fn make(c: Option<&str>, r: Option<&[u8]>, k: Option<&str>, ked: Option<&Value>, s: Option<&Self>) -> cesride::Result<Self> {
                <$t>::new(c, r, k, ked, s)
            }
            fn of_ked(ked: &Value, code: Option<&str>, kind: Option<&str>) -> cesride::Result<Self> {
                <$t>::new_with_ked(ked, code, kind)
            }
            fn of_raw(raw: &[u8]) -> cesride::Result<Self> {
                <$t>::new_with_raw(raw)
            }
            fn fields(&self, d: &Doc) -> Result<Vec<String>, String> {
                $f(self, d)
            }
        }
    };
}
object!(Serder, "KERI", event);
object!(Creder, "ACDC", credential);

/// A primitive's text with nothing after it: Some(Some) one of the codes, Some(None) not one, None open.
fn exact(v: &J, codes: &[&str]) -> Option<Option<MPrim>> {
    let s = match v.as_str() {
        Some(s) => s,
        None => return Some(None),
    };
    match matter_parse(s.as_bytes()) {
        Some(p) if codes.contains(&p.code.as_str()) => (p.encode().0.len() == s.len()).then_some(Some(p)),
        _ => Some(None),
    }
}
/// compares an accessor with the list of primitives a field holds
fn list<M: Matter>(what: &str, got: cesride::Result<Vec<M>>, field: Option<&J>, codes: &[&str], lenient: bool) -> Result<String, String> {
    let items = match field {
        None => vec![],
        Some(J::Array(a)) => {
            let mut out = vec![];
            for x in a {
                match exact(x, codes) {
                    Some(Some(p)) => out.push(p),
                    Some(None) => {
                        ensure!(got.is_err(), "{what}: {} is not among the codes, yet gave a list", compact(x));
                        return Ok(format!("{what} refused"));
                    }
                    None => return Ok(format!("{what} open")),
                }
            }
            out
        }
        Some(x) => {
            // a field that is no list holds no primitives
            match got {
                Ok(v) => ensure!(lenient && v.is_empty(), "{what}: {} gave {} items", compact(x), v.len()),
                Err(_) => {}
            }
            return Ok(format!("{what} no list"));
        }
    };
    let got = got.map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(got.len(), items.len(), "{what}: number of items");
    for (i, (g, p)) in got.iter().zip(&items).enumerate() {
        ensure_eq!(g.code(), p.code, "{what} {i}: code");
        ensure_eq!(B(g.raw()), B(p.raw.clone()), "{what} {i}: raw");
        ensure_eq!(g.qb64().map_err(|e| e.to_string())?, p.encode().0, "{what} {i}: text");
    }
    Ok(format!("{what} {}", if field.is_none() { "absent".into() } else { items.len().min(3).to_string() }))
}
fn threshold(what: &str, got: cesride::Result<Option<Tholder>>, field: Option<&J>) -> Result<String, String> {
    let Some(f) = field else {
        ensure!(matches!(got, Ok(None)), "{what}: no field but {got:?}");
        return Ok(format!("{what} absent"));
    };
    Ok(match (sith(f), got) {
        (Says::Is(t) | Says::Open(Some(t)), Ok(Some(th))) => {
            ensure_eq!(must(what, || th.sith()?.to_json())?, compact(&t.expression()), "{what} of {}", compact(f));
            ensure_eq!(th.size() as u64, t.size(), "{what} of {}: size", compact(f));
            format!("{what} {}", if th.weighted() { "weighted" } else { "number" })
        }
        (Says::Is(t), r) => return Err(format!("{what}: {} means {} but gave {r:?}", compact(f), compact(&t.expression()))),
        (Says::Bad, Ok(r)) => return Err(format!("{what}: {} is malformed but gave {r:?}", compact(f))),
        (_, Ok(None)) => return Err(format!("{what}: {} gave nothing", compact(f))),
        (_, _) => format!("{what} refused or open"),
    })
}
fn hex_number(v: Option<&J>) -> Option<Result<u128, ()>> {
    let Some(J::String(s)) = v else { return Some(Err(())) };
    if s.is_empty() || s.starts_with(['+', '-']) {
        return None;
    }
    if !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Some(Err(()));
    }
    let t = s.trim_start_matches('0');
    match t.len() {
        0 => Some(Ok(0)),
        1..=32 => Some(Ok(u128::from_str_radix(t, 16).unwrap())),
        _ => Some(Err(())),
    }
}
fn text_field(what: &str, got: cesride::Result<String>, field: Option<&J>) -> Result<String, String> {
    match (field.and_then(|f| f.as_str()), got) {
        (Some(s), Ok(g)) => {
            ensure_eq!(g, s, "{what}");
            Ok(format!("{what} text"))
        }
        (Some(s), Err(e)) => Err(format!("{what}: {s:?} refused: {e}")),
        (None, Ok(g)) => Err(format!("{what}: {field:?} gave {g:?}")),
        (None, Err(_)) => Ok(format!("{what} {}", if field.is_none() { "missing" } else { "no text" })),
    }
}
fn event(s: &Serder, d: &Doc) -> Result<Vec<String>, String> {
    let mut cl = vec![
        list("keys", call("verfers", || s.verfers())?, d.get("k"), &KEYS, true)?,
        list("next digests", call("digers", || s.digers())?, d.get("n"), &CODES, true)?,
        list("witnesses", call("werfers", || s.werfers())?, d.get("b"), &KEYS, true)?,
        threshold("threshold", call("tholder", || s.tholder())?, d.get("kt"))?,
        threshold("next threshold", call("ntholder", || s.ntholder())?, d.get("nt"))?,
        text_field("prefix", call("pre", || s.pre())?, d.get("i"))?,
        text_field("prefix bytes", call("preb", || s.preb())?.map(|b| String::from_utf8_lossy(&b).into_owned()), d.get("i"))?,
    ];
    let (sner, sn) = (call("sner", || s.sner())?, call("sn", || s.sn())?);
    match hex_number(d.get("s")) {
        Some(Ok(n)) => {
            let x = sner.map_err(|e| format!("sequence number {:?}: {e}", d.get("s")))?;
            ensure_eq!(x.num().map_err(|e| e.to_string())?, n, "sequence number primitive");
            ensure_eq!(x.numh().map_err(|e| e.to_string())?, format!("{n:x}"), "sequence number text");
            ensure_eq!(x.code(), number(n).code, "sequence number code");
            ensure_eq!(sn.map_err(|e| e.to_string())?, n, "sequence number");
            cl.push(format!("sn {}", if n < 1 << 64 { "small" } else { "large" }));
        }
        Some(Err(())) => {
            ensure!(sner.is_err() && sn.is_err(), "sequence number {:?} gave {:?}", d.get("s"), sn.ok());
            cl.push("sn refused".into());
        }
        None => cl.push("sn open".into()),
    }
    let (fner, f) = (call("fner", || s.fner())?, call("fn", || s._fn())?);
    match d.get("f") {
        None => {
            ensure!(matches!(fner, Ok(None)), "no first-seen number but {fner:?}");
            ensure!(f.is_err(), "no first-seen number but {f:?}");
        }
        Some(v) => match exact(v, &["M", "0H", "N", "0A"]) {
            Some(Some(p)) => {
                let n = p.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128);
                let x = fner.map_err(|e| format!("first-seen {}: {e}", compact(v)))?.ok_or("first-seen number lost")?;
                ensure_eq!((x.code(), B(x.raw())), (p.code, B(p.raw)), "first-seen primitive");
                ensure_eq!(f.map_err(|e| e.to_string())?, n, "first-seen number");
                cl.push("first-seen".into());
            }
            Some(None) => {
                ensure!(fner.is_err() && f.is_err(), "first-seen {} gave {:?}", compact(v), f.ok());
                cl.push("first-seen refused".into());
            }
            None => {}
        },
    }
    let est = call("est", || s.est())?;
    match d.get("t").and_then(|t| t.as_str()) {
        Some(t) => {
            let want = ["icp", "rot", "dip", "drt"].contains(&t);
            ensure_eq!(est.map_err(|e| e.to_string())?, want, "establishment flag of {t:?}");
            cl.push(format!("est {want}"));
        }
        None => ensure!(est.is_err(), "type {:?} gave {est:?}", d.get("t")),
    }
    Ok(cl)
}
fn same_value(what: &str, got: &Value, want: &J) -> Result<(), String> {
    ensure_eq!(got.to_json().map_err(|e| e.to_string())?, compact(want), "{what}");
    Ok(())
}
fn credential(c: &Creder, d: &Doc) -> Result<Vec<String>, String> {
    let mut cl = vec![
        text_field("issuer", call("issuer", || c.issuer())?, d.get("i"))?,
        text_field("schema", call("schema", || c.schema())?, d.get("s"))?,
    ];
    same_doc(&c.crd(), d, "crd")?;
    // without a subject the accessor has nothing to return and cannot report it
    if let Some(a) = d.get("a") {
        same_value("subject", &no_panic(|| c.subject())?, a)?;
        cl.push("subject".into());
    }
    let status = call("status", || c.status())?;
    match d.get("ri") {
        None => ensure!(matches!(status, Ok(None)), "no registry but {status:?}"),
        Some(J::String(s)) => {
            ensure_eq!(status.map_err(|e| e.to_string())?, Some(s.clone()), "status");
            cl.push("status".into());
        }
        Some(x) => ensure!(status.is_err(), "registry {} gave {status:?}", compact(x)),
    }
    let chains = must("chains", || c.chains())?;
    same_value("chains", &chains, d.get("e").unwrap_or(&json!({})))?;
    Ok(cl)
}

fn agree<O: Object>(o: &O, doc: &Doc, raw: &str, said: &str, code: &str, how: &str) -> Result<(), String> {
    ensure!(o.raw() == raw.as_bytes(), "{how}: raw: got {}, expected {raw}", String::from_utf8_lossy(&o.raw()));
    ensure_eq!(o.size() as usize, raw.len(), "{how}: size");
    same_doc(&o.ked(), doc, &format!("{how}: document"))?;
    ensure_eq!(must("said", || o.said())?, said, "{how}: SAID");
    ensure_eq!(must("saidb", || o.saidb())?, said.as_bytes(), "{how}: SAID bytes");
    ensure_eq!(must("saider", || o.saider().qb64())?, said, "{how}: SAID primitive");
    ensure_eq!((o.ident().as_str(), o.kind().as_str(), o.code().as_str()), (O::IDENT, "JSON", code), "{how}: ident, kind, code");
    ensure_eq!(o.version(), *CURRENT_VERSION, "{how}: version");
    Ok(())
}
fn run(c: &Case) -> R {
    if c.acdc {
        object::<Creder>(c)
    } else {
        object::<Serder>(c)
    }
}
fn object<O: Object>(c: &Case) -> R {
    let code = c.code.clone().unwrap_or("E".into());
    let mut doc = c.doc.clone();
    if c.saidify && CODES.contains(&code.as_str()) {
        if let Some((_, d)) = said_model(&doc, &code, "d", &[]) {
            doc = d;
        }
    }
    let v = libm(&doc);
    let (kind, tail) = (c.kind.as_deref(), &c.tail.0);
    let said = doc.get("d").map_or(Some(None), |d| exact(d, &CODES));
    let kind_ok = kind.is_none() || kind == Some("JSON");
    let sized = if kind_ok { size_doc(&doc) } else { None };
    let ident = doc.get("v").and_then(|v| v.as_str()).and_then(parse_ver).map(|v| v.ident);
    let good = sized.is_some() && ident.as_deref() == Some(O::IDENT);
    let got = call("new(ked)", || O::make(c.code.as_deref(), None, kind, Some(&v), None))?;
    let short = call("new_with_ked", || O::of_ked(&v, c.code.as_deref(), kind))?;
    ensure!(v.to_json().map_err(|e| e.to_string())? == compact_map(&doc), "the document given was changed");
    let said = match said {
        None => return okc(false, vec!["SAID with text after it: open"]),
        Some(s) => s.filter(|p| p.code == code),
    };
    let (Some(said), true) = (&said, good) else {
        ensure!(got.is_err() && short.is_err(), "an object was made from {} (kind {kind:?}, code {:?})", compact_map(&doc), c.code);
        // nor from its serialization
        if kind_ok && matches!(said, None) || (kind_ok && sized.is_some()) {
            let raw = sized.map(|s| s.1).unwrap_or_else(|| compact_map(&doc));
            let mut stream = raw.into_bytes();
            stream.extend_from_slice(tail);
            let r = call("new(raw)", || O::make(c.code.as_deref(), Some(&stream), None, None, None))?;
            ensure!(r.is_err(), "an object was made from the bytes of {} (code {:?})", compact_map(&doc), c.code);
        }
        return okc(true, vec!["refused"]);
    };
    let said = said.encode().0;
    let (wd, ws) = sized.unwrap();
    let o = got.map_err(|e| format!("{} refused: {e}", compact_map(&doc)))?;
    agree(&o, &wd, &ws, &said, &code, "from the document")?;
    ensure_eq!(short.map_err(|e| e.to_string())?, o, "new_with_ked");
    // from its own bytes, whatever follows
    let mut stream = ws.clone().into_bytes();
    stream.extend_from_slice(tail);
    if stream.len() >= 29 {
        let r = must("new(raw)", || O::make(c.code.as_deref(), Some(&stream), None, None, None))?;
        agree(&r, &wd, &ws, &said, &code, "from the bytes")?;
        ensure_eq!(r, o, "rebuilt from {ws} followed by {:?}", c.tail);
        let r = call("new_with_raw", || O::of_raw(&stream))?;
        ensure_eq!(r.is_ok(), code == "E", "new_with_raw of an object with code {code}");
        if let Ok(r) = r {
            ensure_eq!(r, o, "new_with_raw");
        }
    }
    ensure_eq!(must("new(sad)", || O::make(None, None, None, None, Some(&o)))?, o, "from the object itself");
    ensure_eq!(must("new(ked) again", || O::make(c.code.as_deref(), None, kind, Some(&o.ked()), None))?, o, "from its own document");
    // other codes
    for x in CODES.iter().chain(["A", "", "B"].iter()).filter(|x| **x != code) {
        ensure!(call("new(ked)", || O::make(Some(x), None, None, Some(&v), None))?.is_err(), "code {x} accepted for a SAID of code {code}");
        ensure!(call("new(raw)", || O::make(Some(x), Some(&stream), None, None, None))?.is_err(), "code {x} accepted for the bytes of a SAID of code {code}");
    }
    // truncated
    let raw = ws.as_bytes();
    for k in &c.cuts {
        let k = k % raw.len();
        ensure!(call("truncated", || O::make(c.code.as_deref(), Some(&raw[..k]), None, None, None))?.is_err(), "{k} of {} bytes accepted", raw.len());
    }
    // restated: other sizes, versions, protocols, kinds
    let at = (0..13).find(|i| ver_at(&raw[*i..]).is_some()).unwrap();
    let own = ver_at(&raw[at..]).unwrap();
    let restate = |w: Ver, what: &str| -> Result<(), String> {
        let mut b = raw.to_vec();
        b[at..at + 17].copy_from_slice(ver_text(&w).as_bytes());
        ensure!(call(what, || O::make(c.code.as_deref(), Some(&b), None, None, None))?.is_err(), "{what}: accepted {}", String::from_utf8_lossy(&b));
        Ok(())
    };
    let n = raw.len() as u32;
    for size in [n + 1, n + c.grow % (0xffffff - n), 0xffffff, n - 1, n - c.grow % n, 0] {
        if size != n {
            restate(Ver { size, ..own.clone() }, "a wrong declared size")?;
        }
    }
    restate(Ver { minor: 1, ..own.clone() }, "version 1.1")?;
    restate(Ver { major: (c.grow % 16) as u8, minor: 1 + (c.grow / 16 % 15) as u8, ..own.clone() }, "another version")?;
    restate(Ver { ident: if O::IDENT == "KERI" { "ACDC" } else { "KERI" }.into(), ..own.clone() }, "another protocol")?;
    restate(Ver { kind: "CBOR".into(), ..own.clone() }, "another kind")?;
    for text in ["KERI11JSON000000_", "ACDC11JSON000000_", if O::IDENT == "KERI" { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }] {
        let mut d = doc.clone();
        d.insert("v".into(), J::from(text));
        ensure!(call("new(ked)", || O::make(c.code.as_deref(), None, None, Some(&libm(&d)), None))?.is_err(), "accepted a document with version {text}");
    }
    ensure!(call("new()", || O::make(c.code.as_deref(), None, kind, None, None))?.is_err(), "an object was made from nothing");
    // what the fields say
    let mut classes = o.fields(&wd)?;
    // readable form: the front of the indented document
    let full = serde_json::to_string_pretty(&J::Object(wd.clone())).unwrap();
    for size in [None, Some(c.pretty), Some(0), Some(full.len()), Some(usize::MAX)] {
        let p = must("pretty", || o.pretty(size))?;
        let max = size.unwrap_or(1024);
        ensure!(full.starts_with(&p) && p.len() <= max, "pretty({size:?}): {p:?} of {full:?}");
        ensure!(p.len() == full.len() || p.len() + 4 > max, "pretty({size:?}) has {} of {} bytes", p.len(), full.len());
    }
    classes.push(format!("{} code {code}", O::IDENT));
    okc(true, classes)
}

// ---- generators ---------------------------------------------------------------------------------
fn number_text() -> BoxedStrategy<J> {
    prop_oneof![
        3 => any::<u128>().prop_map(number),
        2 => (0u128..300).prop_map(number),
        2 => (0usize..4, bytes_n(16)).prop_map(|(i, b)| { let (c, n) = [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)][i]; MPrim { code: c.into(), size: 0, raw: b.0[..n].to_vec() } }),
    ]
    .prop_map(|p| J::String(p.encode().0))
    .boxed()
}
fn several(item: BoxedStrategy<J>) -> BoxedStrategy<J> {
    prop_oneof![24 => vec(item.clone(), 0..6).prop_map(J::Array), 1 => vec(item.clone(), 6..70).prop_map(J::Array), 2 => item, 2 => Just(J::from("")), 2 => vec(scalar(), 0..3).prop_map(J::Array)].boxed()
}
fn maybe(s: BoxedStrategy<J>, odds: f64) -> BoxedStrategy<Option<J>> {
    proptest::option::weighted(odds, s).boxed()
}
/// 1 in 12 values of another kind
fn mostly(s: BoxedStrategy<J>) -> BoxedStrategy<J> {
    prop_oneof![22 => s, 1 => scalar(), 1 => json()].boxed()
}
fn any_prim() -> BoxedStrategy<J> {
    small_mprim().prop_map(|p| J::String(p.encode().0)).boxed()
}
fn keyish() -> BoxedStrategy<J> {
    prop_oneof![30 => key_text(), 1 => any_prim()].boxed()
}
fn digestish() -> BoxedStrategy<J> {
    prop_oneof![30 => digest_text(), 1 => any_prim()].boxed()
}
fn hex_text() -> BoxedStrategy<J> {
    prop_oneof![
        4 => (0u32..70).prop_map(|n| format!("{n:x}")),
        3 => any::<u128>().prop_map(|n| format!("{n:x}")),
        1 => any::<u64>().prop_map(|n| format!("{n:X}")),
        1 => any::<u32>().prop_map(|n| format!("{n:040x}")),
        1 => "[0-9a-f]{30,36}",
        1 => text(),
    ]
    .prop_map(J::String)
    .boxed()
}
fn lengthen((mut m, x): (Doc, Option<J>)) -> Doc {
    if let Some(x) = x {
        m.insert("long".into(), x);
    }
    m
}
pub fn event_doc() -> BoxedStrategy<Doc> {
    let ilk = prop_oneof![
        4 => (0usize..5).prop_map(|i| ["icp", "rot", "ixn", "dip", "drt"][i].to_string()),
        2 => (0usize..13).prop_map(|i| ["rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv"][i].to_string()),
        1 => prop_oneof![Just("ICP"), Just("ic"), Just("icpx"), Just(" icp"), Just("")].prop_map(String::from),
    ]
    .prop_map(J::String)
    .boxed();
    let a = (
        maybe(mostly(ilk), 0.95),
        maybe(mostly(prop_oneof![key_text(), digest_text(), text().prop_map(J::String)].boxed()), 0.95),
        maybe(mostly(hex_text()), 0.95),
        maybe(mostly(digest_text()), 0.5),
        maybe(mostly(well_formed()), 0.8),
        maybe(mostly(several(keyish())), 0.85),
        maybe(mostly(well_formed()), 0.8),
        maybe(mostly(several(digestish())), 0.85),
    );
    let b = (
        maybe(mostly(hex_text()), 0.7),
        maybe(mostly(several(keyish())), 0.7),
        maybe(json(), 0.3),
        maybe(mostly(prop_oneof![number_text(), any_prim()].boxed()), 0.3),
        (fields(2), long()).prop_map(lengthen),
    );
    (a, b)
        .prop_map(|((t, i, s, p, kt, k, nt, n), (bt, b, a, f, extra))| {
            let mut m = Doc::new();
            for (l, x) in [("t", t), ("d", Some(J::from(""))), ("i", i), ("s", s), ("p", p), ("kt", kt), ("k", k), ("nt", nt), ("n", n), ("bt", bt), ("b", b), ("a", a), ("f", f)] {
                if let Some(x) = x {
                    m.insert(l.into(), x);
                }
            }
            for (l, x) in extra {
                m.entry(l).or_insert(x);
            }
            m
        })
        .boxed()
}
pub fn cred_doc() -> BoxedStrategy<Doc> {
    (
        maybe(mostly(prop_oneof![key_text(), digest_text()].boxed()), 0.9),
        maybe(mostly(digest_text()), 0.6),
        maybe(mostly(prop_oneof![digest_text(), text().prop_map(J::String)].boxed()), 0.9),
        maybe(json(), 0.9),
        maybe(json(), 0.5),
        maybe(json(), 0.3),
        (fields(3), long()).prop_map(lengthen),
    )
        .prop_map(|(i, ri, s, a, e, r, extra)| {
            let mut m = Doc::new();
            for (l, x) in [("d", Some(J::from(""))), ("i", i), ("ri", ri), ("s", s), ("a", a), ("e", e), ("r", r)] {
                if let Some(x) = x {
                    m.insert(l.into(), x);
                }
            }
            for (l, x) in extra {
                m.entry(l).or_insert(x);
            }
            m
        })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let code = prop_oneof![3 => Just(None), 2 => Just(Some("E".to_string())), 3 => (0usize..9).prop_map(|i| Some(CODES[i].to_string())), 1 => prop_oneof![Just("A"), Just("D"), Just(""), Just("X")].prop_map(|s| Some(s.to_string()))];
    // the SAID field: of the right code, of any, or not one
    let said = prop_oneof![14 => bytes_n(64).prop_map(Ok), 2 => digest_text().prop_map(Err), 1 => scalar().prop_map(Err), 1 => any_prim().prop_map(Err), 1 => Just(Err(J::from("")))];
    let version = prop_oneof![
        16 => any::<u32>().prop_map(|n| (None, format!("10JSON{:06x}_", n & 0xffffff))),
        1 => Just((Some("CESR"), "10JSON000000_".to_string())),
        1 => prop_oneof![Just("11JSON000000_"), Just("00JSON000000_"), Just("20JSON000000_"), Just("10CBOR000000_"), Just("10JSON0000_"), Just("")].prop_map(|s| (None, s.to_string())),
    ];
    let kind = prop_oneof![8 => Just(None), 4 => Just(Some("JSON".to_string())), 1 => prop_oneof![Just("CBOR"), Just("MGPK"), Just("")].prop_map(|s| Some(s.to_string()))];
    let misc = (code, said, version, kind, prop_oneof![20 => Just(0usize), 1 => 0usize..6], 0u8..40, tail(), vec(any::<usize>(), 0..6), any::<u32>(), 0usize..1200);
    any::<bool>()
        .prop_flat_map(|acdc| (Just(acdc), if acdc { cred_doc() } else { event_doc() }, vec(any::<usize>(), 12), any::<bool>()))
        .prop_flat_map(move |(acdc, doc, order, usual)| (Just((acdc, doc, order, usual)), any::<bool>(), prop::bool::weighted(0.04)))
        .boxed()
        .prop_flat_map({
            let misc = misc.boxed();
            move |x| (Just(x), misc.clone())
        })
        .prop_map(|(((acdc, doc, order, usual), saidify, swap), (code, said, (ident, rest), kind, at, drop, tail, cuts, grow, pretty))| {
            let mut kv: Vec<(String, J)> = doc.into_iter().collect();
            if !usual {
                for (j, o) in order.iter().enumerate() {
                    let n = kv.len();
                    kv.swap(j % n, o % n);
                }
            }
            let mut m: Doc = kv.into_iter().collect();
            let c = code.clone().unwrap_or("E".into());
            let d = match said {
                Ok(b) if CODES.contains(&c.as_str()) => J::String(qualify(&c, &b.0[..mcode(&c).unwrap().rs])),
                Ok(_) => J::from(""),
                Err(x) => x,
            };
            m.insert("d".into(), d);
            let ident = ident.unwrap_or(if acdc != swap { "ACDC" } else { "KERI" });
            let mut m = insert_at(&m, at, "v", J::String(format!("{ident}{rest}")));
            match drop {
                0 => m.shift_remove("v"),
                1 => m.shift_remove("d"),
                _ => None,
            };
            Case { acdc, doc: m, kind, code, saidify: saidify && drop != 1, tail, cuts, grow, pretty }
        })
        .boxed()
}

// ---- bytes that are not the library's own -------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Foreign {
    doc: J,
    front: String,
    loose: bool,
    tail: B,
}
/// Well-formed JSON in other layouts: accepted as it is or refused, never misread.
fn foreign(c: &Foreign) -> R {
    let body = if c.loose { serde_json::to_string_pretty(&c.doc).unwrap() } else { compact(&c.doc) };
    let text = format!("{}{}", c.front, body);
    let Some(at) = (0..13).find(|i| text.as_bytes().get(*i..).is_some_and(|b| ver_at(b).is_some())) else {
        ensure!(call("new_with_raw", || Serder::new_with_raw(text.as_bytes()))?.is_err(), "accepted {text}");
        return okc(true, vec!["no version in front"]);
    };
    let v = ver_at(&text.as_bytes()[at..]).unwrap();
    let mut raw = text.clone().into_bytes();
    let t = ver_text(&Ver { size: raw.len() as u32, ident: "KERI".into(), ..v });
    raw[at..at + 17].copy_from_slice(t.as_bytes());
    let n = raw.len();
    let parsed: Option<J> = serde_json::from_slice(&raw).ok();
    raw.extend_from_slice(&c.tail.0);
    match call("new_with_raw", || Serder::new_with_raw(&raw))? {
        Err(_) => okc(true, vec!["refused"]),
        Ok(s) => {
            let Some(J::Object(d)) = parsed else { return Err(format!("accepted {}", String::from_utf8_lossy(&raw))) };
            ensure_eq!(B(s.raw()), B(raw[..n].to_vec()), "raw");
            ensure_eq!(s.size() as usize, n, "size");
            same_doc(&s.ked(), &d, "document")?;
            ensure_eq!(Some(must("said", || s.said())?.as_str()), d.get("d").and_then(|d| d.as_str()).map(|d| &d[..44.min(d.len())]), "SAID");
            event(&s, &d)?;
            okc(true, vec!["accepted"])
        }
    }
}
fn foreigns() -> BoxedStrategy<Foreign> {
    let obj = (event_doc(), bytes_n(32)).prop_map(|(d, b)| {
        let mut d = insert_at(&d, 0, "v", J::from("KERI10JSON000000_"));
        d.insert("d".into(), J::String(qualify("E", &b.0)));
        J::Object(d)
    });
    (
        prop_oneof![
            6 => obj,
            1 => json().prop_map(|j| json!(["KERI10JSON000000_", j])),
            1 => json().prop_map(|j| json!({"a": "KERI10JSON000000_", "d": j})),
            1 => Just(J::from("KERI10JSON000000_ and some text after it")),
            1 => json(),
        ],
        prop_oneof![6 => Just(String::new()), 1 => "[ \n\t]{0,9}", 1 => text()],
        any::<bool>(),
        tail(),
    )
        .prop_map(|(doc, front, loose, tail)| Foreign { doc, front, loose, tail })
        .boxed()
}

pub fn check() -> Check {
    Check {
        id: "C20",
        rule: "a document compared with the reference object (or refused for a stated reason), with its accessors, rebuilds, truncations and restatements; or foreign bytes judged",
        assumptions: vec![
            "building does not verify the SAID against the content (that is C11's operation); the SAID is what the document's d field holds",
            "a primitive followed by more text inside a field, and keys, next digests or witnesses that are no list, are left open (an empty list or an error); so is an empty or signed sequence number",
            "a credential without a subject field has no subject; the accessor cannot report an error and is not called",
        ],
        subs: vec![
            prop("objects", 80000, 2000000, case, run),
            prop("foreign bytes", 100000, 3000000, foreigns, foreign),
        ],
        probes: vec![Probe { key: "float-reparse", run: super::c18::float_probe }],
    }
}
