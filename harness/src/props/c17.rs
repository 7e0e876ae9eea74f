use super::c10::CODES;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::{Bext, Matter, Pather, Serder};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value as J};

fn plain(l: &str) -> bool {
    !l.is_empty() && l.bytes().all(|b| ALPHA.contains(&b) && b != b'-')
}
fn text_of(l: &[String]) -> String {
    format!("-{}", l.join("-"))
}
fn list_j(l: &[String]) -> J {
    J::from(l.to_vec())
}
fn path_is(p: &Pather, l: &[String], how: &str) -> Result<(), String> {
    let t = text_of(l);
    ensure_eq!(must("bext", || p.bext())?, t, "path from {how}: text");
    ensure_eq!(must("path", || p.path()?.to_json())?, compact(&list_j(l)), "path {t} from {how}: list");
    let m = bext(&t);
    let (q, b) = m.encode();
    ensure_eq!(must("qb64", || p.qb64())?, q, "path {t} from {how}: encoding");
    ensure_eq!(B(must("qb2", || p.qb2())?), B(b), "path {t} from {how}: binary");
    ensure_eq!(p.code(), m.code, "path {t} from {how}: code");
    Ok(())
}
fn path(l: &[String]) -> Result<Pather, String> {
    must("path", || Pather::new_with_path(&lib(&list_j(l))))
}
#[derive(Debug, PartialEq)]
enum Walk {
    Found(J),
    Missing,
    Open,
}
fn walk(doc: &J, l: &[String]) -> Walk {
    let mut at = doc;
    for c in l {
        let digits = c.bytes().all(|b| b.is_ascii_digit());
        let pos = if digits { c.parse::<u64>().ok() } else { None };
        let next = match at {
            J::Object(o) => match pos {
                Some(i) => o.values().nth(i.min(1 << 40) as usize),
                // a number no list could be this long for
                None if digits && o.contains_key(c) => return Walk::Open,
                None => o.get(c),
            },
            J::Array(a) => match pos {
                Some(i) => a.get(i.min(1 << 40) as usize),
                None => None,
            },
            _ => None,
        };
        match next {
            Some(v) => at = v,
            None => return Walk::Missing,
        }
    }
    Walk::Found(at.clone())
}
fn resolve_is(p: &Pather, doc: &J, l: &[String], how: &str) -> Result<bool, String> {
    let got = call("resolve", || p.resolve(&lib(doc)))?;
    match walk(doc, l) {
        Walk::Found(v) => {
            let g = got.map_err(|e| format!("path {} from {how} in {doc}: {e}", text_of(l)))?;
            ensure_eq!(g.to_json().map_err(|e| e.to_string())?, compact(&v), "path {} from {how} in {doc}", text_of(l));
            Ok(true)
        }
        Walk::Missing => {
            ensure!(got.is_err(), "path {} from {how} leads nowhere in {doc}, yet gave {:?}", text_of(l), got.map(|v| v.to_json().ok()));
            Ok(false)
        }
        Walk::Open => Ok(false),
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    doc: J,
    list: Vec<String>,
    root: Vec<String>,
    other: Vec<String>,
    /// how many leading components of the list to share with `other`
    share: usize,
    /// components given as integers where they are
    ints: bool,
}
fn run(c: &Case) -> R {
    let l = &c.list;
    let items: Vec<J> = l
        .iter()
        .map(|s| match s.parse::<i64>() {
            Ok(n) if c.ints && n.to_string() == *s => J::from(n),
            _ => J::from(s.clone()),
        })
        .collect();
    let p = must("path", || Pather::new_with_path(&lib(&J::Array(items))))?;
    path_is(&p, l, "list")?;
    let t = text_of(l);
    let (q, b) = bext(&t).encode();
    let mut found = false;
    for (how, x) in [
        ("text", must("bext", || Pather::new_with_bext(&t))?),
        ("qb64", must("qb64", || Pather::new_with_qb64(&q))?),
        ("qb64b", must("qb64b", || Pather::new_with_qb64b(q.as_bytes()))?),
        ("qb2", must("qb2", || Pather::new_with_qb2(&b))?),
        ("raw", must("raw", || Pather::new_with_raw(&p.raw(), Some(&p.code())))?),
        ("raw alone", must("raw", || Pather::new_with_raw(&p.raw(), None))?),
        ("new(path)", must("new", || Pather::new(Some(&p.path()?), None, None, None, None, None, None))?),
    ] {
        ensure_eq!(x, p, "path {t} from {how}");
        path_is(&x, l, how)?;
        found |= resolve_is(&x, &c.doc, l, how)?;
    }
    // root and strip
    let r = path(&c.root)?;
    let rooted = must("root", || p.root(&r))?;
    let mut both = c.root.clone();
    both.extend(l.clone());
    path_is(&rooted, &both, &format!("{t} under root {}", text_of(&c.root)))?;
    resolve_is(&rooted, &c.doc, &both, "root")?;
    let back = must("strip", || rooted.strip(&r))?;
    path_is(&back, l, &format!("{} stripped of {}", text_of(&both), text_of(&c.root)))?;
    ensure!(must("starts_with", || rooted.starts_with(&r))?, "{} starts with {}", text_of(&both), text_of(&c.root));
    let mut o: Vec<String> = l.iter().take(c.share % (l.len() + 1)).cloned().collect();
    o.extend(c.other.clone());
    let mut parts = 0;
    for (a, b) in [(l, &o), (&o, l), (l, &c.root), (&both, &o), (&o, &both), (l, l), (&both, l)] {
        let pa = path(a)?;
        let pb = path(b)?;
        let starts = a.len() >= b.len() && a[..b.len()] == b[..];
        ensure_eq!(must("starts_with", || pa.starts_with(&pb))?, starts, "{} starts with {}", text_of(a), text_of(b));
        let s = must("strip", || pa.strip(&pb))?;
        let want = if starts { a[b.len()..].to_vec() } else { a.clone() };
        path_is(&s, &want, &format!("{} stripped of {}", text_of(a), text_of(b)))?;
        parts += starts as usize;
    }
    okc(true, vec![if found { "resolves" } else { "leads nowhere" }.to_string(), format!("{parts} prefixes")])
}
fn label() -> BoxedStrategy<String> {
    prop_oneof![
        5 => prop_oneof![Just("a"), Just("b"), Just("d"), Just("i"), Just("x"), Just("ab"), Just("a_"), Just("A"), Just("aa")].prop_map(String::from),
        4 => (0usize..5).prop_map(|i| i.to_string()),
        1 => "[A-Za-z0-9_]{1,10}",
        1 => prop_oneof![Just("00"), Just("01"), Just("10"), Just("007"), Just("18446744073709551615"), Just("18446744073709551616"), Just("99999999999999999999999999"), Just("9223372036854775807")].prop_map(String::from),
    ]
    .boxed()
}
fn document() -> BoxedStrategy<J> {
    let lab = || prop_oneof![6 => label(), 1 => key()];
    scalar()
        .prop_recursive(5, 40, 5, move |inner| {
            prop_oneof![
                2 => vec(inner.clone(), 0..5).prop_map(J::Array),
                3 => vec((lab(), inner), 0..6).prop_map(|kv| J::Object(kv.into_iter().collect())),
            ]
        })
        .boxed()
}
/// a walk down the document, by label or position
fn descend(doc: &J, picks: &[(usize, bool)], cut: Option<usize>) -> Vec<String> {
    let mut at = doc;
    let mut out = vec![];
    for (n, (i, by_label)) in picks.iter().enumerate() {
        if Some(n) == cut {
            break;
        }
        match at {
            J::Object(o) if !o.is_empty() => {
                let i = i % o.len();
                let (k, v) = o.iter().nth(i).unwrap();
                out.push(if *by_label && plain(k) { k.clone() } else { i.to_string() });
                at = v;
            }
            J::Array(a) if !a.is_empty() => {
                let i = i % a.len();
                out.push(i.to_string());
                at = &a[i];
            }
            _ => break,
        }
    }
    out
}
fn lists() -> BoxedStrategy<Vec<String>> {
    prop_oneof![6 => vec(label(), 0..5), 1 => vec(label(), 0..20), 1 => (label(), 0usize..5).prop_map(|(l, n)| vec![l; n])].boxed()
}
fn case() -> BoxedStrategy<Case> {
    (document(), vec((any::<usize>(), any::<bool>()), 0..6), proptest::option::weighted(0.2, 0usize..5), vec(label(), 0..2), prop_oneof![1 => Just(None), 1 => lists().prop_map(Some)], lists(), lists(), any::<usize>(), any::<bool>())
        .prop_map(|(doc, picks, cut, extra, free, root, other, share, ints)| {
            let list = free.unwrap_or_else(|| {
                let mut l = descend(&doc, &picks, cut);
                l.extend(extra);
                l
            });
            Case { doc, list, root, other, share, ints }
        })
        .boxed()
}
/// lists that are not lists of labels or indices, and texts that are not paths
fn odd(c: &J) -> R {
    let r = call("path", || Pather::new_with_path(&lib(c)))?;
    let good = match c {
        J::Array(a) => a.iter().all(|e| match e {
            J::String(s) => plain(s),
            J::Number(n) => n.as_i64().is_some_and(|i| i >= 0),
            _ => false,
        }),
        _ => false,
    };
    if good {
        let l: Vec<String> = c.as_array().unwrap().iter().map(|e| e.as_str().map(String::from).unwrap_or_else(|| e.to_string())).collect();
        path_is(&r.map_err(|e| format!("path list {c}: {e}"))?, &l, "list")?;
        return okc(true, vec!["path"]);
    }
    ensure!(r.is_err(), "path list {c} cannot be carried, yet gave {:?}", r.map(|p| p.bext().ok()));
    okc(true, vec!["refused"])
}
fn odds() -> BoxedStrategy<J> {
    let item = prop_oneof![6 => label().prop_map(J::from), 1 => "[A-Za-z0-9_-]{0,6}".prop_map(J::from), 1 => (-3i64..5).prop_map(J::from), 1 => any::<i64>().prop_map(J::from), 1 => scalar(), 1 => json(), 1 => text().prop_map(J::from)];
    prop_oneof![8 => vec(item, 0..5).prop_map(J::Array), 1 => json(), 1 => Just(J::from("a"))].boxed()
}
fn path_text(c: &(String, J)) -> R {
    let (t, doc) = c;
    let r = call("bext", || Pather::new_with_bext(t))?;
    if !t.bytes().all(|b| ALPHA.contains(&b)) {
        ensure!(r.is_err(), "path text {t:?} outside the alphabet was accepted");
        return okc(true, vec!["refused"]);
    }
    let Ok(p) = r else { return ok(false) };
    let other = path(&["a".into()])?;
    let l: Vec<String> = match t.strip_prefix('-') {
        Some("") => vec![],
        Some(r) => r.split('-').map(String::from).collect(),
        None => {
            // not a path: nothing reads it as one
            if t.len() % 4 != 0 || !t.starts_with('A') {
                must_err("path", || p.path().map(|v| v.to_json().ok()))?;
                must_err("resolve", || p.resolve(&lib(doc)).map(|v| v.to_json().ok()))?;
                must_err("root", || other.root(&p).map(|v| v.bext().ok()))?;
                must_err("strip", || p.strip(&other).map(|v| v.bext().ok()))?;
            }
            return okc(true, vec!["no path"]);
        }
    };
    if l.iter().all(|c| plain(c)) {
        path_is(&p, &l, "text")?;
        resolve_is(&p, doc, &l, "text")?;
        return okc(true, vec!["path"]);
    }
    // empty components: left open, without panics
    call("path", || p.path())?.ok();
    call("resolve", || p.resolve(&lib(doc)))?.ok();
    call("root", || p.root(&other))?.ok();
    call("root", || other.root(&p))?.ok();
    call("strip", || p.strip(&other))?.ok();
    call("strip", || other.strip(&p))?.ok();
    call("starts_with", || p.starts_with(&other))?.ok();
    okc(false, vec!["empty components"])
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Tail {
    doc: Map<String, J>,
    list: Vec<String>,
}
fn tail(c: &Tail) -> R {
    let mut d = c.doc.clone();
    d = insert_at(&d, 0, "v", J::from("KERI10JSON000000_"));
    let (_, d) = said_model(&d, "E", "d", &[]).ok_or("case has no SAID")?;
    let s = must("serder", || Serder::new_with_ked(&libm(&d), None, None))?;
    let p = path(&c.list)?;
    let got = call("tail", || p.tail(&s))?;
    let t = text_of(&c.list);
    let want = match walk(&J::Object(d), &c.list) {
        Walk::Found(v) => match &v {
            J::Object(_) | J::Array(_) => Some(compact(&v)),
            J::String(x) => match matter_parse(x.as_bytes()) {
                Some(m) if CODES.contains(&m.code.as_str()) && m.encode().0 == *x => Some(x.clone()),
                _ => None,
            },
            _ => None,
        },
        Walk::Missing => None,
        Walk::Open => return ok(false),
    };
    match (want, got) {
        (Some(w), Ok(g)) => ensure_eq!(g, w, "tail of {t}"),
        (Some(w), Err(e)) => return Err(format!("tail of {t} is {w}, but: {e}")),
        (None, Ok(g)) => return Err(format!("tail of {t}: got {g:?}, expected an error")),
        (None, Err(_)) => return okc(true, vec!["no tail"]),
    }
    okc(true, vec!["tail"])
}
fn tails() -> BoxedStrategy<Tail> {
    let leaf = prop_oneof![3 => super::c12::digest_text(), 1 => super::c12::key_text(), 1 => super::c12::digest_text().prop_map(|j| { let s = j.as_str().unwrap(); J::from(&s[..s.len() - 1]) }), 2 => scalar(), 1 => (super::c12::digest_text(), "[A-Za-z0-9_-]{1,8}|[A-Za-z0-9_-]{44}|[ =.]").prop_map(|(j, t)| J::from(format!("{}{t}", j.as_str().unwrap())))].boxed();
    let v = leaf
        .prop_recursive(3, 16, 4, |inner| {
            prop_oneof![
                1 => vec(inner.clone(), 0..4).prop_map(J::Array),
                2 => vec((label(), inner), 0..4).prop_map(|kv| J::Object(kv.into_iter().collect())),
            ]
        })
        .boxed();
    (vec((label(), v), 1..6), vec((any::<usize>(), any::<bool>()), 0..4), vec(label(), 0..2), 0u8..4)
        .prop_map(|(kv, picks, extra, e)| {
            let mut doc: Map<String, J> = kv.into_iter().filter(|(k, _)| k != "v").collect();
            doc.insert("d".into(), J::from(""));
            let mut full = doc.clone();
            full = insert_at(&full, 0, "v", J::from("KERI10JSON000000_"));
            let mut list = descend(&J::Object(full), &picks, None);
            if e == 0 {
                list.extend(extra);
            }
            Tail { doc, list }
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C17",
        rule: "a path compared in list, text and encodings, resolved against a document by the reference walk, and rooted, stripped and compared with other paths; or one that must be refused",
        assumptions: vec![
            "labels are non-empty Base64 text without the separating dash; texts with empty components are left open (no panic)",
            "a number too large for a position is left open where a field of that name exists",
        ],
        subs: vec![
            prop("paths", 100000, 2000000, case, run),
            prop("odd lists", 1000000, 20000000, odds, odd),
            prop("path texts", 300000, 5000000, || (prop_oneof![4 => "-[A-Za-z0-9_]{1,3}(-[A-Za-z0-9_]{1,3}){0,4}", 2 => "[a0-]{0,8}", 1 => "[A-Za-z0-9_-]{0,12}", 1 => junk_text()], document()), path_text),
            prop("tails", 200000, 4000000, tails, tail),
        ],
        probes: vec![],
    }
}
