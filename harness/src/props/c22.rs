//! Nothing that can report failure panics, and a failure changes nothing for later calls.
use super::args::*;
use super::c07::seed;
use super::c09::{hopeless, huge};
use super::c13::well_formed;
use super::c14::odd;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::{ensure, ensure_eq};
use cesride::common::{deversify, sizeify, sniff, versify, Version};
use cesride::data::Value;
use cesride::{Bext, Bexter, Cigar, Counter, Creder, Dater, Diger, Indexer, Matter, Number, Pather, Prefixer, Sadder, Saider, Salter, Seqner, Serder, Siger, Signer, Tholder, Verfer};
use std::result::Result;
use proptest::collection::vec;
use proptest::option::of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;

pub type Name = Option<String>;
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Make(usize, Args),
    Idx(usize, Args),
    Count { count: Option<u32>, b64: Name, code: Name, qb64b: Option<B>, qb64: Name, qb2: Option<B>, length: usize },
    SemVer(String, (u8, u8, u8)),
    /// a key of any form asked to verify anything
    Verify { key: B, code: String, sig: B, ser: B },
    Sign { suite: usize, seed: B, transferable: Option<bool>, ser: B, only: bool, index: u32, ondex: Option<u32> },
    Salt { salt: B, tier: Name, over: Name, temp: Option<bool>, size: Option<usize>, path: Name, code: Name, count: Option<usize>, start: Option<usize> },
    Digest { made: Args, ser: B, dig: Option<B>, other: Option<Args> },
    Said { doc: J, code: Name, kind: Name, label: Name, ignore: Option<Vec<String>>, prefixed: Option<bool>, versioned: Option<bool>, other: J },
    Prefix { doc: J, allows: Option<Vec<String>>, code: Name, text: String, prefixed: Option<bool>, other: J },
    Path { path: J, bext: String, text: String, doc: J, raw: J },
    Threshold { thold: Option<J>, limen: Option<B>, sith: Option<J>, indices: Vec<u32> },
    Event { acdc: bool, doc: J, code: Name, kind: Name, raw: B, pretty: Option<usize> },
    Versify { ident: Name, major: u8, minor: u8, kind: Name, size: Option<u32> },
    Deversify(String),
    Sizeify(J, Name),
    Sniff(B),
    /// objects whose parts do not belong together
    Odd { ty: u8, code: String, raw: B, size: u32, index: u32, ondex: u32, msg: B },
    Convert(J),
}
fn s<T: std::fmt::Debug>(out: &mut Vec<String>, what: &str, r: cesride::Result<T>) -> bool {
    let ok = r.is_ok();
    out.push(match r {
        Ok(v) => format!("{what}: {v:?}"),
        Err(e) => format!("{what}: error {e}"),
    });
    ok
}
fn sigil<'a>(w: &'a Option<Vec<String>>) -> Option<Vec<&'a str>> {
    w.as_ref().map(|w| w.iter().map(|s| s.as_str()).collect())
}
macro_rules! odd_matter {
    ($out:expr, $m:expr, $code:expr, $raw:expr, $size:expr) => {{
        let mut m = $m;
        m.set_code($code);
        m.set_raw($raw);
        m.set_size($size);
        s($out, "qb64", m.qb64());
        s($out, "qb64b", m.qb64b());
        s($out, "qb2", m.qb2());
        s($out, "infil", m.infil());
        s($out, "binfil", m.binfil());
        s($out, "full_size", m.full_size());
        $out.push(format!("{} {}", m.digestive(), m.transferable()));
        m
    }};
}
/// everything the operation gives, errors included; the text is the same for the same calls
pub fn exec(op: &Op) -> (Vec<String>, bool) {
    let mut out = vec![];
    let o = &mut out;
    let ok = match op {
        Op::Make(ty, a) => match make(*ty, a) {
            Ok(x) => {
                // material drawn afresh differs from call to call
                let fresh = matches!(ty, 1 | 2) && a.raw.is_none() && a.qb64b.is_none() && a.qb64.is_none() && a.qb2.is_none();
                let now = *ty == 9 && a.text.is_none();
                o.push(if fresh || now { x.code } else { format!("{x:?}") });
                true
            }
            Err(e) => s(o, "make", Err::<(), _>(e)),
        },
        Op::Idx(ty, a) => s(o, "make", make_idx(*ty, a)),
        Op::Count { count, b64, code, qb64b, qb64, qb2, length } => {
            let c = Counter::new(*count, b64.as_deref(), code.as_deref(), qb64b.as_ref().map(|b| &b.0[..]), qb64.as_deref(), qb2.as_ref().map(|b| &b.0[..]));
            if let Ok(c) = &c {
                s(o, "count text", c.count_as_b64(*length));
                s(o, "text", c.qb64());
                s(o, "binary", c.qb2());
                s(o, "size", c.full_size());
            }
            s(o, "counter", c)
        }
        Op::SemVer(t, (a, b, c)) => s(o, "version text", Counter::sem_ver_str_to_b64(t)) & s(o, "version", Counter::sem_ver_to_b64(*a, *b, *c)),
        Op::Verify { key, code, sig, ser } => match Verfer::new_with_raw(&key.0, Some(code)) {
            Ok(v) => s(o, "verify", v.verify(&sig.0, &ser.0)),
            Err(e) => s(o, "verfer", Err::<(), _>(e)),
        },
        Op::Sign { suite, seed, transferable, ser, only, index, ondex } => {
            match Signer::new(*transferable, Some(["A", "J", "Q"][*suite % 3]), Some(&seed.0), None, None, None) {
                Ok(x) => {
                    let c = x.sign_unindexed(&ser.0);
                    if let Ok(c) = &c {
                        s(o, "check", c.verfer().verify(&c.raw(), &ser.0));
                    }
                    // signatures are randomised: only what they are is compared
                    s(o, "unindexed", c.map(|c| (c.code(), c.verfer())));
                    s(o, "indexed", x.sign_indexed(&ser.0, *only, *index, *ondex).map(|x| (x.code(), x.index(), x.ondex(), x.verfer())))
                }
                Err(e) => s(o, "signer", Err::<(), _>(e)),
            }
        }
        Op::Salt { salt, tier, over, temp, size, path, code, count, start } => match Salter::new(tier.as_deref(), None, Some(&salt.0), None, None, None) {
            Ok(x) => {
                s(o, "stretch", x.stretch(*size, path.as_deref(), over.as_deref(), *temp))
                    & s(o, "signer", x.signer(code.as_deref(), None, path.as_deref(), over.as_deref(), *temp))
                    & s(o, "signers", x.signers(*count, *start, path.as_deref(), code.as_deref(), None, over.as_deref(), *temp))
            }
            Err(e) => s(o, "salter", Err::<(), _>(e)),
        },
        Op::Digest { made, ser, dig, other } => {
            let diger = |a: &Args| {
                Diger::new(
                    a.ser.as_ref().map(|b| &b.0[..]),
                    a.code.as_deref(),
                    a.raw.as_ref().map(|b| &b.0[..]),
                    a.qb64b.as_ref().map(|b| &b.0[..]),
                    a.qb64.as_deref(),
                    a.qb2.as_ref().map(|b| &b.0[..]),
                )
            };
            let other = other.as_ref().map(diger);
            match diger(made) {
                Ok(d) => {
                    let other = match &other {
                        Some(Ok(x)) => Some(x),
                        _ => None,
                    };
                    s(o, "verify", d.verify(&ser.0)) & s(o, "compare", d.compare(&ser.0, dig.as_ref().map(|b| &b.0[..]), other))
                }
                Err(e) => s(o, "diger", Err::<(), _>(e)),
            }
        }
        Op::Said { doc, code, kind, label, ignore, prefixed, versioned, other } => {
            let ig = sigil(ignore);
            let r = Saider::saidify(&lib(doc), code.as_deref(), kind.as_deref(), label.as_deref(), ig.as_deref());
            if let Ok((x, d)) = &r {
                s(o, "verify its own", x.verify(d, *prefixed, *versioned, kind.as_deref(), label.as_deref(), ig.as_deref()));
                s(o, "verify other", x.verify(&lib(other), *prefixed, *versioned, kind.as_deref(), label.as_deref(), ig.as_deref()));
            }
            s(o, "saider", Saider::new(Some(&lib(doc)), label.as_deref(), kind.as_deref(), ig.as_deref(), code.as_deref(), None, None, None, None));
            s(o, "saidify", r)
        }
        Op::Prefix { doc, allows, code, text, prefixed, other } => {
            let al = sigil(allows);
            let p = Prefixer::new_with_ked(&lib(doc), al.as_deref(), code.as_deref());
            if let Ok(p) = &p {
                s(o, "verify its own", p.verify(&lib(doc), *prefixed));
                s(o, "verify other", p.verify(&lib(other), *prefixed));
            }
            if let Ok(p) = Prefixer::new_with_qb64(text) {
                s(o, "verify given", p.verify(&lib(doc), *prefixed));
            }
            s(o, "prefixer", p)
        }
        Op::Path { path, bext, text, doc, raw } => {
            let ps: Vec<_> = [Pather::new_with_path(&lib(path)), Pather::new_with_bext(bext), Pather::new_with_qb64(text)].into_iter().collect();
            let serder = Serder::new_with_ked(&lib(raw), None, None);
            let mut any = false;
            for p in ps.iter().flatten() {
                any = true;
                s(o, "path", p.path());
                s(o, "bext", p.bext());
                s(o, "resolve", p.resolve(&lib(doc)));
                if let Ok(x) = &serder {
                    s(o, "tail", p.tail(x));
                }
                for q in ps.iter().flatten() {
                    s(o, "root", p.root(q));
                    s(o, "strip", p.strip(q));
                    s(o, "starts with", p.starts_with(q));
                }
            }
            for p in ps {
                any &= s(o, "pather", p);
            }
            any
        }
        Op::Threshold { thold, limen, sith, indices } => {
            let t = Tholder::new(thold.as_ref().map(lib).as_ref(), limen.as_ref().map(|b| &b.0[..]), sith.as_ref().map(lib).as_ref());
            if let Ok(t) = &t {
                o.push(format!("{:?} {} {}", t.thold(), t.weighted(), t.size()));
                s(o, "num", t.num());
                s(o, "number", Ok(t.number()));
                s(o, "bexter", Ok(t.bexter()));
                s(o, "limen", t.limen());
                s(o, "sith", t.sith());
                s(o, "json", t.to_json());
                s(o, "satisfy", t.satisfy(indices));
            }
            s(o, "tholder", t)
        }
        Op::Event { acdc, doc, code, kind, raw, pretty } => {
            let d = lib(doc);
            let mut ok = true;
            if *acdc {
                let made = [Creder::new_with_ked(&d, code.as_deref(), kind.as_deref()), Creder::new_with_raw(&raw.0), Creder::new(code.as_deref(), Some(&raw.0), None, None, None), Creder::new(None, None, None, None, None)];
                for c in made.iter().flatten() {
                    s(o, "issuer", c.issuer());
                    s(o, "schema", c.schema());
                    s(o, "status", c.status());
                    s(o, "chains", c.chains());
                    s(o, "said", c.said());
                    s(o, "saidb", c.saidb());
                    s(o, "pretty", c.pretty(*pretty));
                }
                for c in made {
                    ok &= s(o, "creder", c);
                }
            } else {
                let made = [Serder::new_with_ked(&d, code.as_deref(), kind.as_deref()), Serder::new_with_raw(&raw.0), Serder::new(code.as_deref(), Some(&raw.0), None, None, None), Serder::new(None, None, None, None, None)];
                for c in made.iter().flatten() {
                    s(o, "keys", c.verfers());
                    s(o, "digests", c.digers());
                    s(o, "witnesses", c.werfers());
                    s(o, "threshold", c.tholder());
                    s(o, "next threshold", c.ntholder());
                    s(o, "sner", c.sner());
                    s(o, "sn", c.sn());
                    s(o, "fner", c.fner());
                    s(o, "fn", c._fn());
                    s(o, "pre", c.pre());
                    s(o, "preb", c.preb());
                    s(o, "est", c.est());
                    s(o, "said", c.said());
                    s(o, "saidb", c.saidb());
                    s(o, "pretty", c.pretty(*pretty));
                }
                for c in made {
                    ok &= s(o, "serder", c);
                }
            }
            ok
        }
        Op::Versify { ident, major, minor, kind, size } => {
            let v = Version { major: *major, minor: *minor };
            s(o, "versify", versify(ident.as_deref(), Some(&v), kind.as_deref(), *size))
        }
        Op::Deversify(t) => s(o, "deversify", deversify(t).map(|r| (r.ident, r.kind, r.version, r.size))),
        Op::Sizeify(d, kind) => s(o, "sizeify", sizeify(&lib(d), kind.as_deref()).map(|r| (r.raw, r.ident, r.kind, r.ked, r.version))),
        Op::Sniff(b) => s(o, "sniff", sniff(&b.0).map(|r| (r.ident, r.kind, r.version, r.size))),
        Op::Odd { ty, code, raw, size, index, ondex, msg } => {
            let (c, r, n) = (code.as_str(), &raw.0[..], *size);
            match ty % 14 {
                0 => {
                    let v = odd_matter!(o, Verfer::default(), c, r, n);
                    s(o, "verify", v.verify(&msg.0, &msg.0))
                }
                1 => {
                    let x = odd_matter!(o, Signer::default(), c, r, n);
                    s(o, "sign", x.sign_unindexed(&msg.0).map(|c| c.code())) & s(o, "sign indexed", x.sign_indexed(&msg.0, index % 2 == 0, *index, Some(*ondex)).map(|c| c.code()))
                }
                2 => {
                    let x = odd_matter!(o, Salter::default(), c, r, n);
                    s(o, "stretch", x.stretch(Some(*size as usize % 100), Some("p"), None, Some(true))) & s(o, "signer", x.signer(Some(c), None, None, None, Some(true)))
                }
                3 => {
                    odd_matter!(o, Cigar::default(), c, r, n);
                    false
                }
                4 => {
                    let d = odd_matter!(o, Diger::default(), c, r, n);
                    s(o, "compare", d.compare(&msg.0, Some(&msg.0), None)) & s(o, "verify", d.verify(&msg.0))
                }
                5 => {
                    let d = odd_matter!(o, Saider::default(), c, r, n);
                    let doc = lib(&serde_json::json!({"d": "", "x": code}));
                    s(o, "verify", d.verify(&doc, None, None, None, None, None))
                }
                6 => {
                    let p = odd_matter!(o, Prefixer::default(), c, r, n);
                    let doc = lib(&serde_json::json!({"v": "KERI10JSON000000_", "t": "icp", "i": "", "k": [code]}));
                    s(o, "verify", p.verify(&doc, None))
                }
                7 => {
                    let x = odd_matter!(o, Number::default(), c, r, n);
                    s(o, "num", x.num()) & s(o, "numh", x.numh()) & s(o, "positive", x.positive())
                }
                8 => {
                    let x = odd_matter!(o, Seqner::default(), c, r, n);
                    s(o, "sn", x.sn()) & s(o, "snh", x.snh())
                }
                9 => {
                    let x = odd_matter!(o, Dater::default(), c, r, n);
                    s(o, "dts", x.dts()) & s(o, "dtsb", x.dtsb())
                }
                10 => {
                    let x = odd_matter!(o, Bexter::default(), c, r, n);
                    s(o, "bext", x.bext())
                }
                11 => {
                    let x = odd_matter!(o, Pather::default(), c, r, n);
                    s(o, "bext", x.bext()) & s(o, "path", x.path()) & s(o, "resolve", x.resolve(&lib(&serde_json::json!({"a": [1]})))) & s(o, "root", x.root(&x)) & s(o, "strip", x.strip(&x))
                }
                12 => {
                    odd_matter!(o, Bare::default(), c, r, n);
                    false
                }
                _ => {
                    let mut x = Siger::default();
                    x.set_code(c);
                    x.set_raw(r);
                    x.set_index(*index);
                    x.set_ondex(*ondex);
                    s(o, "qb64", x.qb64()) & s(o, "qb64b", x.qb64b()) & s(o, "qb2", x.qb2()) & s(o, "size", x.full_size())
                }
            }
        }
        Op::Convert(j) => {
            let v = lib(j);
            s(o, "bool", v.to_bool());
            s(o, "text", v.to_string());
            s(o, "i64", v.to_i64());
            s(o, "f64", v.to_f64());
            s(o, "list", v.to_vec());
            s(o, "map", v.to_map());
            s(o, "String", String::try_from(&v));
            s(o, "i64", i64::try_from(&v));
            s(o, "f64", f64::try_from(&v));
            s(o, "bool", bool::try_from(&v));
            s(o, "list", Vec::<Value>::try_from(&v));
            s(o, "json", v.to_json())
        }
    };
    (out, ok)
}
pub fn name(op: &Op) -> String {
    let t = format!("{op:?}");
    let n: String = t.chars().take_while(|c| c.is_alphanumeric()).collect();
    match op {
        Op::Make(ty, _) => format!("{n} {}", TYPES.get(*ty).map_or("Bare", |t| t.name)),
        _ => n,
    }
}
fn run(ops: &Vec<Op>) -> R {
    let mut first = vec![];
    let mut classes = vec![];
    let mut failed = false;
    for op in ops {
        let (r, ok) = no_panic(|| exec(op)).map_err(|m| format!("{}: {m}", name(op)))?;
        failed |= r.iter().any(|l| l.contains(": error "));
        classes.push(format!("{} {}", name(op), if ok { "ok" } else { "error" }));
        first.push(r);
    }
    for (i, op) in ops.iter().enumerate().rev() {
        let (r, _) = no_panic(|| exec(op)).map_err(|m| format!("{} again: {m}", name(op)))?;
        for (a, b) in first[i].iter().zip(&r) {
            ensure_eq!(a, b, "{}: not the same after other calls", name(op));
        }
        ensure_eq!(r.len(), first[i].len(), "{}: other results after other calls", name(op));
    }
    okc(failed, classes)
}
// ---- failing updates of an existing object leave it as it was --------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Update {
    /// a good object
    ty: u8,
    p: MPrimJ,
    idx: (String, u32, u32, B),
    doc: J,
    /// what it is asked to load
    text: String,
    bin: B,
    bad: J,
    raw: B,
    kind: String,
}
type MPrimJ = (String, u32, B);
fn update(c: &Update) -> R {
    let kept = |what: &str, same: bool, failed: bool| -> Result<(), String> {
        ensure!(!failed || same, "{what} failed and changed the object");
        Ok(())
    };
    let mut fails = 0;
    match c.ty % 4 {
        0 => {
            let mut m = Bare::default();
            m.set_code(&c.p.0);
            m.set_size(c.p.1);
            m.set_raw(&c.p.2 .0);
            let was = m.clone();
            let r = call("exfil", || m.exfil(&c.text))?;
            kept("exfil", m == was, r.is_err())?;
            fails += r.is_err() as u32;
            m = was.clone();
            let r = call("bexfil", || m.bexfil(&c.bin.0))?;
            kept("bexfil", m == was, r.is_err())?;
            fails += r.is_err() as u32;
        }
        1 => {
            let mut m = BareIdx { code: c.idx.0.clone(), index: c.idx.1, ondex: c.idx.2, raw: c.idx.3 .0.clone() };
            let was = m.clone();
            let r = call("exfil", || m.exfil(&c.text))?;
            kept("indexed exfil", m == was, r.is_err())?;
            fails += r.is_err() as u32;
            m = was.clone();
            let r = call("bexfil", || m.bexfil(&c.bin.0))?;
            kept("indexed bexfil", m == was, r.is_err())?;
            fails += r.is_err() as u32;
        }
        _ => {
            macro_rules! sad {
                ($t:ty) => {{
                    let mut x = match call("build", || <$t>::new_with_ked(&lib(&c.doc), None, None))? {
                        Ok(x) => x,
                        Err(_) => return okc(false, vec!["no object"]),
                    };
                    let was = x.clone();
                    let r = call("populate_from_raw", || x.populate_from_raw(&c.raw.0))?;
                    kept("populate_from_raw", x == was, r.is_err())?;
                    fails += r.is_err() as u32;
                    x = was.clone();
                    let r = call("populate_from_ked", || x.populate_from_ked(&lib(&c.bad), None))?;
                    kept("populate_from_ked", x == was, r.is_err())?;
                    fails += r.is_err() as u32;
                    x = was.clone();
                    let r = call("populate_from_kind_and_self", || x.populate_from_kind_and_self(&c.kind))?;
                    kept("populate_from_kind_and_self", x == was, r.is_err())?;
                    fails += r.is_err() as u32;
                }};
            }
            if c.ty % 4 == 2 {
                sad!(Serder)
            } else {
                sad!(Creder)
            }
        }
    }
    okc(fails > 0, vec![format!("{} {}", ["primitive", "indexed", "event", "credential"][(c.ty % 4) as usize], if fails > 0 { "refused" } else { "loaded" })])
}
/// a document made self-addressing, with another digest code now and then
pub fn said_doc(d: BoxedStrategy<J>) -> BoxedStrategy<J> {
    (d, prop_oneof![6 => Just("E"), 1 => Just("F"), 1 => Just("I")])
        .prop_map(|(d, code)| match &d {
            J::Object(m) => said_model(m, code, "d", &[]).map(|(_, m)| J::Object(m)).unwrap_or(d),
            _ => d,
        })
        .boxed()
}
fn updates() -> BoxedStrategy<Update> {
    let good = said_doc(prop_oneof![
        super::c20::event_doc().prop_map(|m| J::Object(insert_at(&m, 0, "v", "KERI10JSON000000_".into()))),
        super::c20::cred_doc().prop_map(|m| J::Object(insert_at(&m, 0, "v", "ACDC10JSON000000_".into()))),
    ]
    .boxed());
    let bad = prop_oneof![said_doc(any_doc()), any_doc()].boxed();
    (
        0u8..4,
        small_mprim().prop_map(|p| (p.code, p.size, B(p.raw))),
        iprim(false).prop_map(|p| (p.code, p.index, p.ondex, B(p.raw))),
        good,
        any_text(),
        any_bin(),
        bad,
        raw_event(),
        prop_oneof![2 => Just("JSON".to_string()), 1 => any_word()],
    )
        .prop_map(|(ty, p, idx, doc, text, bin, bad, raw, kind)| Update { ty, p, idx, doc, text, bin, bad, raw, kind })
        .boxed()
}
// ---- generators ------------------------------------------------------------------------------------
fn opt(s: BoxedStrategy<String>) -> BoxedStrategy<Name> {
    of(s).boxed()
}
fn kind() -> BoxedStrategy<Name> {
    prop_oneof![3 => Just(None), 3 => Just(Some("JSON".to_string())), 1 => prop_oneof![Just("MGPK"), Just("CBOR"), Just("json"), Just("")].prop_map(|s| Some(s.to_string())), 1 => opt(text())].boxed()
}
fn digest_code() -> BoxedStrategy<String> {
    prop_oneof![4 => proptest::sample::select(super::c10::CODES.to_vec()).prop_map(String::from), 1 => any_code()].boxed()
}
/// serialized events, with the size right or wrong, cut, extended and garbled
fn raw_event() -> BoxedStrategy<B> {
    let sized = prop_oneof![said_doc(any_doc()), any_doc()].prop_map(|d| match &d {
        J::Object(m) => size_doc(m).map(|(_, t)| t).unwrap_or_else(|| compact(&d)),
        _ => compact(&d),
    });
    prop_oneof![
        5 => (sized.clone(), super::c19::tail()).prop_map(|(t, tail)| { let mut b = t.into_bytes(); b.extend(tail.0); B(b) }),
        3 => (sized.clone(), bmuts()).prop_map(|(t, m)| B(bapply(t.as_bytes(), &m))),
        1 => (sized, any::<usize>()).prop_map(|(t, n)| { let b = t.into_bytes(); let n = n % (b.len() + 1); B(b[..n].to_vec()) }),
        1 => bytes(0..=60),
    ]
    .boxed()
}
fn path_list() -> BoxedStrategy<J> {
    prop_oneof![
        5 => vec(prop_oneof![4 => "[a-zA-Z0-9_]{1,5}".prop_map(J::from), 2 => (0u32..12).prop_map(|n| J::from(n.to_string())), 1 => (-3i64..12).prop_map(J::from), 1 => scalar()], 0..5).prop_map(J::Array),
        1 => json(),
    ]
    .boxed()
}
fn cheap_tier() -> BoxedStrategy<(Name, Name, Option<bool>)> {
    let bad = prop_oneof!["[a-z]{0,5}", Just("LOW".to_string())].prop_map(|s| Some(if ["low", "med", "high"].contains(&s.as_str()) { "nope".into() } else { s }));
    let min = Just(Some("min".to_string()));
    prop_oneof![
        3 => (opt(any_word()), opt(any_word()), Just(Some(true))),
        2 => (opt(any_word()), min, Just(Some(false))),
        1 => (opt(any_word()), bad, Just(None)),
    ]
    .boxed()
}
pub fn op() -> BoxedStrategy<Op> {
    let make = (0..TYPES.len() + 1, prop_oneof![args(0.15), args(0.4)]).prop_map(|(t, a)| Op::Make(t, a));
    let idx = (0usize..2, prop_oneof![args(0.2), args(0.4)]).prop_map(|(t, a)| Op::Idx(t, a));
    let count = (of(index_like()), opt(any_text()), of(prop_oneof![4 => proptest::sample::select(COUNTER.iter().map(|c| c.0.to_string()).collect::<Vec<_>>()), 1 => any_code()]), of(any_bytes()), opt(any_text()), of(any_bin()), prop_oneof![4 => 0usize..12, 3 => 0usize..300, 1 => (40u32..64).prop_map(|b| 1usize << b), 1 => Just(usize::MAX), 1 => any::<u64>().prop_map(|n| (n | 1 << 45) as usize)])
        .prop_map(|(count, b64, code, qb64b, qb64, qb2, length)| Op::Count { count, b64, code, qb64b, qb64, qb2, length });
    let semver = (prop_oneof!["[0-9]{0,3}(\\.[0-9]{0,3}){0,3}", any::<String>()], any::<(u8, u8, u8)>()).prop_map(|(t, v)| Op::SemVer(t, v));
    let verify = (any_raw(), prop_oneof![4 => proptest::sample::select(vec!["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]).prop_map(String::from), 1 => any_code()], any_raw(), bytes(0..=40))
        .prop_map(|(key, code, sig, ser)| Op::Verify { key, code, sig, ser });
    let sign = (0usize..3, prop_oneof![4 => seed(), 1 => any_raw()], any::<Option<bool>>(), bytes(0..=60), any::<bool>(), index_like(), of(index_like()))
        .prop_map(|(suite, seed, transferable, ser, only, index, ondex)| Op::Sign { suite, seed, transferable, ser, only, index, ondex });
    let salt = (prop_oneof![6 => bytes_n(16), 1 => any_raw()], cheap_tier(), of(prop_oneof![4 => 0usize..80, 1 => Just(usize::MAX), 1 => Just(1usize << 32), 1 => Just(usize::MAX / 2 + 1)]), opt(text()), of(prop_oneof![3 => Just("A".to_string()), 1 => Just("J".into()), 1 => Just("Q".into()), 2 => any_code()]), of(0usize..3), of(prop_oneof![4 => 0usize..20, 1 => Just(usize::MAX), 1 => Just(usize::MAX - 1)]), of(huge()))
        .prop_map(|(salt, (tier, over, temp), size, path, code, count, start, huge)| {
            let count = if hopeless(&code, start) { huge.or(count) } else { count };
            Op::Salt { salt, tier, over, temp, size, path, code, count, start }
        });
    let digest = (prop_oneof![args(0.3), (digest_code(), bytes(0..=40)).prop_map(|(c, b)| Args { code: Some(c), ser: Some(b), ..Args::default() })], bytes(0..=40), of(any_bytes()), of(args(0.3)))
        .prop_map(|(made, ser, dig, other)| Op::Digest { made, ser, dig, other });
    let labels = || of(vec(prop_oneof![3 => key(), 1 => Just("d".to_string()), 1 => Just("v".to_string()), 1 => Just("i".to_string())], 0..4));
    let said = (any_doc(), of(digest_code()), kind(), of(prop_oneof![3 => Just("d".to_string()), 1 => Just("i".to_string()), 1 => key()]), labels(), any::<Option<bool>>(), any::<Option<bool>>(), any_doc())
        .prop_map(|(doc, code, kind, label, ignore, prefixed, versioned, other)| Op::Said { doc, code, kind, label, ignore, prefixed, versioned, other });
    let prefix = (any_doc(), of(vec(prop_oneof![digest_code(), any_code()], 0..4)), of(prop_oneof![2 => digest_code(), 2 => proptest::sample::select(vec!["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]).prop_map(String::from), 1 => any_code()]), any_text(), any::<Option<bool>>(), any_doc())
        .prop_map(|(doc, allows, code, text, prefixed, other)| Op::Prefix { doc, allows, code, text, prefixed, other });
    let path = (path_list(), any_word(), prop_oneof![2 => any_text(), 1 => "[A-Za-z0-9_-]{0,20}".prop_map(|t| bext(&t).encode().0)], any_doc(), said_doc(any_doc()))
        .prop_map(|(path, bext, text, doc, raw)| Op::Path { path, bext, text, doc, raw });
    let expr = || prop_oneof![2 => well_formed(), 4 => odd(), 1 => json()];
    let threshold = (prop_oneof![(expr().prop_map(Some), Just(None), Just(None)).boxed(), (Just(None), Just(None), expr().prop_map(Some)).boxed(), (Just(None), any_bytes().prop_map(Some), Just(None)).boxed(), (of(expr()), of(any_bytes()), of(expr())).boxed(), (Just(None), "[0-9sca]{1,16}".prop_map(|t| Some(B(bext(&t).encode().0.into_bytes()))), Just(None)).boxed()], vec(prop_oneof![3 => 0u32..10, 1 => any::<u32>()], 0..8))
        .prop_map(|((thold, limen, sith), indices)| Op::Threshold { thold, limen, sith, indices });
    let event = (any::<bool>(), prop_oneof![said_doc(any_doc()), any_doc()], of(digest_code()), kind(), raw_event(), of(prop_oneof![3 => 0usize..200, 1 => Just(usize::MAX)]))
        .prop_map(|(acdc, doc, code, kind, raw, pretty)| Op::Event { acdc, doc, code, kind, raw, pretty });
    let versify = (of(prop_oneof![Just("KERI".to_string()), Just("ACDC".to_string()), text()]), any::<u8>(), prop_oneof![0u8..17, any::<u8>()], kind(), of(super::c19::size())).prop_map(|(ident, major, minor, kind, size)| Op::Versify { ident, major, minor, kind, size });
    let vs = prop_oneof![
        (super::c19::ver(), bmuts()).prop_map(|(v, m)| String::from_utf8_lossy(&bapply(ver_text(&v).as_bytes(), &m)).into_owned()),
        "[A-Z]{4}[0-9a-f]{2}[A-Z]{4}[0-9a-f]{6}_",
        any::<String>(),
        (super::c19::ver(), super::c19::ver()).prop_map(|(a, b)| ver_text(&a) + &ver_text(&b)),
    ];
    let sized = (any_doc(), kind()).prop_map(|(d, k)| Op::Sizeify(d, k));
    let odd_op = (any::<u8>(), any_code(), any_raw(), prop_oneof![3 => 0u32..20, 1 => index_like()], index_like(), index_like(), any_raw())
        .prop_map(|(ty, code, raw, size, index, ondex, msg)| Op::Odd { ty, code, raw, size, index, ondex, msg });
    prop_oneof![
        8 => make,
        2 => idx,
        2 => count,
        1 => semver,
        3 => verify,
        2 => sign,
        2 => salt,
        2 => digest,
        4 => said,
        4 => prefix,
        4 => path,
        5 => threshold,
        5 => event,
        1 => versify,
        1 => vs.prop_map(Op::Deversify),
        2 => sized,
        2 => prop_oneof![raw_event(), bytes(0..=60)].prop_map(Op::Sniff),
        4 => odd_op,
        1 => json().prop_map(Op::Convert),
    ]
    .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C22",
        rule: "a sequence of calls of which at least one gave an error, run forwards and then backwards with equal results; or an update of an existing object that was refused",
        assumptions: vec![
            "infallible accessors and indexing into a document (which document a panic) are not fallible operations",
            "the full-cost tiers of stretching are left to C09",
        ],
        subs: vec![
            prop("sequences of calls", 60000, 4000000, || vec(op(), 1..4), run),
            prop("refused updates", 60000, 1000000, updates, update),
        ],
        probes: vec![],
    }
}
