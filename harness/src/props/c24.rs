//! The JavaScript bindings, compiled natively, beside the core library called with the same arguments.
//! Outside a JavaScript engine an error of the bindings cannot be built (it panics), so a call that
//! fails in the core must not succeed in the bindings, by an error or by that panic.
use super::args::*;
use super::common::*;
use super::c10::CODES;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::TYPES;
use crate::{ensure, ensure_eq};
use cesride::data::Value;
use cesride::*;
use cesride_wasm::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;

type Js<T> = std::result::Result<T, wasm_bindgen::JsValue>;

/// the same call on both sides; None when it fails on both
fn both<C, W>(what: &str, core: impl FnOnce() -> Result<C>, wrap: impl FnOnce() -> Js<W>) -> std::result::Result<Option<(C, W)>, String> {
    let c = call(what, core)?;
    let w = no_panic(wrap);
    match (c, w) {
        (Ok(c), Ok(Ok(w))) => Ok(Some((c, w))),
        (Ok(_), Ok(Err(_))) => Err(format!("{what}: the core accepts, the binding reports an error")),
        (Ok(_), Err(m)) => Err(format!("{what}: the core accepts, the binding fails: {m}")),
        (Err(e), Ok(Ok(_))) => Err(format!("{what}: the core reports an error ({e}), the binding accepts")),
        (Err(_), _) => Ok(None),
    }
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, core: impl FnOnce() -> Result<T>, wrap: impl FnOnce() -> Js<T>) -> std::result::Result<bool, String> {
    Ok(match both(what, core, wrap)? {
        Some((c, w)) => {
            ensure_eq!(w, c, "{what}");
            true
        }
        None => false,
    })
}
macro_rules! encodings {
    ($what:expr, $c:expr, $w:expr) => {{
        let (c, w) = (&$c, &$w);
        ensure_eq!(w.code(), c.code(), "{} code", $what);
        ensure_eq!(B(w.raw()), B(c.raw()), "{} raw", $what);
        same(&format!("{} qb64", $what), || c.qb64(), || w.qb64())?;
        same(&format!("{} qb64b", $what), || c.qb64b(), || w.qb64b())?;
        same(&format!("{} qb2", $what), || c.qb2(), || w.qb2())?;
    }};
}
macro_rules! face {
    ($what:expr, $c:expr, $w:expr) => {{
        encodings!($what, $c, $w);
        ensure_eq!($w.size(), $c.size(), "{} size", $what);
    }};
}
fn wide(n: u128) -> U128Wrapper {
    n.into()
}
fn narrow(w: U128Wrapper) -> u128 {
    w.into()
}
fn text_of(d: &J) -> ValueWrapper {
    ValueWrapper::new(&compact(d))
}
/// the document read from a text, as the core library represents it
fn same_doc(what: &str, core: &Value, w: &ValueWrapper) -> std::result::Result<(), String> {
    let want = core.to_json().map_err(|e| format!("{what}: the core cannot write its document: {e}"))?;
    ensure_eq!(w.value(), want, "{what}: document text");
    Ok(())
}

// ---- objects -----------------------------------------------------------------------------------
const NAMES: [&str; 12] = ["Verfer", "Signer", "Salter", "Cigar", "Diger", "Saider", "Prefixer", "Number", "Seqner", "Dater", "Bexter", "Siger"];
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ty: usize,
    how: u8,
    a: Args,
    /// the public key attached to a signature
    key: Option<B>,
}
fn verfer_of(k: &B) -> Verfer {
    Verfer::new_with_raw(&k.0, Some("D")).unwrap()
}
fn objects(c: &Case) -> R {
    let a = &c.a;
    let name = NAMES[c.ty % 12];
    let how = c.how % 8;
    let what = format!("{name} way {how}");
    let code = || a.code.as_deref();
    let scode = || a.code.clone();
    let raw = || a.raw.as_ref().map(|x| &x.0[..]);
    let sraw = || a.raw.as_ref().map(|x| x.0.clone());
    let qb64b = || a.qb64b.as_ref().map(|x| &x.0[..]);
    let sqb64b = || a.qb64b.as_ref().map(|x| x.0.clone());
    let qb64 = || a.qb64.as_deref();
    let sqb64 = || a.qb64.clone();
    let qb2 = || a.qb2.as_ref().map(|x| &x.0[..]);
    let sqb2 = || a.qb2.as_ref().map(|x| x.0.clone());
    let ser = || a.ser.as_ref().map(|x| &x.0[..]);
    let sser = || a.ser.as_ref().map(|x| x.0.clone());
    let num = || a.num.as_ref().and_then(|n| n.parse::<u128>().ok());
    let text = || a.text.as_deref();
    let stext = || a.text.clone();
    let doc = || a.doc.as_ref().map(lib);
    let wdoc = || a.doc.as_ref().map(text_of);
    let tier = || a.label.as_deref();
    let stier = || a.label.clone();
    let flag = || a.flag;
    let none = Vec::new();
    let r = raw().unwrap_or(&none);
    let b = qb64b().unwrap_or(&none);
    let t = qb64().unwrap_or("");
    let q = qb2().unwrap_or(&none);
    let w0 = text().unwrap_or("");
    let n0 = num().unwrap_or(0);
    let core_key = c.key.as_ref().map(verfer_of);
    let k = || core_key.as_ref();
    let wk = || c.key.as_ref().map(|k| VerferWrapper::wrap(&verfer_of(k)));
    let mut deep = true;
    let made = match c.ty % 12 {
        0 => {
            let x = match how {
                0..=2 => both(&what, || Verfer::new(code(), raw(), qb64b(), qb64(), qb2()), || VerferWrapper::new(scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                3 => both(&what, || Verfer::new_with_raw(r, code()), || VerferWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Verfer::new_with_qb64b(b), || VerferWrapper::new_with_qb64b(b)),
                5 => both(&what, || Verfer::new_with_qb64(t), || VerferWrapper::new_with_qb64(t)),
                _ => both(&what, || Verfer::new_with_qb2(q), || VerferWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                let s = VerferWrapper::wrap(c);
                face!(what, *c, s);
                same(&format!("{what} verify"), || c.verify(r, b), || w.verify(r, b))?;
            }
            x.is_some()
        }
        1 => {
            let x = match how {
                0..=2 => both(&what, || Signer::new(flag(), code(), raw(), qb64b(), qb64(), qb2()), || SignerWrapper::new(flag(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                3 => both(&what, || Signer::new_with_raw(r, flag(), code()), || SignerWrapper::new_with_raw(r, flag(), scode())),
                4 => both(&what, || Signer::new_with_qb64b(b, flag()), || SignerWrapper::new_with_qb64b(b, flag())),
                5 => both(&what, || Signer::new_with_qb64(t, flag()), || SignerWrapper::new_with_qb64(t, flag())),
                _ => both(&what, || Signer::new_with_qb2(q, flag()), || SignerWrapper::new_with_qb2(q, flag())),
            }?;
            if let Some((c, w)) = &x {
                // a seed of its own when no material is given
                let fresh = how < 3 && raw().is_none() && qb64b().is_none() && qb64().is_none() && qb2().is_none();
                deep = !fresh;
                if fresh {
                    ensure_eq!(w.code(), c.code(), "{what}: code of a fresh seed");
                    ensure_eq!(w.verfer().code(), c.verfer().code(), "{what}: code of a fresh public key");
                    ensure!(w.raw() != c.raw(), "{what}: two fresh seeds are the same");
                } else {
                    face!(what, *c, *w);
                    face!(format!("{what} verfer"), c.verfer(), w.verfer());
                }
                let s = SignerWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        2 => {
            let x = match how {
                0 | 1 => both(&what, || Salter::new(tier(), code(), raw(), qb64b(), qb64(), qb2()), || SalterWrapper::new(stier(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 => both(&what, || Salter::new_with_defaults(tier()), || SalterWrapper::new_with_defaults(stier())),
                3 => both(&what, || Salter::new_with_raw(r, code(), tier()), || SalterWrapper::new_with_raw(r, scode(), stier())),
                4 => both(&what, || Salter::new_with_qb64b(b, tier()), || SalterWrapper::new_with_qb64b(b, stier())),
                5 => both(&what, || Salter::new_with_qb64(t, tier()), || SalterWrapper::new_with_qb64(t, stier())),
                _ => both(&what, || Salter::new_with_qb2(q, tier()), || SalterWrapper::new_with_qb2(q, stier())),
            }?;
            if let Some((c, w)) = &x {
                let fresh = how == 2 || how < 2 && raw().is_none() && qb64b().is_none() && qb64().is_none() && qb2().is_none();
                deep = !fresh;
                ensure_eq!(w.tier(), c.tier(), "{what}: tier");
                if fresh {
                    ensure_eq!(w.code(), c.code(), "{what}: code of a fresh salt");
                    ensure!(w.raw() != c.raw(), "{what}: two fresh salts are the same");
                } else {
                    face!(what, *c, *w);
                }
                let s = SalterWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        3 => {
            let x = match how {
                0..=2 => both(&what, || Cigar::new(k(), code(), raw(), qb64b(), qb64(), qb2()), || CigarWrapper::new(wk(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                3 => both(&what, || Cigar::new_with_raw(r, k(), code()), || CigarWrapper::new_with_raw(r, wk(), scode())),
                4 => both(&what, || Cigar::new_with_qb64b(b, k()), || CigarWrapper::new_with_qb64b(b, wk())),
                5 => both(&what, || Cigar::new_with_qb64(t, k()), || CigarWrapper::new_with_qb64(t, wk())),
                _ => both(&what, || Cigar::new_with_qb2(q, k()), || CigarWrapper::new_with_qb2(q, wk())),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                face!(format!("{what} verfer"), c.verfer(), w.verfer());
                let s = CigarWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        4 => {
            let x = match how {
                0 | 1 => both(&what, || Diger::new(ser(), code(), raw(), qb64b(), qb64(), qb2()), || DigerWrapper::new(sser(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 | 7 => both(&what, || Diger::new_with_ser(ser().unwrap_or(b), code()), || DigerWrapper::new_with_ser(ser().unwrap_or(b), scode())),
                3 => both(&what, || Diger::new_with_raw(r, code()), || DigerWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Diger::new_with_qb64b(b), || DigerWrapper::new_with_qb64b(b)),
                5 => both(&what, || Diger::new_with_qb64(t), || DigerWrapper::new_with_qb64(t)),
                _ => both(&what, || Diger::new_with_qb2(q), || DigerWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                let s = DigerWrapper::wrap(c);
                face!(what, *c, s);
                let msg = ser().unwrap_or(b);
                same(&format!("{what} verify"), || c.verify(msg), || w.verify(msg))?;
                for other in CODES {
                    let d = Diger::new_with_ser(msg, Some(other)).map_err(|e| e.to_string())?;
                    let q = d.qb64b().map_err(|e| e.to_string())?;
                    same(&format!("{what} compare_dig with {other}"), || c.compare(msg, Some(&q), None), || w.compare_dig(msg, &q))?;
                    same(&format!("{what} compare_diger with {other}"), || c.compare(msg, None, Some(&d)), || w.compare_diger(msg, &DigerWrapper::wrap(&d)))?;
                }
                same(&format!("{what} compare_dig with anything"), || c.compare(msg, Some(b), None), || w.compare_dig(msg, b))?;
            }
            x.is_some()
        }
        5 => {
            let label = || a.label.as_deref();
            let slabel = || a.label.clone();
            let kind = || a.kind.as_deref();
            let skind = || a.kind.clone();
            let x = match how {
                0 | 1 => both(&what, || Saider::new(doc().as_ref(), label(), kind(), None, code(), raw(), qb64b(), qb64(), qb2()), || SaiderWrapper::new(wdoc(), slabel(), skind(), None, scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 | 7 => {
                    let d = a.doc.clone().unwrap_or(J::Null);
                    both(&what, || Saider::new_with_sad(&lib(&d), label(), kind(), None, code()), || SaiderWrapper::new_with_sad(text_of(&d), slabel(), skind(), None, scode()))
                }
                3 => both(&what, || Saider::new_with_raw(r, code()), || SaiderWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Saider::new_with_qb64b(b), || SaiderWrapper::new_with_qb64b(b)),
                5 => both(&what, || Saider::new_with_qb64(t), || SaiderWrapper::new_with_qb64(t)),
                _ => both(&what, || Saider::new_with_qb2(q), || SaiderWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                let s = SaiderWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        6 => {
            let x = match how {
                0 | 1 => both(&what, || Prefixer::new(doc().as_ref(), None, code(), raw(), qb64b(), qb64(), qb2()), || PrefixerWrapper::new(wdoc(), None, scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 | 7 => {
                    let d = a.doc.clone().unwrap_or(J::Null);
                    both(&what, || Prefixer::new_with_ked(&lib(&d), None, code()), || PrefixerWrapper::new_with_ked(text_of(&d), None, scode()))
                }
                3 => both(&what, || Prefixer::new_with_raw(r, code()), || PrefixerWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Prefixer::new_with_qb64b(b), || PrefixerWrapper::new_with_qb64b(b)),
                5 => both(&what, || Prefixer::new_with_qb64(t), || PrefixerWrapper::new_with_qb64(t)),
                _ => both(&what, || Prefixer::new_with_qb2(q), || PrefixerWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                let s = PrefixerWrapper::wrap(c);
                face!(what, *c, s);
                if let Some(d) = &a.doc {
                    for p in [None, Some(false), Some(true)] {
                        same(&format!("{what} verify {p:?}"), || c.verify(&lib(d), p), || w.verify(text_of(d), p))?;
                    }
                }
            }
            x.is_some()
        }
        7 => {
            let x = match how {
                0 => both(&what, || Number::new(num(), text(), code(), raw(), qb64b(), qb64(), qb2()), || NumberWrapper::new(num().map(wide), stext(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                1 => both(&what, || Number::new_with_num(n0), || NumberWrapper::new_with_num(wide(n0))),
                2 => both(&what, || Number::new_with_numh(w0), || NumberWrapper::new_with_numh(w0)),
                3 => both(&what, || Number::new_with_raw(r, code()), || NumberWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Number::new_with_qb64b(b), || NumberWrapper::new_with_qb64b(b)),
                5 => both(&what, || Number::new_with_qb64(t), || NumberWrapper::new_with_qb64(t)),
                _ => both(&what, || Number::new_with_qb2(q), || NumberWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                same(&format!("{what} num"), || c.num(), || w.num().map(narrow))?;
                same(&format!("{what} numh"), || c.numh(), || w.numh())?;
                let s = NumberWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        8 => {
            let x = match how {
                0 => both(&what, || Seqner::new(num(), text(), code(), raw(), qb64b(), qb64(), qb2()), || SeqnerWrapper::new(num().map(wide), stext(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                1 => both(&what, || Seqner::new_with_sn(n0), || SeqnerWrapper::new_with_sn(wide(n0))),
                2 => both(&what, || Seqner::new_with_snh(w0), || SeqnerWrapper::new_with_snh(w0)),
                3 => both(&what, || Seqner::new_with_raw(r, code()), || SeqnerWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Seqner::new_with_qb64b(b), || SeqnerWrapper::new_with_qb64b(b)),
                5 => both(&what, || Seqner::new_with_qb64(t), || SeqnerWrapper::new_with_qb64(t)),
                _ => both(&what, || Seqner::new_with_qb2(q), || SeqnerWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                same(&format!("{what} sn"), || c.sn(), || w.sn().map(narrow))?;
                same(&format!("{what} snh"), || c.snh(), || w.snh())?;
                let s = SeqnerWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        9 => {
            let x = match how {
                0 | 1 => both(&what, || Dater::new(text(), code(), raw(), qb64b(), qb64(), qb2()), || DaterWrapper::new(stext(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 | 7 => both(&what, || Dater::new_with_dts(w0, code()), || DaterWrapper::new_with_dts(w0, scode())),
                3 => both(&what, || Dater::new_with_raw(r, code()), || DaterWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Dater::new_with_qb64b(b), || DaterWrapper::new_with_qb64b(b)),
                5 => both(&what, || Dater::new_with_qb64(t), || DaterWrapper::new_with_qb64(t)),
                _ => both(&what, || Dater::new_with_qb2(q), || DaterWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                // without any argument the current time is taken
                let now = how < 2 && text().is_none() && raw().is_none() && qb64b().is_none() && qb64().is_none() && qb2().is_none();
                deep = !now;
                if !now {
                    face!(what, *c, *w);
                    same(&format!("{what} dts"), || c.dts(), || w.dts())?;
                    same(&format!("{what} dtsb"), || c.dtsb(), || w.dtsb())?;
                }
                let s = DaterWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        10 => {
            let x = match how {
                0 | 1 => both(&what, || Bexter::new(text(), code(), raw(), qb64b(), qb64(), qb2()), || BexterWrapper::new(stext(), scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                2 | 7 => both(&what, || Bexter::new_with_bext(w0), || BexterWrapper::new_with_bext(w0)),
                3 => both(&what, || Bexter::new_with_raw(r, code()), || BexterWrapper::new_with_raw(r, scode())),
                4 => both(&what, || Bexter::new_with_qb64b(b), || BexterWrapper::new_with_qb64b(b)),
                5 => both(&what, || Bexter::new_with_qb64(t), || BexterWrapper::new_with_qb64(t)),
                _ => both(&what, || Bexter::new_with_qb2(q), || BexterWrapper::new_with_qb2(q)),
            }?;
            if let Some((c, w)) = &x {
                face!(what, *c, *w);
                same(&format!("{what} bext"), || c.bext(), || w.bext())?;
                let s = BexterWrapper::wrap(c);
                face!(what, *c, s);
            }
            x.is_some()
        }
        _ => {
            let (i, o) = (a.index, a.ondex);
            let x = match how {
                0..=2 => both(&what, || Siger::new(k(), i, o, code(), raw(), qb64b(), qb64(), qb2()), || SigerWrapper::new(wk(), i, o, scode(), sraw(), sqb64b(), sqb64(), sqb2())),
                3 => both(&what, || Siger::new_with_raw(r, k(), i, o, code()), || SigerWrapper::new_with_raw(r, wk(), i, o, scode())),
                4 => both(&what, || Siger::new_with_qb64b(b, k()), || SigerWrapper::new_with_qb64b(b, wk())),
                5 => both(&what, || Siger::new_with_qb64(t, k()), || SigerWrapper::new_with_qb64(t, wk())),
                _ => both(&what, || Siger::new_with_qb2(q, k()), || SigerWrapper::new_with_qb2(q, wk())),
            }?;
            if let Some((c, w)) = &x {
                encodings!(what, *c, *w);
                ensure_eq!(w.index(), c.index(), "{what}: index");
                ensure_eq!(w.ondex(), c.ondex(), "{what}: other index");
                face!(format!("{what} verfer"), c.verfer(), w.verfer());
                let s = SigerWrapper::wrap(c);
                encodings!(what, *c, s);
            }
            x.is_some()
        }
    };
    okc(made && deep, vec![format!("{name} {}", if made { "made" } else { "refused by both" })])
}
fn case() -> BoxedStrategy<Case> {
    let one = (0usize..12).prop_flat_map(|ty| {
        if ty == 11 {
            return iprim(false)
                .prop_map(|p| {
                    let (t, b) = p.encode();
                    (p.code.clone(), p.raw.clone(), t, b, Some(p.index), Some(p.ondex))
                })
                .prop_map(|x| (11usize, x))
                .boxed();
        }
        let codes = TYPES[ty].codes;
        let codes: Vec<&'static MCode> = codes.iter().filter_map(|c| mcode(c)).collect();
        (0..codes.len())
            .prop_flat_map(move |i| {
                let m = codes[i];
                if m.var() {
                    (1usize..14).prop_flat_map(move |size| bytes_n(size * 3 - m.ls).prop_map(move |raw| MPrim { code: m.code.into(), size: size as u32, raw: raw.0 })).boxed()
                } else {
                    mprim_of(m)
                }
            })
            .prop_map(move |p| {
                let (t, b) = p.encode();
                (ty, (p.code.clone(), p.raw.clone(), t, b, None, None))
            })
            .boxed()
    });
    let date = "20[0-9]{2}-[01][0-9]-[0-3][0-9]T[0-2][0-9]:[0-6][0-9]:[0-6][0-9].[0-9]{6}[+-][0-2][0-9]:[0-6][0-9]";
    let words = (date, "[0-9a-f]{1,32}", "[A-Za-z0-9_-]{0,24}", "[0-9a-f]{33,40}");
    (one, 0u8..8, args(0.5), proptest::option::of(bytes_n(32)), any::<[u8; 5]>(), words, any::<bool>(), proptest::option::of(prop_oneof![Just("low"), Just("med"), Just("high"), Just("x")]))
        .prop_map(|((ty, (code, raw, t, b, i, o)), how, mut a, key, keep, (date, hex, b64, long), word, tier)| {
            // the valid material in most places, something else or nothing in the others
            let at = |k: usize| keep[k] % 4 != 0;
            let gone = |k: usize| keep[k] % 8 == 0;
            if at(0) {
                a.code = Some(code);
            }
            if at(1) {
                a.raw = Some(B(raw));
            }
            if at(2) {
                a.qb64b = Some(B(t.clone().into_bytes()));
            }
            if at(3) {
                a.qb64 = Some(t);
            }
            if at(4) {
                a.qb2 = Some(B(b));
            }
            // one source of material, in half of the cases
            if keep[0] % 16 < 8 {
                let only = keep[1] / 16 % 4;
                if only != 0 {
                    a.raw = None;
                }
                if only != 1 {
                    a.qb64b = None;
                }
                if only != 2 {
                    a.qb64 = None;
                }
                if only != 3 {
                    a.qb2 = None;
                }
                if how < 3 {
                    a.doc = a.doc.filter(|_| gone(2));
                    a.ser = a.ser.filter(|_| gone(3));
                    a.num = a.num.filter(|_| gone(4));
                    a.text = a.text.filter(|_| gone(2));
                }
            }
            if word {
                a.text = Some(match ty {
                    7 | 8 if keep[4] % 8 == 0 => long,
                    7 | 8 => hex,
                    9 => date,
                    _ => b64,
                });
            }
            if ty == 2 {
                a.label = tier.map(String::from);
            }
            if ty == 11 && at(0) {
                a.index = i;
                a.ondex = o.filter(|_| at(1));
            }
            Case { ty, how, a, key }
        })
        .boxed()
}

// ---- 128-bit numbers and documents across the boundary ---------------------------------------
fn number(n: &String) -> R {
    let n: u128 = n.parse().map_err(|_| "not a number")?;
    ensure_eq!(narrow(wide(n)), n, "there and back");
    let what = format!("Number of {n}");
    let Some((c, w)) = both(&what, || Number::new_with_num(n), || NumberWrapper::new_with_num(wide(n)))? else { return Err(format!("{what}: refused")) };
    face!(what, c, w);
    ensure_eq!(narrow(w.num().map_err(|_| "num failed")?), n, "{what}: num");
    let Some((c, w)) = both(&what, || Seqner::new_with_sn(n), || SeqnerWrapper::new_with_sn(wide(n)))? else { return Err(format!("{what}: refused as sequence number")) };
    face!(what, c, w);
    ensure_eq!(narrow(w.sn().map_err(|_| "sn failed")?), n, "{what}: sn");
    okc(n > u64::MAX as u128, vec![if n > u64::MAX as u128 { "beyond 64 bits" } else { "64 bits" }])
}
fn numbers() -> impl Iterator<Item = String> {
    let mut v = vec![];
    for b in 0..128 {
        for d in -2i8..=2 {
            v.push((1u128 << b).wrapping_add(d as u128));
        }
        for c in 0..b {
            v.push(1u128 << b | 1u128 << c);
        }
    }
    v.into_iter().map(|n| n.to_string())
}
fn document(d: &J) -> R {
    let t = compact(d);
    let w = ValueWrapper::new(&t);
    ensure_eq!(w.value(), t, "text there and back");
    let v = Value::from(w);
    ensure_eq!(v, lib(d), "document handed over");
    let back = v.to_json().map_err(|e| e.to_string())?;
    ensure_eq!(back, t, "document written again");
    ok(matches!(d, J::Object(_) | J::Array(_)))
}

// ---- operations -------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ops {
    suite: usize,
    seed: B,
    msg: B,
    other: B,
    transferable: Option<bool>,
    only: bool,
    index: u32,
    ondex: Option<u32>,
    salt: B,
    size: Option<usize>,
    path: Option<String>,
    tier: Option<String>,
    count: Option<usize>,
    start: Option<usize>,
    code: Option<String>,
}
const SUITES: [&str; 3] = ["A", "J", "Q"];
fn ops(o: &Ops) -> R {
    let suite = SUITES[o.suite % 3];
    if !seed_valid(suite, &o.seed.0) {
        return ok(false);
    }
    let what = format!("signer {suite}");
    let Some((c, w)) = both(&what, || Signer::new_with_raw(&o.seed.0, o.transferable, Some(suite)), || SignerWrapper::new_with_raw(&o.seed.0, o.transferable, Some(suite.into())))? else {
        return Err(format!("{what}: refused"));
    };
    face!(what, c, w);
    face!(format!("{what} key"), c.verfer(), w.verfer());
    let v = w.verfer();
    if let Some((cs, ws)) = both("sign_unindexed", || c.sign_unindexed(&o.msg.0), || w.sign_unindexed(&o.msg.0))? {
        ensure_eq!(ws.code(), cs.code(), "{what}: code of a signature");
        ensure_eq!(ws.size(), cs.size(), "{what}: size of a signature");
        face!(format!("{what} key of a signature"), cs.verfer(), ws.verfer());
        if suite == "A" {
            encodings!(format!("{what} signature"), cs, ws);
        }
        for (sig, ser) in [(ws.raw(), &o.msg.0), (cs.raw(), &o.msg.0), (ws.raw(), &o.other.0), (o.msg.0.clone(), &ws.raw())] {
            same(&format!("{what} verify"), || c.verfer().verify(&sig, ser), || v.verify(&sig, ser))?;
        }
        ensure!(v.verify(&ws.raw(), &o.msg.0).unwrap_or(false), "{what}: a signature of the bindings does not verify");
        ensure!(c.verfer().verify(&ws.raw(), &o.msg.0).unwrap_or(false), "{what}: a signature of the bindings does not verify in the core");
    }
    let mut indexed = false;
    if let Some((cs, ws)) = both("sign_indexed", || c.sign_indexed(&o.msg.0, o.only, o.index, o.ondex), || w.sign_indexed(&o.msg.0, o.only, o.index, o.ondex))? {
        indexed = true;
        ensure_eq!(ws.code(), cs.code(), "{what}: code of an indexed signature");
        ensure_eq!(ws.index(), cs.index(), "{what}: index");
        ensure_eq!(ws.ondex(), cs.ondex(), "{what}: other index");
        face!(format!("{what} key of an indexed signature"), cs.verfer(), ws.verfer());
        if suite == "A" {
            encodings!(format!("{what} indexed signature"), cs, ws);
        }
        ensure!(c.verfer().verify(&ws.raw(), &o.msg.0).unwrap_or(false), "{what}: an indexed signature of the bindings does not verify in the core");
    }
    // salter: always the quick way of stretching (temp), the slow one is only told apart by its result
    let tier = o.tier.as_deref();
    let path = o.path.as_deref();
    let code = o.code.as_deref();
    let Some((c, w)) = both("salter", || Salter::new_with_raw(&o.salt.0, None, tier), || SalterWrapper::new_with_raw(&o.salt.0, None, o.tier.clone()))? else {
        return okc(indexed, vec![format!("{what}, salter refused by both")]);
    };
    face!("salter", c, w);
    ensure_eq!(w.tier(), c.tier(), "salter: tier");
    let temp = Some(true);
    same("stretch", || c.stretch(o.size, path, tier, temp), || w.stretch(o.size, o.path.clone(), o.tier.clone(), temp))?;
    if let Some((cs, ws)) = both("signer", || c.signer(code, o.transferable, path, tier, temp), || w.signer(o.code.clone(), o.transferable, o.path.clone(), o.tier.clone(), temp))? {
        face!("derived signer", cs, ws);
        face!("derived key", cs.verfer(), ws.verfer());
    }
    let mut batch = "no batch";
    if let Some((cs, ws)) = both(
        "signers",
        || c.signers(o.count, o.start, path, code, o.transferable, tier, temp),
        || w.signers(o.count, o.start, o.path.clone(), o.code.clone(), o.transferable, o.tier.clone(), temp),
    )? {
        batch = "batch";
        ensure_eq!(ws.len(), cs.len(), "signers: how many");
        ensure_eq!(ws.is_empty(), cs.is_empty(), "signers: emptiness");
        for (i, c) in cs.iter().enumerate() {
            let w = ws.get(i).ok_or_else(|| format!("signers: none at {i}"))?;
            face!(format!("signer {i}"), *c, w);
            face!(format!("key {i}"), c.verfer(), w.verfer());
        }
        ensure!(ws.get(cs.len()).is_none() && ws.get(usize::MAX).is_none(), "signers: one beyond the last");
    }
    okc(true, vec![format!("{what} {}", if indexed { "indexed" } else { "not indexed" }), batch.to_string()])
}
fn ops_case() -> BoxedStrategy<Ops> {
    let tier = || proptest::option::of(prop_oneof![6 => prop_oneof![Just("low"), Just("med"), Just("high")], 1 => Just("x")].prop_map(String::from));
    (
        (0usize..3, bytes_n(32), bytes(0..=40), bytes(0..=40), any::<Option<bool>>(), any::<bool>(), index_like(), proptest::option::of(index_like()), bytes_n(16)),
        (proptest::option::of(0usize..80), proptest::option::of("[a-z0-9]{0,6}"), tier(), proptest::option::of(0usize..4), proptest::option::of(0usize..3)),
        proptest::option::of(prop_oneof![3 => (0usize..3).prop_map(|i| SUITES[i].to_string()), 1 => any_code()]),
    )
        .prop_map(|((suite, seed, msg, other, transferable, only, index, ondex, salt), (size, path, tier, count, start), code)| Ops {
            suite, seed, msg, other, transferable, only, index, ondex, salt, size, path, tier, count, start, code,
        })
        .boxed()
}
/// the slow tiers, told apart from each other and from the quick way
fn slow(o: &(B, Option<String>, Option<String>, Option<bool>, usize)) -> R {
    let (salt, own, tier, temp, size) = o;
    let Some((c, w)) = both("salter", || Salter::new_with_raw(&salt.0, None, own.as_deref()), || SalterWrapper::new_with_raw(&salt.0, None, own.clone()))? else {
        return Err("salter refused".into());
    };
    same("stretch", || c.stretch(Some(*size), Some("p"), tier.as_deref(), *temp), || w.stretch(Some(*size), Some("p".into()), tier.clone(), *temp))?;
    ok(true)
}

// ---- documents and thresholds -------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DocCase {
    doc: J,
    label: Option<String>,
    kind: Option<String>,
    code: Option<String>,
    prefixed: Option<bool>,
    versioned: Option<bool>,
    tail: B,
}
fn docs(d: &DocCase) -> R {
    let v = lib(&d.doc);
    let (label, kind, code) = (d.label.as_deref(), d.kind.as_deref(), d.code.as_deref());
    let mut classes = vec![];
    let mut sealed = None;
    if let Some(((cs, cv), w)) = both("saidify", || Saider::saidify(&v, code, kind, label, None), || SaiderWrapper::saidify(text_of(&d.doc), d.code.clone(), d.kind.clone(), d.label.clone(), None))? {
        face!("identifier", cs, w.saider());
        same_doc("saidify", &cv, &ValueWrapper::new(&w.value()))?;
        for (v, kind, label) in [(&v, kind, label), (&cv, kind, label), (&cv, None, label), (&cv, Some("JSON"), label), (&cv, Some("CBOR"), label), (&cv, Some(""), label), (&cv, kind, None), (&cv, kind, Some("d")), (&cv, kind, Some("v")), (&cv, kind, Some("i"))] {
            let j = v.to_json().map_err(|e| e.to_string())?;
            let (dk, dl) = (kind.map(String::from), label.map(String::from));
            let dk = || dk.clone();
            let dl = || dl.clone();
            both("identifier of the document", || Saider::new_with_sad(v, label, kind, None, code), || SaiderWrapper::new_with_sad(ValueWrapper::new(&j), dl(), dk(), None, d.code.clone()))?
                .map_or(Ok(()), |(c, w)| -> std::result::Result<(), String> { face!("identifier of the document", c, w); Ok(()) })?;
            both("identifier of the document, in full", || Saider::new(Some(v), label, kind, None, code, None, None, None, None), || SaiderWrapper::new(Some(ValueWrapper::new(&j)), dl(), dk(), None, d.code.clone(), None, None, None, None))?
                .map_or(Ok(()), |(c, w)| -> std::result::Result<(), String> { face!("identifier of the document, in full", c, w); Ok(()) })?;
            same("verify", || cs.verify(v, d.prefixed, d.versioned, kind, label, None), || w.saider().verify(ValueWrapper::new(&j), d.prefixed, d.versioned, dk(), dl(), None))?;
        }
        same("verify another", || cs.verify(&lib(&J::from(1)), d.prefixed, d.versioned, kind, label, None), || w.saider().verify(ValueWrapper::new("1"), d.prefixed, d.versioned, d.kind.clone(), d.label.clone(), None))?;
        classes.push("sealed");
        sealed = Some(cv);
    }
    let from: Vec<(Value, ValueWrapper)> = [Some(v), sealed]
        .into_iter()
        .flatten()
        .filter_map(|v| v.to_json().ok().map(|j| (v, ValueWrapper::new(&j))))
        .collect();
    let mut parsed = false;
    for (v, w) in from {
        let j = w.value();
        if let Some((c, w)) = both("serder of a document", || Serder::new_with_ked(&v, code, kind), || SerderWrapper::new_with_ked(ValueWrapper::new(&j), d.code.clone(), d.kind.clone()))? {
            serder("serder of a document", &c, &w)?;
            parsed = true;
            // in place of nothing, by each argument of the general constructor
            let raw = c.raw();
            let mut tailed = raw.clone();
            tailed.extend_from_slice(&d.tail.0);
            if let Some((c, w)) = both("serder of bytes", || Serder::new(code, Some(&tailed), kind, None, None), || SerderWrapper::new(d.code.clone(), Some(tailed.clone()), d.kind.clone(), None, None))? {
                serder("serder of bytes", &c, &w)?;
                classes.push("read back");
            }
            if let Some((c2, w2)) = both("serder of another", || Serder::new(code, None, kind, None, Some(&c)), || SerderWrapper::new(d.code.clone(), None, d.kind.clone(), None, Some(SerderWrapper::wrap(&c))))? {
                serder("serder of another", &c2, &w2)?;
                classes.push("copied");
            }
        }
        if let Some((c, w)) = both("serder of a document, in full", || Serder::new(code, None, kind, Some(&v), None), || SerderWrapper::new(d.code.clone(), None, d.kind.clone(), Some(ValueWrapper::new(&j)), None))? {
            serder("serder of a document, in full", &c, &w)?;
        }
    }
    both("serder of nothing", || Serder::new(code, None, kind, None, None), || SerderWrapper::new(d.code.clone(), None, d.kind.clone(), None, None))?;
    classes.push(if parsed { "message" } else { "no message" });
    okc(parsed || classes.contains(&"sealed"), classes)
}
fn serder(what: &str, c: &Serder, w: &SerderWrapper) -> std::result::Result<(), String> {
    ensure_eq!(w.code(), c.code(), "{what}: code");
    ensure_eq!(B(w.raw()), B(c.raw()), "{what}: bytes");
    ensure_eq!(w.ident(), c.ident(), "{what}: protocol");
    ensure_eq!(w.kind(), c.kind(), "{what}: kind");
    ensure_eq!(w.size(), c.size(), "{what}: size");
    same_doc(what, &c.ked(), &w.ked())?;
    face!(format!("{what}: identifier"), c.saider(), w.saider());
    let _ = w.version();
    same(&format!("{what}: sn"), || c.sn(), || w.sn().map(narrow))?;
    same(&format!("{what}: fn"), || c._fn(), || w._fn().map(narrow))?;
    if let Some((c, w)) = both(&format!("{what}: sner"), || c.sner(), || w.sner())? {
        face!(format!("{what}: sner"), c, w);
    }
    if let Some((c, w)) = both(&format!("{what}: fner"), || c.fner(), || w.fner())? {
        ensure_eq!(w.is_some(), c.is_some(), "{what}: presence of fner");
        if let (Some(c), Some(w)) = (c, w) {
            face!(format!("{what}: fner"), c, w);
        }
    }
    for (name, x) in [
        ("tholder", both(&format!("{what}: tholder"), || c.tholder(), || w.tholder())?),
        ("ntholder", both(&format!("{what}: ntholder"), || c.ntholder(), || w.ntholder())?),
    ] {
        if let Some((c, w)) = x {
            ensure_eq!(w.is_some(), c.is_some(), "{what}: presence of {name}");
            if let (Some(c), Some(w)) = (c, w) {
                threshold(&format!("{what}: {name}"), &c, &w, &[])?;
            }
        }
    }
    Ok(())
}
fn doc_case() -> BoxedStrategy<DocCase> {
    use proptest::option::weighted;
    (
        any_doc(),
        weighted(0.3, prop_oneof![2 => key(), 1 => Just("d".to_string()), 1 => Just("i".to_string())]),
        weighted(0.3, prop_oneof![6 => Just("JSON"), 1 => Just("CBOR"), 1 => Just("x")].prop_map(String::from)),
        weighted(0.6, prop_oneof![8 => (0usize..9).prop_map(|i| CODES[i].to_string()), 1 => any_code()]),
        any::<Option<bool>>(),
        any::<Option<bool>>(),
        bytes(0..=6),
    )
        .prop_map(|(doc, label, kind, code, prefixed, versioned, tail)| DocCase { doc, label, kind, code, prefixed, versioned, tail })
        .boxed()
}
fn threshold(what: &str, c: &Tholder, w: &TholderWrapper, sets: &[Vec<u32>]) -> std::result::Result<(), String> {
    same_doc(&format!("{what} thold"), &c.thold(), &w.thold())?;
    ensure_eq!(w.weighted(), c.weighted(), "{what}: weighted");
    ensure_eq!(w.size(), c.size(), "{what}: size");
    same(&format!("{what} num"), || c.num(), || w.num())?;
    ensure_eq!(w.number().is_some(), c.number().is_some(), "{what}: presence of a number");
    if let (Some(c), Some(w)) = (c.number(), w.number()) {
        face!(format!("{what} number"), c, w);
    }
    ensure_eq!(w.bexter().is_some(), c.bexter().is_some(), "{what}: presence of a text");
    if let (Some(c), Some(w)) = (c.bexter(), w.bexter()) {
        face!(format!("{what} text"), c, w);
    }
    same(&format!("{what} limen"), || c.limen(), || w.limen())?;
    if let Some((c, w)) = both(&format!("{what} sith"), || c.sith(), || w.sith())? {
        same_doc(&format!("{what} sith"), &c, &w)?;
    }
    same(&format!("{what} to_json"), || c.to_json(), || w.to_json())?;
    for s in sets {
        same(&format!("{what} satisfy {s:?}"), || c.satisfy(s), || w.satisfy(s))?;
    }
    Ok(())
}
fn thresholds((sith, other, sets): &(J, J, Vec<Vec<u32>>)) -> R {
    let v = lib(sith);
    let mut n = 0;
    let mut limen = None;
    for (what, x) in [
        ("of an expression", both("of an expression", || Tholder::new_with_sith(&v), || TholderWrapper::new_with_sith(text_of(sith)))?),
        ("of a value", both("of a value", || Tholder::new_with_thold(&v), || TholderWrapper::new_with_thold(text_of(sith)))?),
        ("of nothing else", both("of nothing else", || Tholder::new(None, None, Some(&v)), || TholderWrapper::new(None, None, Some(text_of(sith))))?),
        ("of both", both("of both", || Tholder::new(Some(&v), None, Some(&lib(other))), || TholderWrapper::new(Some(text_of(sith)), None, Some(text_of(other))))?),
        ("of none", both("of none", || Tholder::new(None, None, None), || TholderWrapper::new(None, None, None))?),
    ] {
        if let Some((c, w)) = x {
            threshold(what, &c, &w, sets)?;
            threshold(what, &c, &TholderWrapper::wrap(&c), sets)?;
            n += 1;
            limen = limen.or(c.limen().ok());
        }
    }
    if let Some(l) = limen {
        for (what, x) in [
            ("of the compact text", both("of the compact text", || Tholder::new_with_limen(&l), || TholderWrapper::new_with_limen(&l))?),
            ("of the compact text, in full", both("of the compact text, in full", || Tholder::new(None, Some(&l), Some(&lib(other))), || TholderWrapper::new(None, Some(l.clone()), Some(text_of(other))))?),
        ] {
            if let Some((c, w)) = x {
                threshold(what, &c, &w, sets)?;
            }
        }
    }
    okc(n > 0, vec![format!("{n} ways accepted")])
}

// ---- code tables ----------------------------------------------------------------------------------
fn tables() -> Vec<(String, String)> {
    use CesrideIndexerCodex as I;
    use CesrideMatterCodex as M;
    let mut v = vec![];
    macro_rules! m { ($($n:ident $c:literal)*) => { $( v.push((M::$n.code().to_string(), $c.to_string())); v.push((matter_codex_code(M::$n), $c.to_string())); )* } }
    macro_rules! i { ($($n:ident $c:literal)*) => { $( v.push((I::$n.code().to_string(), $c.to_string())); v.push((indexer_codex_code(I::$n), $c.to_string())); )* } }
    m! { Ed25519Seed "A" Ed25519N "B" X25519 "C" Ed25519 "D" Blake3_256 "E" Blake2b_256 "F" Blake2s_256 "G" SHA3_256 "H" SHA2_256 "I"
         ECDSA_256k1_Seed "J" Ed448_Seed "K" X448 "L" Short "M" Big "N" X25519_Private "O" X25519_Cipher_Seed "P"
         Salt_128 "0A" Ed25519_Sig "0B" ECDSA_256k1_Sig "0C" Blake3_512 "0D" Blake2b_512 "0E" SHA3_512 "0F" SHA2_512 "0G" Long "0H"
         ECDSA_256k1N "1AAA" ECDSA_256k1 "1AAB" Ed448N "1AAC" Ed448 "1AAD" Ed448_Sig "1AAE" Tern "1AAF" DateTime "1AAG" X25519_Cipher_Salt "1AAH"
         TBD1 "2AAA" TBD2 "3AAA" StrB64_L0 "4A" StrB64_L1 "5A" StrB64_L2 "6A" StrB64_Big_L0 "7AAA" StrB64_Big_L1 "8AAA" StrB64_Big_L2 "9AAA"
         Bytes_L0 "4B" Bytes_L1 "5B" Bytes_L2 "6B" Bytes_Big_L0 "7AAB" Bytes_Big_L1 "8AAB" Bytes_Big_L2 "9AAB" }
    i! { Ed25519 "A" Ed25519_Crt "B" ECDSA_256k1 "C" ECDSA_256k1_Crt "D" Ed448 "0A" Ed448_Crt "0B" Ed25519_Big "2A" Ed25519_Big_Crt "2B"
         ECDSA_256k1_Big "2C" ECDSA_256k1_Big_Crt "2D" Ed448_Big "3A" Ed448_Big_Crt "3B" TBD0 "0z" TBD1 "1z" TBD4 "4z" }
    v
}
pub fn check() -> Check {
    let tier = || proptest::option::of(prop_oneof![Just("low"), Just("med")].prop_map(String::from));
    Check {
        id: "C24",
        rule: "an object that both sides make, or an operation that both carry out, with every value it exposes compared; numbers beyond 64 bits; compound documents",
        assumptions: vec![
            "the bindings run natively: errors and arrays of a JavaScript engine cannot be built there, so error texts, the list accessors and the lists of ignored fields and allowed codes are not looked at",
            "the core library is the reference; what it should do is for the other properties",
        ],
        subs: vec![
            each("code tables", |_| tables().into_iter(), |(got, want)| {
                ensure_eq!(got, want, "code");
                ok(true)
            }),
            each("128-bit numbers around every pair of bits", |_| numbers(), number),
            prop("128-bit numbers", 800000, 20000000, || any::<u128>().prop_map(|n| n.to_string()), number),
            prop("documents across the boundary", 400000, 10000000, json, document),
            prop("objects by every constructor", 120000, 5000000, case, objects),
            prop("signing, verifying and stretching", 10000, 300000, ops_case, ops),
            prop("tiers of stretching", 30, 900, move || (bytes_n(16), tier(), tier(), prop_oneof![Just(None), Just(Some(false)), Just(Some(true))], 16usize..40), slow),
            prop("messages and self-addressing documents", 40000, 1500000, doc_case, docs),
            prop("thresholds", 40000, 1000000, || (prop_oneof![3 => super::c13::well_formed(), 1 => super::c14::odd()], super::c13::well_formed(), vec(vec(0u32..12, 0..8), 0..4)), thresholds),
        ],
        probes: vec![],
    }
}
