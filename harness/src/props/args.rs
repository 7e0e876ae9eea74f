//! Every constructor argument at once: arbitrary combinations for arbitrary types.
use super::common::*;
use super::docs::*;
use crate::engine::B;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use cesride::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;

#[derive(Debug, Clone, Default, Serialize, Deserialize)]
pub struct Args {
    pub code: Option<String>,
    pub raw: Option<B>,
    pub qb64b: Option<B>,
    pub qb64: Option<String>,
    pub qb2: Option<B>,
    pub ser: Option<B>,
    pub num: Option<String>,
    pub text: Option<String>,
    pub doc: Option<J>,
    pub doc2: Option<J>,
    pub label: Option<String>,
    pub kind: Option<String>,
    pub words: Option<Vec<String>>,
    pub flag: Option<bool>,
    pub index: Option<u32>,
    pub ondex: Option<u32>,
}
/// The observation of the types' general constructors; the order is that of TYPES.
pub fn make(ty: usize, a: &Args) -> Result<Obs> {
    let (c, r, b, t, q) = (
        a.code.as_deref(),
        a.raw.as_ref().map(|x| &x.0[..]),
        a.qb64b.as_ref().map(|x| &x.0[..]),
        a.qb64.as_deref(),
        a.qb2.as_ref().map(|x| &x.0[..]),
    );
    let ser = a.ser.as_ref().map(|x| &x.0[..]);
    let num: Option<u128> = a.num.as_ref().and_then(|n| n.parse().ok());
    let text = a.text.as_deref();
    let doc = a.doc.as_ref().map(lib);
    let words: Option<Vec<&str>> = a.words.as_ref().map(|w| w.iter().map(|s| s.as_str()).collect());
    let (label, kind) = (a.label.as_deref(), a.kind.as_deref());
    match ty {
        0 => obs(&Verfer::new(c, r, b, t, q)?),
        1 => obs(&Signer::new(a.flag, c, r, b, t, q)?),
        2 => obs(&Salter::new(text, c, r, b, t, q)?),
        3 => obs(&Cigar::new(None, c, r, b, t, q)?),
        4 => obs(&Diger::new(ser, c, r, b, t, q)?),
        5 => obs(&Saider::new(doc.as_ref(), label, kind, words.as_deref(), c, r, b, t, q)?),
        6 => obs(&Prefixer::new(doc.as_ref(), words.as_deref(), c, r, b, t, q)?),
        7 => obs(&Number::new(num, text, c, r, b, t, q)?),
        8 => obs(&Seqner::new(num, text, c, r, b, t, q)?),
        9 => obs(&Dater::new(text, c, r, b, t, q)?),
        10 => obs(&Bexter::new(text, c, r, b, t, q)?),
        11 => obs(&Pather::new(doc.as_ref(), text, c, r, b, t, q)?),
        _ => obs(&<Bare as Matter>::new(c, r, b, t, q)?),
    }
}
pub fn make_idx(ty: usize, a: &Args) -> Result<IObs> {
    let (c, r, b, t, q) = (
        a.code.as_deref(),
        a.raw.as_ref().map(|x| &x.0[..]),
        a.qb64b.as_ref().map(|x| &x.0[..]),
        a.qb64.as_deref(),
        a.qb2.as_ref().map(|x| &x.0[..]),
    );
    match ty {
        0 => iobs(&Siger::new(None, a.index, a.ondex, c, r, b, t, q)?),
        _ => iobs(&<BareIdx as Indexer>::new(a.index, a.ondex, c, r, b, t, q)?),
    }
}

/// codes of every table and not of any
pub fn any_code() -> BoxedStrategy<String> {
    prop_oneof![8 => proptest::sample::select(all_codes()), 1 => junk_text()].boxed()
}
pub fn any_raw() -> BoxedStrategy<B> {
    prop_oneof![
        6 => proptest::sample::select(vec![0usize, 1, 2, 3, 4, 8, 16, 24, 32, 33, 56, 57, 64, 114]).prop_flat_map(bytes_n),
        2 => bytes(0..=130),
    ]
    .boxed()
}
/// texts of primitives, indexed signatures and counters, mutated now and then, and junk
pub fn any_text() -> BoxedStrategy<String> {
    let valid = prop_oneof![
        6 => small_mprim().prop_map(|p| p.encode().0),
        3 => iprim(false).prop_map(|p| p.encode().0),
        1 => counter().prop_map(|(c, n)| counter_encode(&c, n).0),
        1 => (small_mprim(), small_mprim()).prop_map(|(a, b)| a.encode().0 + &b.encode().0),
    ];
    let codes = std::sync::Arc::new(all_codes());
    prop_oneof![
        6 => valid.clone(),
        3 => (valid, muts(3)).prop_map(move |(t, m)| apply(&t, &m, &codes)),
        2 => junk_text(),
    ]
    .boxed()
}
pub fn any_bin() -> BoxedStrategy<B> {
    let valid = prop_oneof![
        6 => small_mprim().prop_map(|p| p.encode().1),
        3 => iprim(false).prop_map(|p| p.encode().1),
        1 => counter().prop_map(|(c, n)| counter_encode(&c, n).1),
    ];
    prop_oneof![6 => valid.clone().prop_map(B), 3 => (valid, bmuts()).prop_map(|(v, m)| B(bapply(&v, &m))), 1 => bytes(0..=40)].boxed()
}
pub fn any_bytes() -> BoxedStrategy<B> {
    prop_oneof![6 => any_text().prop_map(|s| B(s.into_bytes())), 1 => any_bin(), 1 => (any_text(), bmuts()).prop_map(|(t, m)| B(bapply(t.as_bytes(), &m)))].boxed()
}
/// text arguments: numbers in hex, date-times, Base64 texts, paths, tiers
pub fn any_word() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[0-9a-f]{0,40}",
        2 => "[A-Za-z0-9_-]{0,24}",
        1 => "(-[a-z0-9]{0,5}){0,5}",
        1 => "20[0-9]{2}-[01][0-9]-[0-3][0-9]T[0-2][0-9]:[0-6][0-9]:[0-6][0-9].[0-9]{6}[+-][0-2][0-9]:[0-6][0-9]",
        1 => prop_oneof![Just("low"), Just("med"), Just("high"), Just("min"), Just("")].prop_map(String::from),
        1 => text(),
        1 => any::<String>(),
    ]
    .boxed()
}
pub fn any_doc() -> BoxedStrategy<J> {
    let event = |d: BoxedStrategy<serde_json::Map<String, J>>| {
        (d, prop_oneof![6 => Just("KERI10JSON000000_"), 1 => Just("ACDC10JSON000000_"), 1 => Just("KERI10JSONffffff_")], 0usize..8)
            .prop_map(|(d, v, at)| J::Object(insert_at(&d, if at < 6 { 0 } else { at }, "v", J::from(v))))
    };
    let strange = (fields(6), event(super::c20::event_doc().boxed()), any::<usize>(), json(), 0u8..3).prop_map(|(_, e, i, x, how)| {
        // one field removed, retyped or replaced
        let J::Object(mut m) = e else { unreachable!() };
        let k = m.keys().nth(i % m.len()).unwrap().clone();
        match how {
            0 => {
                m.shift_remove(&k);
            }
            1 => {
                let v = m[&k].clone();
                m.insert(k, J::from(vec![v]));
            }
            _ => {
                m.insert(k, x);
            }
        }
        J::Object(m)
    });
    prop_oneof![
        3 => event(super::c20::event_doc().boxed()),
        1 => event(super::c20::cred_doc().boxed()),
        3 => strange,
        1 => event(fields(5)),
        1 => fields(5).prop_map(J::Object),
        2 => json(),
        1 => vec(scalar(), 0..5).prop_map(J::Array),
        1 => vec(prop_oneof![key().prop_map(J::from), (0u32..9).prop_map(J::from)], 0..5).prop_map(J::Array),
    ]
    .boxed()
}
pub fn args(odds: f64) -> BoxedStrategy<Args> {
    use proptest::option::weighted;
    let num = prop_oneof![any::<u128>(), 0u128..300, (0u32..128, -1i8..2).prop_map(|(b, d)| (1u128 << b).wrapping_add(d as u128))];
    (
        (weighted(odds, any_code()), weighted(odds, any_raw()), weighted(odds, any_bytes()), weighted(odds, any_text()), weighted(odds, any_bin())),
        (weighted(odds, bytes(0..=40)), weighted(odds / 2.0, num.prop_map(|n| n.to_string())), weighted(odds, any_word()), weighted(odds / 2.0, any_doc()), weighted(odds, json())),
        (weighted(odds / 2.0, key()), weighted(odds / 2.0, prop_oneof![4 => Just("JSON".to_string()), 1 => text()]), weighted(odds / 2.0, vec(key(), 0..4)), any::<Option<bool>>(), weighted(odds, index_like()), weighted(odds, index_like())),
    )
        .prop_map(|((code, raw, qb64b, qb64, qb2), (ser, num, text, doc, doc2), (label, kind, words, flag, index, ondex))| Args {
            code, raw, qb64b, qb64, qb2, ser, num, text, doc, doc2, label, kind, words, flag, index, ondex,
        })
        .boxed()
}
