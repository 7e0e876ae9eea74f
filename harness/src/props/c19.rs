use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, ensure_eq};
use cesride::common::{deversify, sizeify, sniff, versify, Version, CURRENT_VERSION};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value as J};

fn opt_word(right: &'static [&'static str]) -> BoxedStrategy<Option<String>> {
    prop_oneof![
        6 => (0..right.len()).prop_map(|i| Some(right[i].to_string())),
        1 => Just(None),
        1 => prop_oneof![
            Just("CBOR"), Just("MGPK"), Just("keri"), Just(""), Just("KERIJSON"), Just("JSO"), Just("CESR"), Just("JSON "), Just("KERI\n"), Just("ACDCX"), Just("ÄBCD"), Just("XXXX")
        ].prop_map(|s| Some(s.to_string())),
        1 => text().prop_map(Some),
    ]
    .boxed()
}
pub fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => (0u32..25, -2i64..3).prop_map(|(b, d)| ((1i64 << b) + d).clamp(0, u32::MAX as i64) as u32),
        3 => 0u32..=0xffffff,
        1 => 0u32..300,
        1 => prop_oneof![Just(0xfffffeu32), Just(0xffffff), Just(0x1000000), Just(0x1000001), Just(u32::MAX)],
        1 => any::<u32>(),
    ]
    .boxed()
}
// ---- composing ------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Compose {
    ident: Option<String>,
    version: Option<(u8, u8)>,
    kind: Option<String>,
    size: Option<u32>,
}
fn compose(c: &Compose) -> R {
    let version = c.version.map(|(major, minor)| Version { major, minor });
    let (major, minor) = c.version.unwrap_or((1, 0));
    let ident = c.ident.clone().unwrap_or("KERI".into());
    let kind = c.kind.clone().unwrap_or("JSON".into());
    let size = c.size.unwrap_or(0);
    let good = (ident == "KERI" || ident == "ACDC") && kind == "JSON" && major < 16 && minor < 16 && size < 1 << 24;
    let got = call("versify", || versify(c.ident.as_deref(), version.as_ref(), c.kind.as_deref(), c.size))?;
    if !good {
        ensure!(got.is_err(), "versify({c:?}) gave {got:?}, expected an error");
        return okc(true, vec!["refused"]);
    }
    let want = Ver { ident, major, minor, kind, size };
    let text = got.map_err(|e| format!("versify({c:?}): {e}"))?;
    ensure_eq!(text, ver_text(&want), "version string");
    ensure_eq!(text.len(), 17, "length of {text}");
    let d = must("deversify", || deversify(&text))?;
    ensure_eq!(
        Ver { ident: d.ident, major: d.version.major, minor: d.version.minor, kind: d.kind, size: d.size },
        want,
        "{text} taken apart"
    );
    okc(true, vec!["composed"])
}
// ---- taking apart ----------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Apart {
    text: String,
}
fn apart(c: &Apart) -> R {
    let want = parse_ver(&c.text);
    match (call("deversify", || deversify(&c.text))?, want) {
        (Ok(d), Some(w)) => {
            ensure_eq!(
                Ver { ident: d.ident, major: d.version.major, minor: d.version.minor, kind: d.kind, size: d.size },
                w,
                "{:?} taken apart",
                c.text
            );
            okc(true, vec!["parsed"])
        }
        (Err(_), None) => okc(true, vec!["refused"]),
        (Ok(d), None) => Err(format!("{:?} is no version string but gave {d:?}", c.text)),
        (Err(e), Some(w)) => Err(format!("{:?} is {w:?} but was refused: {e}", c.text)),
    }
}
pub fn ver() -> BoxedStrategy<Ver> {
    (
        prop_oneof![6 => Just("KERI"), 3 => Just("ACDC"), 1 => Just("CESR"), 1 => Just("SPAC")],
        prop_oneof![3 => Just((1u8, 0u8)), 1 => (0u8..16, 0u8..16)],
        prop_oneof![8 => Just("JSON"), 1 => Just("CBOR"), 1 => Just("MGPK")],
        size(),
    )
        .prop_map(|(i, (major, minor), k, s)| Ver { ident: i.into(), major, minor, kind: k.into(), size: s & 0xffffff })
        .boxed()
}
fn near_ver() -> BoxedStrategy<String> {
    let m = prop_oneof![
        4 => (0usize..17, prop_oneof![Just('0'), Just('9'), Just('a'), Just('f'), Just('g'), Just('A'), Just('F'), Just('Z'), Just('_'), Just('-'), Just('+'), Just(' '), Just('é'), Just('K'), Just('０')])
            .prop_map(|(i, c)| (0u8, i, c.to_string())),
        1 => (0usize..17).prop_map(|i| (1, i, String::new())),
        1 => (0usize..18, "[0-9a-zA-Z_]").prop_map(|(i, s)| (2, i, s)),
        1 => prop_oneof![Just("\n".to_string()), Just(" ".into()), Just("_".into()), Just("0".into()), text()].prop_map(|s| (3, 0, s)),
        1 => prop_oneof![Just("\n".to_string()), Just(" ".into()), Just("K".into()), Just("0".into()), text(), Just("KERI10JSON000000_".into())].prop_map(|s| (4, 0, s)),
        1 => any::<bool>().prop_map(|b| (5, b as usize, String::new())),
    ];
    (ver(), vec(m, 0..3))
        .prop_map(|(v, ms)| {
            let mut t: Vec<char> = ver_text(&v).chars().collect();
            for (k, i, s) in ms {
                let n = t.len();
                match k {
                    0 if n > 0 => t[i % n] = s.chars().next().unwrap(),
                    1 if n > 0 => {
                        t.remove(i % n);
                    }
                    2 => t.insert(i % (n + 1), s.chars().next().unwrap()),
                    3 => t.extend(s.chars()),
                    4 => t = s.chars().chain(t).collect(),
                    5 if i == 0 => t = t.into_iter().collect::<String>().to_lowercase().chars().collect(),
                    5 => t = t.into_iter().collect::<String>().to_uppercase().chars().collect(),
                    _ => {}
                }
            }
            t.into_iter().collect()
        })
        .boxed()
}
// ---- sizing -----------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sized {
    doc: Map<String, J>,
    /// a long text is appended as a field, of this many letters
    long: usize,
    kind: Option<String>,
    tail: B,
}
fn sniffed(raw: &[u8]) -> Result<cesride::Result<Ver>, String> {
    Ok(call("sniff", || sniff(raw))?.map(|s| Ver { ident: s.ident, major: s.version.major, minor: s.version.minor, kind: s.kind, size: s.size }))
}
fn sized(c: &Sized) -> R {
    let mut doc = c.doc.clone();
    if c.long > 0 {
        doc.insert("long".into(), J::String("x".repeat(c.long)));
    }
    let v = libm(&doc);
    let want = match c.kind.as_deref() {
        None | Some("JSON") => size_doc(&doc),
        _ => None,
    };
    let before = v.clone();
    let got = call("sizeify", || sizeify(&v, c.kind.as_deref()))?;
    ensure!(v == before, "sizing changed the document it was given");
    let short = |s: &str| -> String { s.chars().take(300).collect() };
    let (wd, ws) = match (got.is_ok(), want) {
        (false, None) => return okc(true, vec!["refused"]),
        (true, None) => return Err(format!("sizing accepted {} (kind {:?})", short(&compact_map(&doc)), c.kind)),
        (false, Some(_)) => return Err(format!("sizing refused {}: {}", short(&compact_map(&doc)), got.err().unwrap())),
        (true, Some(w)) => w,
    };
    let r = got.unwrap();
    let stated = parse_ver(wd["v"].as_str().unwrap()).unwrap();
    ensure!(r.raw == ws.as_bytes(), "serialized as {}, expected {}", short(&String::from_utf8_lossy(&r.raw)), short(&ws));
    ensure_eq!(r.raw.len(), stated.size as usize, "length of the serialization");
    if c.long < 5000 {
        same_doc(&r.ked, &wd, "sized document")?;
    } else {
        ensure_eq!(r.ked["v"].to_string().ok(), wd["v"].as_str().map(String::from), "stated in the document");
    }
    ensure_eq!((r.ident.as_str(), r.kind.as_str()), (stated.ident.as_str(), "JSON"), "ident and kind");
    ensure_eq!(r.version, *CURRENT_VERSION, "version");
    // sizing again changes nothing
    if c.long < 5000 {
        let again = must("sizeify again", || sizeify(&r.ked, None))?;
        ensure_eq!(again, r, "sized again");
    }
    // sniffing, whatever follows
    let mut stream = r.raw.clone();
    stream.extend_from_slice(&c.tail.0);
    let got = sniffed(&stream)?;
    if stream.len() < 29 {
        ensure!(got.is_err(), "sniffing {} bytes gave {got:?}", stream.len());
        return okc(true, vec!["too short to sniff"]);
    }
    let got = got.map_err(|e| format!("sniffing {} followed by {:?}: {e}", short(&ws), c.tail))?;
    ensure_eq!(got, stated, "sniffed from {} followed by {:?}", short(&ws), c.tail);
    okc(true, vec![if std::str::from_utf8(&c.tail.0).is_ok() { "sized and sniffed" } else { "sized and sniffed, tail not text" }])
}
pub fn tail() -> BoxedStrategy<B> {
    prop_oneof![
        2 => Just(B(vec![])),
        3 => bytes(0..=40),
        1 => text().prop_map(|s| B(s.into_bytes())),
        1 => ver().prop_map(|v| B(format!("{{\"v\":\"{}\"}}", ver_text(&v)).into_bytes())),
        1 => Just(B(b"-AABAABwEaPM_d1Z".to_vec())),
    ]
    .boxed()
}
fn doc() -> BoxedStrategy<Map<String, J>> {
    let v = prop_oneof![
        10 => ver().prop_map(|v| J::String(ver_text(&Ver { major: 1, minor: 0, kind: "JSON".into(), ident: if v.ident == "ACDC" { v.ident } else { "KERI".into() }, ..v }))),
        2 => ver().prop_map(|v| J::String(ver_text(&v))),
        1 => near_ver().prop_map(J::String),
        1 => scalar(),
    ];
    (fields(8), v, prop_oneof![8 => Just(0usize), 1 => 0usize..9], 0u8..20)
        .prop_map(|(f, v, at, none)| if none == 0 { f } else { insert_at(&f, at, "v", v) })
        .boxed()
}
// ---- sniffing ---------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Smell {
    raw: B,
}
fn smell(c: &Smell) -> R {
    let raw = &c.raw.0;
    let got = sniffed(raw)?;
    let show = || String::from_utf8_lossy(raw).to_string();
    if raw.len() < 29 {
        ensure!(got.is_err(), "{} bytes sniffed as {got:?}", raw.len());
        return okc(true, vec!["too short"]);
    }
    match (0..13).find_map(|i| ver_at(&raw[i..]).map(|v| (i, v))) {
        None => {
            ensure!(got.is_err(), "{:?} has no version string in front but gave {got:?}", show());
            okc(true, vec!["none"])
        }
        Some((at, v)) => {
            if v.kind != "JSON" {
                ensure!(got.is_err(), "kind {} sniffed as {got:?}", v.kind);
                return okc(true, vec!["other kind"]);
            }
            match got {
                Ok(g) => ensure_eq!(g, v, "sniffed from {:?}", show()),
                Err(e) => ensure!(
                    !["KERI", "ACDC"].contains(&v.ident.as_str()) || std::str::from_utf8(&raw[..at]).is_err(),
                    "{:?} has a version string at {at} but was refused: {e}",
                    show()
                ),
            }
            okc(true, vec![format!("at {at}")])
        }
    }
}
fn smells() -> BoxedStrategy<Smell> {
    let front = prop_oneof![
        4 => Just(b"{\"v\":\"".to_vec()),
        3 => (0usize..16).prop_map(|n| b"{\"v\":  [[[ \"\"\"\""[..n.min(16)].to_vec()),
        2 => bytes(0..=15).prop_map(|b| b.0),
        1 => Just("{\"é€\":\"".as_bytes().to_vec()),
        1 => Just(b"KERI".to_vec()),
        1 => Just(b"KERI10JSON0000".to_vec()),
    ];
    let v = prop_oneof![6 => ver().prop_map(|v| ver_text(&v)), 2 => near_ver()];
    let back = prop_oneof![
        2 => bytes(0..=30).prop_map(|b| b.0),
        3 => Just(b"\",\"d\":\"\",\"i\":\"0123456789\"}".to_vec()),
        1 => near_ver().prop_map(|s| s.into_bytes()),
        1 => Just("é€𝄞é€𝄞é€𝄞".as_bytes().to_vec()),
    ];
    (front, v, back)
        .prop_map(|(f, v, b)| Smell { raw: B([f, v.into_bytes(), b].concat()) })
        .boxed()
}

pub fn check() -> Check {
    Check {
        id: "C19",
        rule: "every case: a composition compared with the grammar, a string judged by it, a document sized by the reference rule, or bytes sniffed",
        assumptions: vec![
            "sniffing a version string of an unknown protocol, or one behind bytes that are not UTF-8, may give its fields or an error",
            "a document whose first version-like text within 12 bytes is not its own version string has no defined size and is refused",
        ],
        subs: vec![
            each(
                "all version pairs",
                |e| {
                    let step = if e.thorough { 1 } else { 1 };
                    (0..65536u32).filter(move |x| x % step == 0 || (x >> 8 < 18 && x & 255 < 18)).map(|x| Compose {
                        ident: Some(if x % 2 == 0 { "KERI" } else { "ACDC" }.into()),
                        version: Some(((x >> 8) as u8, x as u8)),
                        kind: None,
                        size: Some(x.wrapping_mul(2654435761) >> 8),
                    })
                },
                compose,
            ),
            each(
                "sizes",
                |e| {
                    let n: u32 = if e.thorough { 1 << 24 } else { 200000 };
                    (0..n).chain((4..25).flat_map(|b| (1u32 << b) - 3..(1 << b) + 3)).chain([u32::MAX, 1 << 25, 1 << 28, 0x10000a0]).map(|s| Compose { ident: None, version: None, kind: Some("JSON".into()), size: Some(s) })
                },
                compose,
            ),
            prop(
                "compose",
                800000,
                20000000,
                || {
                    (
                        opt_word(&["KERI", "ACDC"]),
                        prop_oneof![3 => Just(None), 3 => (0u8..18, 0u8..18).prop_map(Some), 1 => any::<(u8, u8)>().prop_map(Some)],
                        opt_word(&["JSON"]),
                        proptest::option::weighted(0.9, size()),
                    )
                        .prop_map(|(ident, version, kind, size)| Compose { ident, version, kind, size })
                },
                compose,
            ),
            prop("take apart", 2000000, 20000000, || prop_oneof![8 => near_ver(), 1 => junk_text(), 1 => text()].prop_map(|text| Apart { text }), apart),
            prop(
                "size and sniff",
                200000,
                3000000,
                || {
                    (
                        doc(),
                        prop_oneof![20 => Just(0usize), 3 => 0usize..600, 2 => 3900usize..4200, 1 => 65300usize..65600],
                        prop_oneof![4 => Just(None), 2 => Just(Some("JSON".to_string())), 1 => prop_oneof![Just("CBOR"), Just(""), Just("json")].prop_map(|s| Some(s.to_string()))],
                        tail(),
                    )
                        .prop_map(|(doc, long, kind, tail)| Sized { doc, long, kind, tail })
                },
                sized,
            ),
            each(
                "largest documents",
                |_| {
                    // {"v":"KERI10JSON000000_","long":"..."} is 35 bytes and the text
                    [1usize << 20, (1 << 24) - 37, (1 << 24) - 36, (1 << 24) - 35, (1 << 24) - 34, (1 << 24) + 5]
                        .into_iter()
                        .map(|long| Sized { doc: [("v".to_string(), J::from("KERI10JSON000000_"))].into_iter().collect(), long, kind: None, tail: B(b"tail".to_vec()) })
                },
                sized,
            ),
            prop("sniff", 2000000, 20000000, smells, smell),
        ],
        probes: vec![],
    }
}
