use super::common::*;
use crate::engine::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::{ensure, ensure_eq};
use cesride::Counter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
    Count(String, u32),
    Prim { code: String, size: u32, raw: B },
    Sig { code: String, index: u32, ondex: u32, raw: B },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stream {
    items: Vec<Item>,
    /// follows the stream in text and (as bytes) in binary
    tail: String,
    bin_tail: B,
}
/// one long primitive, by its size and a fill pattern
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Big {
    code: String,
    quads: u32,
    fill: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Large {
    before: Vec<Item>,
    big: Vec<Big>,
    after: Vec<Item>,
}
fn large_quads() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => (6u32..18).prop_flat_map(|e| (1u32 << e)..(2u32 << e)),
        1 => (6u32..19).prop_map(|e| 1u32 << e),
        1 => (6u32..19).prop_map(|e| (1u32 << e) - 1),
        1 => (4090u32..4100),
    ]
    .boxed()
}
fn counter_obs(c: &Counter) -> cesride::Result<(String, Vec<u8>, usize)> {
    Ok((c.qb64()?, c.qb2()?, c.full_size()?))
}
fn run(s: &Stream) -> R {
    let mut text = String::new();
    let mut bin: Vec<u8> = vec![];
    // build every item with the library and concatenate both domains
    for (k, it) in s.items.iter().enumerate() {
        let what = format!("building item {k}");
        let (t, b, full) = match it {
            Item::Count(c, n) => must(&what, || counter_obs(&Counter::new_with_code_and_count(c, *n)?))?,
            Item::Prim { code, raw, .. } => {
                let o = must(&what, || (BARE.make)(Route::Raw(code, &raw.0)))?;
                (o.qb64, o.qb2, o.full)
            }
            Item::Sig { code, index, ondex, raw } => {
                let c = icode(code).unwrap();
                let od = if c.current { None } else { Some(*ondex) };
                let o = must(&what, || make_bare_idx(IRoute::Raw(code, &raw.0, *index, od)))?;
                (o.qb64, o.qb2, o.full)
            }
        };
        ensure_eq!(full, t.len(), "item {k}: full size");
        ensure!(t.len() % 4 == 0 && b.len() % 3 == 0, "item {k}: not on a 24-bit boundary: {} characters, {} bytes", t.len(), b.len());
        text.push_str(&t);
        bin.extend(b);
    }
    // whole-stream conversion
    ensure_eq!(B(dec(text.as_bytes()).ok_or("text stream is not Base64")?), B(bin.clone()), "stream text converted to binary");
    ensure_eq!(enc(&bin), text, "stream binary converted to text");
    // front-to-back parsing in both domains with a tail
    let tstream = format!("{text}{}", s.tail);
    let mut bstream = bin.clone();
    bstream.extend(&s.bin_tail.0);
    // a stream may go on in binary after its text
    let mstream = [text.as_bytes(), if s.bin_tail.0.len() % 4 == 0 { s.tail.as_bytes() } else { &s.bin_tail.0 }].concat();
    let (mut tp, mut bp) = (0usize, 0usize);
    for (k, it) in s.items.iter().enumerate() {
        let (t, tb, b) = (&tstream[tp..], &mstream[tp..], &bstream[bp..]);
        let what = format!("parsing item {k} of the stream");
        let n = match it {
            Item::Count(c, n) => {
                for (how, r) in [
                    ("qb64", must(&what, || Counter::new_with_qb64(t))?),
                    ("qb64b", must(&what, || Counter::new_with_qb64b(tb))?),
                    ("qb2", must(&what, || Counter::new_with_qb2(b))?),
                ] {
                    ensure_eq!((r.code(), r.count()), (c.clone(), *n), "{what} from {how}");
                }
                must(&what, || Counter::new_with_qb64(t)?.full_size())?
            }
            Item::Prim { code, size, raw } => {
                let e = MPrim { code: code.clone(), size: *size, raw: raw.0.clone() };
                for (how, r) in [("qb64", Route::Text(t)), ("qb64b", Route::Bytes(tb)), ("qb2", Route::Bin(b))] {
                    same_prim(&must(&what, || (BARE.make)(r))?, &e, &format!("{what} from {how}"))?;
                }
                // typed parsers see the same material
                for ty in TYPES.iter().filter(|t| t.codes.contains(&code.as_str())) {
                    if ty.name == "Signer" && !seed_valid(code, &raw.0) {
                        continue;
                    }
                    for (how, r) in [("qb64", Route::Text(t)), ("qb64b", Route::Bytes(tb)), ("qb2", Route::Bin(b))] {
                        if ty.name == "Dater" && !dater_ok(&raw.0) {
                            continue;
                        }
                        if matches!(ty.name, "Pather" | "Bexter") && raw.0.is_empty() {
                            continue;
                        }
                        same_prim(&must(&what, || (ty.make)(r))?, &e, &format!("{what} as {} from {how}", ty.name))?;
                    }
                }
                must(&what, || (BARE.make)(Route::Text(t)))?.full
            }
            Item::Sig { code, index, ondex, raw } => {
                let e = IPrim { code: code.clone(), index: *index, ondex: *ondex, raw: raw.0.clone() };
                for (how, r) in [("qb64", IRoute::Text(t)), ("qb64b", IRoute::Bytes(tb)), ("qb2", IRoute::Bin(b))] {
                    same_idx(&must(&what, || make_bare_idx(r))?, &e, &format!("{what} from {how}"))?;
                    if SIGER_CODES.contains(&code.as_str()) {
                        same_idx(&must(&what, || make_siger(r))?, &e, &format!("{what} as Siger from {how}"))?;
                    }
                }
                must(&what, || make_bare_idx(IRoute::Text(t)))?.full
            }
        };
        tp += n;
        bp += n / 4 * 3;
    }
    ensure_eq!((tp, bp), (text.len(), bin.len()), "end of the stream");
    let kinds = s.items.iter().map(|i| match i { Item::Count(..) => 1, Item::Prim { .. } => 2, Item::Sig { .. } => 4 }).fold(0, |a, b| a | b);
    okc(s.items.len() >= 2, vec![format!("{} items", s.items.len().min(6)), format!("kinds mask {kinds}")])
}
fn dater_ok(_raw: &[u8]) -> bool {
    true
}
fn item() -> BoxedStrategy<Item> {
    prop_oneof![
        2 => counter().prop_map(|(c, n)| Item::Count(c, n)),
        4 => small_mprim().prop_map(|p| Item::Prim { code: p.code, size: p.size, raw: B(p.raw) }),
        3 => iprim(false).prop_map(|p| Item::Sig { code: p.code, index: p.index, ondex: p.ondex, raw: B(p.raw) }),
    ]
    .boxed()
}
/// a stream as KERI uses them: counters announcing the groups that follow, binary counts exact
fn attachment() -> BoxedStrategy<Stream> {
    let sigs = proptest::collection::vec(iprim_of(icode("A").unwrap(), false), 1..6);
    let couples = proptest::collection::vec((mprim_of(mcode("B").unwrap()), mprim_of(mcode("0B").unwrap())), 0..4);
    let seals = proptest::collection::vec((mprim_of(mcode("0A").unwrap()), mprim_of(mcode("E").unwrap())), 0..3);
    (sigs, couples, seals)
        .prop_map(|(s, c, g)| {
            let mut body: Vec<Item> = vec![];
            let prim = |p: MPrim| Item::Prim { code: p.code, size: p.size, raw: B(p.raw) };
            body.push(Item::Count("-A".into(), s.len() as u32));
            let mut quads = 1;
            for x in s {
                quads += x.fs() / 4;
                body.push(Item::Sig { code: x.code, index: x.index, ondex: x.ondex, raw: B(x.raw) });
            }
            body.push(Item::Count("-C".into(), c.len() as u32));
            quads += 1;
            for (v, sg) in c {
                quads += (v.fs() + sg.fs()) / 4;
                body.push(prim(v));
                body.push(prim(sg));
            }
            body.push(Item::Count("-G".into(), g.len() as u32));
            quads += 1;
            for (n, d) in g {
                quads += (n.fs() + d.fs()) / 4;
                body.push(prim(n));
                body.push(prim(d));
            }
            let mut items = vec![Item::Count("--AAA".into(), 0), Item::Count(if quads < 4096 { "-V".into() } else { "-0V".into() }, quads as u32)];
            items.extend(body);
            Stream { items, tail: "{\"v\":\"KERI10JSON000000_\"}".into(), bin_tail: B(b"{\"v\":".to_vec()) }
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C06",
        rule: "a case is one sequence of counters, primitives and indexed signatures with a tail; nontrivial when it has at least two items; distinct by the serialised sequence",
        assumptions: vec!["reference layout in harness/src/model/cesr.rs"],
        subs: vec![
            prop(
                "C06/streams",
                200000,
                3000000,
                || {
                    (proptest::collection::vec(item(), 0..9), prop_oneof![Just(String::new()), crate::gen::junk_text(), "[A-Za-z0-9_-]{1,90}", "-[A-V][A-Z]{2}"], crate::gen::bytes(0..=70))
                        .prop_map(|(items, tail, bin_tail)| Stream { items, tail, bin_tail })
                },
                run,
            ),
            prop("C06/attachments", 90000, 2000000, attachment, run),
            // large material: sizes of every magnitude the size fields hold, up to about a megabyte,
            // between other primitives
            prop(
                "C06/large-material",
                1000,
                20000,
                || {
                    let big = (large_quads(), 0usize..3, any::<u8>(), 0u8..3).prop_map(|(q, ls, fill, fam)| {
                        let q = q as usize;
                        let code = match (q < 4096, fam, ls) {
                            (true, 0 | 2, l) => ["4A", "5A", "6A"][l],
                            (true, _, l) => ["4B", "5B", "6B"][l],
                            (false, 0 | 2, l) => ["7AAA", "8AAA", "9AAA"][l],
                            (false, _, l) => ["7AAB", "8AAB", "9AAB"][l],
                        };
                        Big { code: code.into(), quads: q as u32, fill }
                    });
                    (proptest::collection::vec(item(), 0..3), proptest::collection::vec(big, 1..3), proptest::collection::vec(item(), 0..3))
                        .prop_map(|(before, big, after)| Large { before, big, after })
                },
                |l: &Large| {
                    let mut items = l.before.clone();
                    for b in &l.big {
                        let ls = mcode(&b.code).unwrap().ls;
                        let raw = (0..b.quads as usize * 3 - ls).map(|i| (i as u8).wrapping_mul(b.fill | 1) ^ (i >> 8) as u8).collect();
                        items.push(Item::Prim { code: b.code.clone(), size: b.quads, raw: B(raw) });
                    }
                    items.extend(l.after.clone());
                    let m = l.big.iter().map(|b| 31 - b.quads.leading_zeros()).max().unwrap();
                    run(&Stream { items, tail: "-AAB".into(), bin_tail: B(vec![0xf8, 0, 1]) })?;
                    okc(true, vec![format!("2^{m} quadlets")])
                },
            ),
            // every ordered pair of codes
            each(
                "C06/all-code-pairs",
                |_| {
                    let mut all: Vec<Item> = vec![];
                    for (c, n) in COUNTER {
                        all.push(Item::Count(c.to_string(), (1u32 << (6 * n)) - 1));
                    }
                    for c in MATTER {
                        let (size, n) = if c.var() { (3u32, 9 - c.ls) } else { (0, c.rs) };
                        let raw = (0..n).map(|i| 0xB7u8.wrapping_mul(i as u8 + 3) ^ 0xff).collect();
                        // construction picks the small form, so large codes appear with the size the small form cannot carry
                        if c.var() && c.ss == 4 {
                            let size = 4096u32;
                            all.push(Item::Prim { code: c.code.into(), size, raw: B(vec![0xA5; size as usize * 3 - c.ls]) });
                        } else {
                            all.push(Item::Prim { code: c.code.into(), size, raw: B(raw) });
                        }
                    }
                    for c in INDEXER {
                        let index = if c.rs.is_none() { 3 } else { c.max_index() };
                        let ondex = if c.current { 0 } else if c.os == 0 { index } else { c.max_ondex() };
                        all.push(Item::Sig { code: c.code.into(), index, ondex, raw: B((0..c.raw_size(index)).map(|i| 0xff ^ i as u8).collect()) });
                    }
                    let all2 = all.clone();
                    all.into_iter().flat_map(move |a| {
                        all2.clone().into_iter().map(move |b| Stream { items: vec![a.clone(), b], tail: "AAAA".into(), bin_tail: B(vec![0xff; 4]) })
                    })
                },
                run,
            ),
        ],
        probes: vec![],
    }
}
