use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::ensure_eq;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    code: String,
    raw: B,
    index: u32,
    ondex: Option<u32>,
}
fn run(c: &Case) -> R {
    let exp = indexer_from_raw(&c.code, &c.raw.0, c.index, c.ondex);
    let sexp = exp.clone().filter(|e| SIGER_CODES.contains(&e.code.as_str()));
    type Mk = fn(IRoute) -> cesride::Result<IObs>;
    let makers: [(&str, Mk, &Option<IPrim>); 2] = [("Indexer", make_bare_idx, &exp), ("Siger", make_siger, &sexp)];
    for (name, mk, exp) in makers {
        let what = format!("{name} from raw (code {:?}, index {}, ondex {:?})", c.code, c.index, c.ondex);
        match (exp, call(&what, || mk(IRoute::Raw(&c.code, &c.raw.0, c.index, c.ondex)))?) {
            (None, Err(_)) => {}
            (None, Ok(o)) => return Err(format!("{what}: accepted as index {} ondex {}, expected an error", o.index, o.ondex)),
            (Some(_), Err(e)) => return Err(format!("{what}: unexpected error {e}")),
            (Some(e), Ok(o)) => same_idx(&o, e, &what)?,
        }
        if let Some(e) = exp {
            let (t, b) = e.encode();
            for (how, r) in [("qb64", IRoute::Text(&t)), ("qb64b", IRoute::Bytes(t.as_bytes())), ("qb2", IRoute::Bin(&b))] {
                let what = format!("{name} from {how}");
                let o = must(&what, || mk(r))?;
                same_idx(&o, e, &what)?;
            }
        }
    }
    let code = if all_codes().contains(&c.code) { c.code.as_str() } else { "no code" };
    okc(true, vec![format!("{code}:{}", if exp.is_some() { "ok" } else { "error" })])
}
fn strat() -> BoxedStrategy<Case> {
    (0..INDEXER.len())
        .prop_flat_map(|i| {
            let c = &INDEXER[i];
            let (ms, os) = (c.ms, c.os.max(1));
            let index = if c.rs.is_none() { prop_oneof![9 => 0u32..60, 1 => 4080u32..4100].boxed() } else { prop_oneof![3 => field(ms), 1 => index_like()].boxed() };
            index.prop_flat_map(move |index| {
                let ondex = prop_oneof![
                    2 => Just(None),
                    2 => Just(Some(index)),
                    2 => field(os).prop_map(Some),
                    1 => index_like().prop_map(Some),
                    1 => Just(Some(0u32)),
                ];
                let rs = if index <= c.max_index() { c.raw_size(index) } else { 64 };
                let len = prop_oneof![8 => Just(rs), 1 => rs..rs + 4, 1 => 0..rs.max(1), 1 => Just(rs.saturating_sub(1))];
                (ondex, len.prop_flat_map(bytes_n)).prop_map(move |(ondex, raw)| Case { code: c.code.into(), raw, index, ondex })
            })
        })
        .boxed()
}
/// an object whose parts were set one by one
fn set_parts<I: cesride::Indexer>(c: &Case) -> R {
    let mut m = I::default();
    let ondex = c.ondex.unwrap_or(c.index);
    m.set_code(&c.code);
    m.set_index(c.index);
    m.set_ondex(ondex);
    m.set_raw(&c.raw.0);
    let k = icode(&c.code).unwrap();
    let fits = c.index <= k.max_index() && (k.os == 0 || ondex <= k.max_ondex()) && c.raw.0.len() == k.raw_size(c.index);
    let what = format!("an object given code {:?}, index {}, ondex {ondex} and {} raw bytes", c.code, c.index, c.raw.0.len());
    let (t, b, v) = (call(&what, || m.qb64())?, call(&what, || m.qb2())?, call(&what, || m.qb64b())?);
    if fits {
        // an ondex that the code cannot carry is not judged beyond the forms agreeing
        if k.current && ondex != 0 || k.os == 0 && ondex != c.index {
            ensure_eq!(t.is_ok(), b.is_ok(), "{what}: qb64 and qb2 disagree");
            return okc(false, vec![format!("{}:ondex", c.code)]);
        }
        let (et, eb) = IPrim { code: c.code.clone(), index: c.index, ondex, raw: c.raw.0.clone() }.encode();
        ensure_eq!(t.map_err(|e| format!("{what}: qb64: {e}"))?, et, "{what}: qb64");
        ensure_eq!(v.map_err(|e| format!("{what}: qb64b: {e}"))?, et.into_bytes(), "{what}: qb64b");
        ensure_eq!(b.map_err(|e| format!("{what}: qb2: {e}"))?, eb, "{what}: qb2");
    } else {
        for (how, r) in [("qb64", t), ("qb64b", v.map(|v| String::from_utf8_lossy(&v).into_owned())), ("qb2", b.map(|b| format!("{b:02x?}")))] {
            if let Ok(o) = r {
                return Err(format!("{what} has {how} {o:?}, but its parts do not fit each other"));
            }
        }
    }
    okc(true, vec![format!("{}:{}", c.code, if fits { "fits" } else { "misfit" })])
}
fn parts_strat() -> BoxedStrategy<Case> {
    (0..INDEXER.len())
        .prop_flat_map(|i| {
            let c = &INDEXER[i];
            let index = if c.rs.is_none() { prop_oneof![9 => 0u32..60, 1 => 4080u32..4100].boxed() } else { prop_oneof![3 => field(c.ms), 1 => index_like()].boxed() };
            (index, prop_oneof![3 => Just(None), 2 => Just(Some(0u32)), 3 => field(c.os.max(1)).prop_map(Some), 1 => index_like().prop_map(Some)]).prop_flat_map(move |(index, ondex)| {
                let rs = if index <= c.max_index() { c.raw_size(index) } else { c.rs.unwrap_or(64) };
                let len = prop_oneof![6 => Just(rs), 3 => rs.saturating_sub(7)..rs + 8, 1 => 0usize..130];
                len.prop_flat_map(bytes_n).prop_map(move |raw| Case { code: c.code.into(), raw, index, ondex })
            })
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C03",
        rule: "a case is one (code, raw, index, other-index) through all construction routes of Siger and of a bare Indexer; every case is nontrivial; distinct by the serialised case; classes count code and expected outcome",
        assumptions: vec!["reference tables and layout in harness/src/model/cesr.rs"],
        subs: vec![
            prop("C03/random", 900000, 20000000, strat, run),
            prop("C03/parts", 200000, 8000000, parts_strat, |c: &Case| {
                set_parts::<BareIdx>(c)?;
                set_parts::<cesride::Siger>(c)
            }),
            // every (index, ondex) pair near the field-width boundaries for every code
            each(
                "C03/boundaries",
                |env| {
                    let mut vals: Vec<u32> = vec![0, 1, 2, 62, 63, 64, 65, 127, 128, 4094, 4095, 4096, 4097, 262142, 262143, 262144, 262145, (1 << 24) - 1, 1 << 24, 1 << 30, u32::MAX];
                    if env.thorough {
                        vals.extend(3..62);
                        vals.extend((0..26).map(|k| 3u32 << k));
                    }
                    INDEXER.iter().flat_map(move |c| {
                        let vals = vals.clone();
                        vals.clone().into_iter().filter(move |v| c.rs.is_some() || *v < 5000).flat_map(move |index| {
                            std::iter::once(None).chain(vals.clone().into_iter().map(Some)).map(move |ondex| {
                                let n = if index <= c.max_index() { c.raw_size(index) } else { 114 };
                                Case { code: c.code.into(), raw: B((0..n).map(|i| i as u8 ^ 0xa5).collect()), index, ondex }
                            })
                        })
                    })
                },
                run,
            ),
            each(
                "C03/every-small-index",
                |env| {
                    let max = if env.thorough { 4096 } else { 300 };
                    INDEXER.iter().flat_map(move |c| {
                        (0..=max.min(c.max_index() + 2)).map(move |index| {
                            let n = if index <= c.max_index() { c.raw_size(index) } else { 64 };
                            Case { code: c.code.into(), raw: B((0..n).map(|i| i as u8 ^ 0x3c).collect()), index, ondex: None }
                        })
                    })
                },
                run,
            ),
            prop(
                "C03/bad-code",
                200000,
                20000000,
                || (prop_oneof![proptest::sample::select(all_codes()), junk_text()], bytes(0..=130), 0u32..70).prop_map(|(code, raw, index)| Case { code, raw, index, ondex: None }),
                run,
            ),
        ],
        probes: vec![],
    }
}
