use super::args::*;
use super::common::*;
use crate::engine::*;
use crate::model::cesr::*;
use crate::types::*;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const DIGESTIVE: [&str; 9] = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const NON_TRANSFERABLE: [&str; 4] = ["B", "1AAA", "1AAC", "1AAI"];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Material {
    Matter(String, u32, B),
    Indexed(String, u32, u32, B),
    Counter(String, u32),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    ty: usize,
    material: Material,
    after: B,
}
fn flags(o: &Obs, what: &str) -> Result<(), String> {
    ensure_eq!(o.digestive, DIGESTIVE.contains(&o.code.as_str()), "{what}: {} classified as digest", o.code);
    ensure_eq!(o.transferable, !NON_TRANSFERABLE.contains(&o.code.as_str()), "{what}: {} classified as transferable", o.code);
    Ok(())
}
fn admits(t: &Ty, p: &Option<MPrim>) -> bool {
    p.as_ref().is_some_and(|p| (t.codes.is_empty() || t.codes.contains(&p.code.as_str())) && (t.name != "Signer" || seed_valid(&p.code, &p.raw)))
}
fn judge(t: &Ty, what: &str, want: Option<MPrim>, got: cesride::Result<Obs>) -> Result<bool, String> {
    match (admits(t, &want), got) {
        (false, Ok(o)) => Err(format!("{} {what}: admitted code {} ({:?} expected {want:?})", t.name, o.code, o)),
        (true, Err(e)) => Err(format!("{} {what}: refused {want:?}: {e}", t.name)),
        (false, Err(_)) => Ok(false),
        (true, Ok(o)) => {
            same_prim(&o, &want.unwrap(), &format!("{} {what}", t.name))?;
            flags(&o, t.name)?;
            Ok(true)
        }
    }
}
fn run(c: &Case) -> R {
    let all = TYPES.len();
    let (text, bin, by_raw) = match &c.material {
        Material::Matter(code, size, raw) => {
            let (t, b) = MPrim { code: code.clone(), size: *size, raw: raw.0.clone() }.encode();
            (t, b, Some((code.clone(), raw.0.clone(), None)))
        }
        Material::Indexed(code, index, ondex, raw) => {
            let p = IPrim { code: code.clone(), index: *index, ondex: *ondex, raw: raw.0.clone() };
            let (t, b) = p.encode();
            let o = (icode(code).unwrap().os > 0).then_some(*ondex);
            (t, b, Some((code.clone(), raw.0.clone(), Some((*index, o)))))
        }
        Material::Counter(code, n) => {
            let (t, b) = counter_encode(code, *n);
            (t, b, None)
        }
    };
    let mut tb = text.clone().into_bytes();
    tb.extend(&c.after.0);
    let mut bb = bin.clone();
    bb.extend(&c.after.0);
    let mut n = 0;
    let mut classes = vec![];
    if c.ty <= all {
        let t = if c.ty == all { &BARE } else { &TYPES[c.ty] };
        for (route, f) in [("constructor", t.make), ("new", t.make_new)] {
            if let Some((code, raw, _)) = &by_raw {
                let r = call(t.name, || f(Route::Raw(code, raw)))?;
                n += judge(t, &format!("{route} from raw with code {code}"), matter_from_raw(code, raw), r)? as u32;
            }
            let r = call(t.name, || f(Route::Text(&text)))?;
            n += judge(t, &format!("{route} from text {text}"), matter_parse(text.as_bytes()), r)? as u32;
            let r = call(t.name, || f(Route::Bytes(&tb)))?;
            n += judge(t, &format!("{route} from bytes of {text}"), matter_parse(&tb), r)? as u32;
            let r = call(t.name, || f(Route::Bin(&bb)))?;
            n += judge(t, &format!("{route} from binary of {text}"), matter_parse_bin(&bb), r)? as u32;
        }
        classes.push(format!("{} {}", t.name, match n { 0 => "refuses", 8 => "admits", _ => "admits some" }));
    } else {
        let siger = |p: Option<IPrim>, got: cesride::Result<IObs>, what: &str| -> Result<u32, String> {
            let good = p.as_ref().is_some_and(|p| SIGER_CODES.contains(&p.code.as_str()));
            match (good, got) {
                (false, Ok(o)) => Err(format!("Siger {what}: admitted {o:?}")),
                (true, Err(e)) => Err(format!("Siger {what}: refused {p:?}: {e}")),
                (false, Err(_)) => Ok(0),
                (true, Ok(o)) => same_idx(&o, &p.unwrap(), what).map(|_| 1),
            }
        };
        if let Some((code, raw, idx)) = &by_raw {
            let (i, o) = idx.unwrap_or((0, None));
            let r = call("Siger", || make_siger(IRoute::Raw(code, raw, i, o)))?;
            n += siger(indexer_from_raw(code, raw, i, o), r, &format!("from raw with code {code}"))?;
        }
        n += siger(indexer_parse(text.as_bytes()), call("Siger", || make_siger(IRoute::Text(&text)))?, &format!("from text {text}"))?;
        n += siger(indexer_parse(&tb), call("Siger", || make_siger(IRoute::Bytes(&tb)))?, &format!("from bytes of {text}"))?;
        n += siger(indexer_parse_bin(&bb), call("Siger", || make_siger(IRoute::Bin(&bb)))?, &format!("from binary of {text}"))?;
        classes.push(format!("Siger {}", match n { 0 => "refuses", 4 => "admits", _ => "admits some" }));
    }
    okc(true, classes)
}
/// one fixed material per code and a few raw contents
fn examples(thorough: bool) -> Vec<Material> {
    let reps = if thorough { 60u64 } else { 6 };
    let mut out = vec![];
    let fill = |n: usize, seed: u64| -> B {
        let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
        B((0..n)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                match seed % 6 {
                    0 => 0,
                    1 => 0xff,
                    _ => x as u8,
                }
            })
            .collect())
    };
    for k in 0..reps {
        for c in MATTER {
            if c.var() {
                let size = 1 + (k as usize % 7);
                out.push(Material::Matter(c.code.into(), size as u32, fill(size * 3 - c.ls, k)));
            } else {
                out.push(Material::Matter(c.code.into(), 0, fill(c.rs, k)));
            }
        }
        for c in INDEXER {
            let index = k as u32 % (c.max_index().min(64) + 1);
            let ondex = if c.current { 0 } else if c.os == 0 { index } else { (k as u32 * 7) % (c.max_ondex() + 1) };
            out.push(Material::Indexed(c.code.into(), index, ondex, fill(c.raw_size(index), k)));
        }
        for (c, _) in COUNTER {
            out.push(Material::Counter(c.to_string(), 1 + k as u32));
        }
    }
    out
}
// ---- every combination of arguments keeps to the type's codes -----------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Combo {
    ty: usize,
    args: Args,
}
fn combo(c: &Combo) -> R {
    if c.ty > TYPES.len() {
        return match call("Siger", || make_idx(0, &c.args))? {
            Err(_) => okc(false, vec!["Siger refused"]),
            Ok(o) => {
                ensure!(SIGER_CODES.contains(&o.code.as_str()), "Siger holds code {} from {:?}", o.code, c.args);
                ensure_eq!(must("reparse", || make_siger(IRoute::Text(&o.qb64)))?, o, "Siger re-parsed");
                okc(true, vec!["Siger"])
            }
        };
    }
    let t = if c.ty == TYPES.len() { &BARE } else { &TYPES[c.ty] };
    match call(t.name, || make(c.ty, &c.args))? {
        Err(_) => okc(false, vec![format!("{} refused", t.name)]),
        Ok(o) => {
            ensure!(t.codes.is_empty() || t.codes.contains(&o.code.as_str()), "{} holds code {} from {:?}", t.name, o.code, c.args);
            flags(&o, t.name)?;
            let p = matter_parse(o.qb64.as_bytes()).ok_or_else(|| format!("{}: its text {} is malformed", t.name, o.qb64))?;
            same_prim(&o, &p, t.name)?;
            if t.name != "Signer" || seed_valid(&o.code, &o.raw) {
                ensure_eq!(must("reparse", || (t.make)(Route::Text(&o.qb64)))?, o, "{} re-parsed", t.name);
            }
            okc(true, vec![t.name])
        }
    }
}
pub fn check() -> Check {
    Check {
        id: "C21",
        rule: "a type tried with one material through every route and judged by its set of codes; or an argument combination that gave an object",
        assumptions: vec![
            "a seed of the two ECDSA curves must also be a private key of the curve",
            "indexed-signature and counter texts reach the non-indexed types through the same letters; what they then are is decided by the reference parser",
        ],
        subs: vec![
            each(
                "every type and code",
                |e| {
                    let ex = examples(e.thorough);
                    (0..TYPES.len() + 2).flat_map(move |ty| ex.clone().into_iter().map(move |material| Case { ty, material, after: B(vec![]) }))
                },
                run,
            ),
            prop(
                "random material",
                1000000,
                20000000,
                || {
                    let m = prop_oneof![
                        6 => small_mprim().prop_map(|p| Material::Matter(p.code, p.size, B(p.raw))),
                        3 => iprim(false).prop_map(|p| Material::Indexed(p.code, p.index, p.ondex, B(p.raw))),
                        1 => counter().prop_map(|(c, n)| Material::Counter(c, n)),
                    ];
                    (0..TYPES.len() + 2, m, prop_oneof![Just(B(vec![])), crate::gen::bytes(0..=20)]).prop_map(|(ty, material, after)| Case { ty, material, after })
                },
                run,
            ),
            prop("argument combinations", 400000, 8000000, || (0..TYPES.len() + 2, prop_oneof![args(0.15), args(0.4)]).prop_map(|(ty, args)| Combo { ty, args }), combo),
        ],
        probes: vec![],
    }
}
