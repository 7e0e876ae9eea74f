//! Dropped signers and salters leave no seed or salt in the memory they give back.
use super::common::*;
use crate::engine::*;
use crate::spy;
use crate::ensure_eq;
use cesride::{Matter, Salter, Signer, Verfer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// a signer of the suite by the route, with the given seed
    Signer { suite: usize, seed: B, route: u8, transferable: Option<bool> },
    /// one with a seed of its own
    FreshSigner { suite: usize, transferable: Option<bool> },
    Salter { salt: B, route: u8, tier: Option<String> },
    FreshSalter { tier: Option<String> },
    /// a signer, or several, stretched from a salter (picked)
    Derive { from: usize, suite: usize, count: usize },
    Clone(usize),
    /// clone_from, releasing what was held
    CloneFrom { to: usize, from: usize },
    /// put another object in its place, releasing what was held
    Replace { at: usize, with: usize },
    /// moved about: through a vector that grows, a box, an option
    Move(usize),
    Use { at: usize, msg: B },
    Drop { at: usize, thread: bool },
    /// several together, as one vector
    DropSome { at: usize, n: usize },
}
#[derive(Debug, Clone)]
enum Obj {
    Signer(Box<Signer>),
    Salter(Box<Salter>),
}
struct Held {
    obj: Obj,
    secret: Vec<u8>,
    code: String,
    verfer: Option<Verfer>,
    tier: String,
    how: &'static str,
}
fn raw(o: &Obj) -> Vec<u8> {
    match o {
        Obj::Signer(s) => s.raw(),
        Obj::Salter(s) => s.raw(),
    }
}
fn hold_signer(s: Signer, how: &'static str) -> Held {
    Held { secret: s.raw(), code: s.code(), verfer: Some(s.verfer()), tier: String::new(), obj: Obj::Signer(Box::new(s)), how }
}
fn hold_salter(s: Salter, how: &'static str) -> Held {
    Held { secret: s.raw(), code: s.code(), verfer: None, tier: s.tier(), obj: Obj::Salter(Box::new(s)), how }
}
const SUITES: [&str; 3] = ["A", "J", "Q"];
/// fills the spaces with bytes none of which is zero, so that what is left of a secret shows
fn secret_ok(s: &[u8]) -> bool {
    let mut seen = [false; 256];
    s.iter().all(|b| *b != 0) && s.iter().filter(|b| !std::mem::replace(&mut seen[**b as usize], true)).count() * 4 >= s.len() * 3
}
fn intact(h: &Held, what: &str) -> Result<(), String> {
    ensure_eq!(B(raw(&h.obj)), B(h.secret.clone()), "{what}: secret of the {} still alive", h.how);
    match &h.obj {
        Obj::Signer(s) => {
            ensure_eq!(s.code(), h.code, "{what}: code");
            ensure_eq!(Some(s.verfer()), h.verfer, "{what}: public key");
        }
        Obj::Salter(s) => {
            ensure_eq!(s.code(), h.code, "{what}: code");
            ensure_eq!(s.tier(), h.tier, "{what}: tier");
        }
    }
    Ok(())
}
fn judge(h: (&'static str, &str), secret: &[u8], r: spy::Report) -> Result<usize, String> {
    if let Some(f) = r.found {
        return Err(format!(
            "dropping the {} with code {} gave back a block of {} bytes with {} of the {} secret bytes in it, at {}",
            h.0,
            h.1,
            f.block_size,
            f.left,
            secret.len(),
            f.offset
        ));
    }
    Ok(r.held)
}
struct World {
    objs: Vec<Held>,
    drops: usize,
    held: usize,
}
impl World {
    fn pick(&self, i: usize) -> Option<usize> {
        (!self.objs.is_empty()).then(|| i % self.objs.len())
    }
    fn gone(&mut self, h: Held, thread: bool) -> Result<(), String> {
        let Held { obj, secret, code, how, .. } = h;
        let r = if thread {
            spy::watch_elsewhere(obj, &secret).ok_or("dropping panicked")?
        } else {
            spy::watch(obj, &secret)
        };
        self.held += judge((how, &code), &secret, r)?;
        self.drops += 1;
        Ok(())
    }
}
fn body(steps: &[Step], w: &mut World, classes: &mut Vec<String>) -> Result<(), String> {
    for st in steps {
        match st {
            Step::Signer { suite, seed, route, transferable } => {
                let code = SUITES[*suite % 3];
                if !seed_valid(code, &seed.0) {
                    continue;
                }
                let t = *transferable;
                let first = must("signer", || Signer::new(t, Some(code), Some(&seed.0), None, None, None))?;
                let (s, how) = match route % 8 {
                    0 => (first, "signer made from raw bytes"),
                    1 => (must("signer", || Signer::new_with_raw(&seed.0, t, Some(code)))?, "signer made by new_with_raw"),
                    2 => (must("signer", || Signer::new_with_qb64(&first.qb64()?, t))?, "signer made from text"),
                    3 => (must("signer", || Signer::new_with_qb64b(&first.qb64b()?, t))?, "signer made from text bytes"),
                    4 => (must("signer", || Signer::new_with_qb2(&first.qb2()?, t))?, "signer made from binary"),
                    5 => (must("signer", || Signer::new(t, None, None, None, Some(&first.qb64()?), None))?, "signer made from text by new"),
                    6 => (must("signer", || Signer::new(t, None, None, Some(&first.qb64b()?), None, None))?, "signer made from text bytes by new"),
                    _ => (must("signer", || Signer::new(t, None, None, None, None, Some(&first.qb2()?)))?, "signer made from binary by new"),
                };
                ensure_eq!(B(s.raw()), *seed, "seed");
                classes.push(format!("{code} {how}"));
                w.objs.push(hold_signer(s, how));
            }
            Step::FreshSigner { suite, transferable } => {
                let code = SUITES[*suite % 3];
                let s = must("signer", || Signer::new_with_defaults(*transferable, Some(code)))?;
                classes.push(format!("{code} fresh signer"));
                w.objs.push(hold_signer(s, "fresh signer"));
            }
            Step::Salter { salt, route, tier } => {
                let t = tier.as_deref();
                let first = must("salter", || Salter::new_with_raw(&salt.0, None, t))?;
                let (s, how) = match route % 8 {
                    0 => (first, "salter made by new_with_raw"),
                    1 => (must("salter", || Salter::new(t, Some("0A"), Some(&salt.0), None, None, None))?, "salter made from raw bytes"),
                    2 => (must("salter", || Salter::new_with_qb64(&first.qb64()?, t))?, "salter made from text"),
                    3 => (must("salter", || Salter::new_with_qb64b(&first.qb64b()?, t))?, "salter made from text bytes"),
                    4 => (must("salter", || Salter::new_with_qb2(&first.qb2()?, t))?, "salter made from binary"),
                    5 => (must("salter", || Salter::new(t, None, None, None, Some(&first.qb64()?), None))?, "salter made from text by new"),
                    6 => (must("salter", || Salter::new(t, None, None, Some(&first.qb64b()?), None, None))?, "salter made from text bytes by new"),
                    _ => (must("salter", || Salter::new(t, None, None, None, None, Some(&first.qb2()?)))?, "salter made from binary by new"),
                };
                ensure_eq!(B(s.raw()), *salt, "salt");
                classes.push(how.to_string());
                w.objs.push(hold_salter(s, how));
            }
            Step::FreshSalter { tier } => {
                let s = must("salter", || Salter::new_with_defaults(tier.as_deref()))?;
                classes.push("fresh salter".to_string());
                w.objs.push(hold_salter(s, "fresh salter"));
            }
            Step::Derive { from, suite, count } => {
                let Some(i) = w.pick(*from) else { continue };
                let code = SUITES[*suite % 3];
                let Obj::Salter(s) = &w.objs[i].obj else { continue };
                let made = if *count == 0 {
                    vec![must("derive", || s.signer(Some(code), None, Some("p"), None, Some(true)))?]
                } else {
                    must("derive", || s.signers(Some(*count), None, Some("p"), Some(code), None, None, Some(true)))?
                };
                for m in made {
                    classes.push(format!("{code} derived signer"));
                    w.objs.push(hold_signer(m, "derived signer"));
                }
            }
            Step::Clone(i) => {
                let Some(i) = w.pick(*i) else { continue };
                let h = &w.objs[i];
                let c = Held { obj: h.obj.clone(), secret: h.secret.clone(), code: h.code.clone(), verfer: h.verfer.clone(), tier: h.tier.clone(), how: if h.verfer.is_some() { "cloned signer" } else { "cloned salter" } };
                classes.push(c.how.to_string());
                w.objs.push(c);
            }
            Step::CloneFrom { to, from } => {
                let (Some(a), Some(b)) = (w.pick(*to), w.pick(*from)) else { continue };
                if a == b {
                    continue;
                }
                let (secret, code, verfer, tier) = (w.objs[b].secret.clone(), w.objs[b].code.clone(), w.objs[b].verfer.clone(), w.objs[b].tier.clone());
                let new = w.objs[b].obj.clone();
                let h = &mut w.objs[a];
                match (&mut h.obj, new) {
                    (Obj::Signer(x), Obj::Signer(y)) => x.clone_from(&y),
                    (Obj::Salter(x), Obj::Salter(y)) => x.clone_from(&y),
                    _ => continue,
                }
                (h.secret, h.code, h.verfer, h.tier) = (secret, code, verfer, tier);
                classes.push("clone_from".to_string());
            }
            Step::Replace { at, with } => {
                let (Some(a), Some(b)) = (w.pick(*at), w.pick(*with)) else { continue };
                if a == b || w.objs[a].verfer.is_some() != w.objs[b].verfer.is_some() {
                    continue;
                }
                let last = w.objs.len() - 1;
                let (a, new) = if a == last { (b, w.objs.swap_remove(b)) } else { (a, w.objs.swap_remove(b)) };
                let a = a.min(w.objs.len() - 1);
                // what is in place now goes, in place
                let old = std::mem::replace(&mut w.objs[a], new);
                classes.push("replaced".to_string());
                w.gone(old, false)?;
            }
            Step::Move(i) => {
                let Some(i) = w.pick(*i) else { continue };
                let mut v: Vec<Option<Held>> = vec![];
                v.push(Some(w.objs.swap_remove(i)));
                for _ in 0..9 {
                    v.push(None);
                }
                let mut h = v[0].take().unwrap();
                h.obj = match h.obj {
                    Obj::Signer(b) => Obj::Signer(Box::new(*b)),
                    Obj::Salter(b) => Obj::Salter(Box::new(*b)),
                };
                w.objs.push(h);
            }
            Step::Use { at, msg } => {
                let Some(i) = w.pick(*at) else { continue };
                let h = &w.objs[i];
                match &h.obj {
                    Obj::Signer(s) => {
                        let c = must("sign", || s.sign_unindexed(&msg.0))?;
                        ensure_eq!(must("verify", || h.verfer.as_ref().unwrap().verify(&c.raw(), &msg.0))?, true, "signature by the {} among drops", h.how);
                        must("sign indexed", || s.sign_indexed(&msg.0, false, 0, None))?;
                        must("text", || s.qb64())?;
                    }
                    Obj::Salter(s) => {
                        let a = must("stretch", || s.stretch(None, Some("x"), None, Some(true)))?;
                        let other = must("salter", || Salter::new_with_raw(&h.secret, None, None))?;
                        ensure_eq!(B(a), B(must("stretch", || other.stretch(None, Some("x"), None, Some(true)))?), "stretch by the {} among drops", h.how);
                        must("binary", || s.qb2())?;
                    }
                }
            }
            Step::Drop { at, thread } => {
                let Some(i) = w.pick(*at) else { continue };
                let h = w.objs.swap_remove(i);
                w.gone(h, *thread)?;
                for h in &w.objs {
                    intact(h, "after a drop")?;
                }
            }
            Step::DropSome { at, n } => {
                let Some(i) = w.pick(*at) else { continue };
                let secret = w.objs[i].secret.clone();
                let mut signers = vec![];
                let mut salters = vec![];
                let mut code = String::new();
                for _ in 0..*n {
                    if w.objs.is_empty() {
                        break;
                    }
                    let j = i % w.objs.len();
                    let h = w.objs.swap_remove(j);
                    code = h.code.clone();
                    match h.obj {
                        Obj::Signer(s) => signers.push(*s),
                        Obj::Salter(s) => salters.push(*s),
                    }
                }
                let r = spy::watch((signers, salters), &secret);
                w.held += judge(("vector of objects", &code), &secret, r)?;
                w.drops += 1;
            }
        }
    }
    for h in &w.objs {
        intact(h, "at the end")?;
    }
    while let Some(h) = w.objs.pop() {
        w.gone(h, false)?;
    }
    Ok(())
}
fn run(steps: &Vec<Step>) -> R {
    let mut w = World { objs: Vec::new(), drops: 0, held: 0 };
    let mut classes = vec![];
    spy::track();
    let r = no_panic(|| body(steps, &mut w, &mut classes)).and_then(|r| r);
    spy::untrack();
    r?;
    okc(w.held > 0, classes)
}
fn secret(n: usize) -> BoxedStrategy<B> {
    // no zero bytes, most of them different: recognisable wherever it turns up
    (vec(1u8..=255, n), any::<u8>())
        .prop_map(|(mut v, k)| {
            if !secret_ok(&v) {
                for (i, b) in v.iter_mut().enumerate() {
                    *b = (k as usize + 7 * i) as u8 | 1;
                }
            }
            B(v)
        })
        .boxed()
}
fn tier() -> BoxedStrategy<Option<String>> {
    proptest::option::of(prop_oneof![Just("low"), Just("med"), Just("high")].prop_map(String::from)).boxed()
}
fn step() -> BoxedStrategy<Step> {
    let i = || any::<prop::sample::Index>().prop_map(|i| i.index(1 << 16));
    prop_oneof![
        6 => (0usize..3, secret(32), 0u8..8, any::<Option<bool>>()).prop_map(|(suite, seed, route, transferable)| Step::Signer { suite, seed, route, transferable }),
        2 => (0usize..3, any::<Option<bool>>()).prop_map(|(suite, transferable)| Step::FreshSigner { suite, transferable }),
        5 => (secret(16), 0u8..8, tier()).prop_map(|(salt, route, tier)| Step::Salter { salt, route, tier }),
        2 => tier().prop_map(|tier| Step::FreshSalter { tier }),
        3 => (i(), 0usize..3, 0usize..3).prop_map(|(from, suite, count)| Step::Derive { from, suite, count }),
        4 => i().prop_map(Step::Clone),
        1 => (i(), i()).prop_map(|(to, from)| Step::CloneFrom { to, from }),
        2 => (i(), i()).prop_map(|(at, with)| Step::Replace { at, with }),
        1 => i().prop_map(Step::Move),
        2 => (i(), crate::gen::bytes(0..=40)).prop_map(|(at, msg)| Step::Use { at, msg }),
        4 => (i(), proptest::bool::weighted(0.1)).prop_map(|(at, thread)| Step::Drop { at, thread }),
        1 => (i(), 1usize..4).prop_map(|(at, n)| Step::DropSome { at, n }),
    ]
    .boxed()
}
/// every way of making one, dropped as it is and as a clone
fn table() -> Vec<Vec<Step>> {
    let seed: Vec<u8> = (0..32).map(|i| 0x21 + 3 * i).collect();
    let mut out = vec![];
    for (k, route) in (0..8u8).enumerate() {
        for suite in 0..3 {
            for t in [None, Some(false)] {
                for extra in [vec![], vec![Step::Clone(0), Step::Drop { at: k % 2, thread: false }], vec![Step::Move(0)], vec![Step::Drop { at: 0, thread: true }]] {
                    let mut v = vec![Step::Signer { suite, seed: B(seed.clone()), route, transferable: t }];
                    v.extend(extra);
                    out.push(v);
                }
            }
        }
        for tier in [None, Some("low"), Some("high")] {
            for extra in [vec![], vec![Step::Clone(0), Step::Drop { at: k % 2, thread: false }], vec![Step::Derive { from: 0, suite: k % 3, count: k % 3 }]] {
                let mut v = vec![Step::Salter { salt: B(seed[..16].to_vec()), route, tier: tier.map(String::from) }];
                v.extend(extra);
                out.push(v);
            }
        }
    }
    out
}
pub fn check() -> Check {
    Check {
        id: "C23",
        rule: "a history in which at least one released block held the whole secret before its object was dropped (found by searching all live blocks), and every released block was searched for what is left of it",
        assumptions: vec![
            "released memory means heap blocks given back while the object is dropped, the object itself being boxed; temporaries of earlier calls are not looked at",
            "what is left of a secret shows as 6 bytes in a row anywhere, or any byte at its former place when the rest was zeroed (3 in a row otherwise)",
        ],
        subs: vec![
            each("every way of making one", |_| table().into_iter(), run),
            prop("histories", 60000, 3000000, || vec(step(), 1..14), run),
        ],
        probes: vec![],
    }
}
