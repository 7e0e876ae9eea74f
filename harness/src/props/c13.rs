use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::model::thold::*;
use crate::{ensure, ensure_eq};
use cesride::Tholder;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;

/// clauses with sums around one: (numerator, denominator) pairs
fn weights() -> BoxedStrategy<Vec<(u64, u64)>> {
    let denom = || prop_oneof![6 => 1u64..8, 2 => 1u64..40, 1 => 1u64..70000, 1 => prop_oneof![Just(46337u64), Just(46349), Just(65537), Just(32749), Just(2147483647), Just(2147483646)]];
    let free = vec((denom(), any::<u64>()).prop_map(|(d, n)| (n % (d + 1), d)), 1..6);
    // exact: the same denominator, numerators adding up to it, then disturbed
    let exact = (2u64..12, vec(any::<u64>(), 2..7), 0u8..3).prop_map(|(d, cuts, extra)| {
        let mut c: Vec<u64> = cuts.iter().map(|x| x % (d + 1)).collect();
        c.sort();
        let mut out = vec![];
        let mut last = 0;
        for x in c {
            out.push((x - last, d));
            last = x;
        }
        out.push((d - last, d));
        if extra > 0 {
            out.push((extra as u64 % d, d));
        }
        out
    });
    // almost one, made whole by a tiny weight
    let near = (2u64..46000, 2u64..46000, any::<bool>()).prop_map(|(a, b, z)| {
        let mut v = vec![(a - 1, a), (1, b), (1, a)];
        if z {
            v.push((0, 1));
        }
        v
    });
    prop_oneof![3 => free, 3 => exact, 1 => near].boxed()
}
fn top_up(mut c: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    let f = |c: &Vec<(u64, u64)>| -> Vec<Frac> { c.iter().map(|(n, d)| ((*n).into(), (*d).into())).collect() };
    while !at_least_one(f(&c).iter()) {
        let (n, d) = c[c.len() / 2];
        c.push(if n == 0 { (1, 1) } else { (d - n, d) });
        if c.len() > 12 {
            c.push((1, 1));
        }
    }
    c
}
pub fn well_formed() -> BoxedStrategy<J> {
    let n = prop_oneof![6 => 0i64..9, 2 => 0i64..70, 1 => prop_oneof![Just(65535i64), Just(65536), Just(u32::MAX as i64), Just(255), Just(256)], 1 => 0i64..=u32::MAX as i64];
    let clause = || {
        (weights(), any::<u8>()).prop_map(|(c, r)| {
            let c = top_up(c);
            J::Array(
                c.iter()
                    .enumerate()
                    .map(|(i, (n, d))| {
                        let plain = *d == 1 || n == d || *n == 0;
                        J::String(if plain && (r >> (i % 8)) & 1 == 1 { (n / d).to_string() } else { format!("{n}/{d}") })
                    })
                    .collect(),
            )
        })
    };
    prop_oneof![
        2 => n.clone().prop_map(J::from),
        2 => n.prop_map(|n| J::String(format!("{n:x}"))),
        5 => clause(),
        4 => vec(clause(), 1..5).prop_map(J::Array),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    expr: J,
    lists: Vec<Vec<u32>>,
}
fn run(c: &Case) -> R {
    let Says::Is(t) = sith(&c.expr) else { return Err(format!("generator: {}", c.expr)) };
    let a = must("sith", || Tholder::new_with_sith(&lib(&c.expr)))?;
    let text = serde_json::to_string(&t.expression()).unwrap();
    let all = [
        ("expression", a.clone()),
        ("own expression", must("own sith", || Tholder::new_with_sith(&a.sith()?))?),
        ("normalized value", must("thold", || Tholder::new_with_thold(&lib(&t.value())))?),
        ("JSON text", must("json", || Tholder::new_with_sith(&lib(&if text.starts_with('[') { J::String(text.clone()) } else { t.expression() })))?),
        ("compact encoding", must("limen", || Tholder::new_with_limen(t.limen().as_bytes()))?),
        ("own compact encoding", must("own limen", || Tholder::new_with_limen(&a.limen()?))?),
    ];
    let mut yes = 0;
    let mut no = 0;
    let mut ask = |ix: &[u32], every: bool| -> Result<bool, String> {
        let want = t.satisfied(ix);
        for (how, th) in all.iter().take(if every { all.len() } else { 1 }) {
            let got = must("satisfy", || th.satisfy(ix))?;
            ensure_eq!(got, want, "threshold {} loaded from {how}: satisfied by indices {ix:?}", c.expr);
        }
        if want {
            yes += 1
        } else {
            no += 1
        }
        Ok(want)
    };
    // every subset of a small threshold's positions
    let n = t.size().min(9) as u32;
    for bits in 0u32..1 << n {
        let ix: Vec<u32> = (0..n).filter(|i| bits >> i & 1 == 1).collect();
        ask(&ix, bits % 16 == 0)?;
    }
    for ix in &c.lists {
        let w = ask(ix, true)?;
        let mut r = ix.clone();
        r.reverse();
        ask(&r, false)?;
        let mut d = ix.clone();
        d.extend(ix);
        ensure_eq!(ask(&d, false)?, w, "repeating the indices");
        let mut e = ix.clone();
        e.extend([t.size() as u32, u32::MAX, (t.size() as u32).saturating_add(1)]);
        let more = ask(&e, true)?;
        ensure!(more || !w, "adding indices made {} unsatisfied", c.expr);
    }
    okc(yes > 0 && no > 0, vec![match &t { Th::Num(0) => "zero", Th::Num(_) => "number", Th::Weights(c) if c.len() == 1 => "one clause", _ => "several clauses" }])
}
fn case() -> BoxedStrategy<Case> {
    let ix = prop_oneof![8 => 0u32..8, 4 => 0u32..24, 1 => 0u32..70, 1 => any::<u32>(), 1 => prop_oneof![Just(u32::MAX), Just(1u32 << 31), Just(65536u32)]];
    (well_formed(), vec(vec(ix, 0..16), 1..5)).prop_map(|(expr, lists)| Case { expr, lists }).boxed()
}
// numeric thresholds around the size of long index lists
fn long(c: &(u32, i32, u32, u32)) -> R {
    let (n, delta, dup, stride) = *c;
    let th = must("thold", || Tholder::new_with_thold(&lib(&J::from(n))))?;
    let k = (n as i64 + delta as i64).max(0) as u32;
    let mut ix: Vec<u32> = (0..k).map(|i| i.wrapping_mul(stride)).collect();
    for i in 0..dup.min(k) {
        ix.push(ix[i as usize]);
    }
    let want = Th::Num(n as u64).satisfied(&ix);
    ensure_eq!(must("satisfy", || th.satisfy(&ix))?, want, "threshold {n} with {} indices, {k} distinct", ix.len());
    okc(true, vec![if want { "satisfied" } else { "unsatisfied" }])
}
// many equal weights: the sum reaches one at exactly the right index
fn equal(c: &(u32, u32)) -> R {
    let (d, extra) = *c;
    let n = d + extra;
    let expr = J::Array((0..n).map(|_| J::String(format!("1/{d}"))).collect());
    let th = must("sith", || Tholder::new_with_sith(&lib(&expr)))?;
    let th2 = must("limen", || Tholder::new_with_limen(&th.limen()?))?;
    for k in [0, d - 1, d, n] {
        let ix: Vec<u32> = (0..k).map(|i| (i * 7 + extra) % n).collect();
        let distinct = ix.iter().collect::<std::collections::BTreeSet<_>>().len() as u32;
        ensure_eq!(must("satisfy", || th.satisfy(&ix))?, distinct >= d, "{n} weights of 1/{d}, {distinct} distinct indices of {k}");
        ensure_eq!(must("satisfy", || th2.satisfy(&ix))?, distinct >= d, "{n} weights of 1/{d} from the compact encoding");
    }
    ok(true)
}
pub fn check() -> Check {
    Check {
        id: "C13",
        rule: "a threshold for which some of the tried index lists satisfy and some do not, each compared with exact arithmetic over unbounded integers",
        assumptions: vec!["numeric thresholds have no list of keys to bound the indices, so any distinct indices count"],
        subs: vec![
            prop("satisfaction", 20000, 600000, case, run),
            prop("long index lists", 80000, 8000000, || (prop_oneof![0u32..40, 0u32..1200], -3i32..3, 0u32..5, prop_oneof![Just(1u32), Just(65537), Just(1 << 24), Just(3)]), long),
            prop("many equal weights", 9000, 200000, || (1u32..300, 0u32..40), equal),
        ],
        probes: vec![],
    }
}
