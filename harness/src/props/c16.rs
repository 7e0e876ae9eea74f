use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::{Bext, Bexter, Dater, Matter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const CODES: [&str; 6] = ["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
fn is(b: &Bexter, want: &MPrim, text: &str, how: &str) -> Result<(), String> {
    let t: String = text.chars().take(60).collect();
    let (q, bin) = want.encode();
    ensure_eq!(must("bext", || b.bext())?, text, "Base64 text {t:?} from {how}: text");
    ensure_eq!(b.code(), want.code, "Base64 text {t:?} from {how}: code");
    ensure_eq!(B(b.raw()), B(want.raw.clone()), "Base64 text {t:?} from {how}: raw");
    ensure_eq!(b.size(), want.size, "Base64 text {t:?} from {how}: size");
    ensure_eq!(must("qb64", || b.qb64())?, q, "Base64 text {t:?} from {how}: encoding");
    ensure_eq!(B(must("qb2", || b.qb2())?), B(bin), "Base64 text {t:?} from {how}: binary");
    Ok(())
}
fn every(want: &MPrim, text: &str, how: &str) -> Result<(), String> {
    let (q, bin) = want.encode();
    is(&must("qb64", || Bexter::new_with_qb64(&q))?, want, text, &format!("{how} qb64"))?;
    is(&must("qb64b", || Bexter::new_with_qb64b(q.as_bytes()))?, want, text, &format!("{how} qb64b"))?;
    is(&must("qb2", || Bexter::new_with_qb2(&bin))?, want, text, &format!("{how} qb2"))?;
    is(&must("raw", || Bexter::new_with_raw(&want.raw, Some(&want.code)))?, want, text, &format!("{how} raw"))
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Text {
    text: String,
    code: Option<usize>,
}
fn run(c: &Text) -> R {
    let s = c.text.as_str();
    let code = c.code.map(|i| CODES[i]);
    let r = call("bext", || match code {
        None => Bexter::new_with_bext(s),
        Some(k) => Bexter::new(Some(s), Some(k), None, None, None, None),
    })?;
    if !s.bytes().all(|b| ALPHA.contains(&b)) {
        ensure!(r.is_err(), "text {s:?} outside the alphabet was accepted");
        return okc(true, vec!["refused"]);
    }
    if s.len() % 4 == 0 && s.starts_with('A') {
        return okc(false, vec!["not representable"]);
    }
    if s.is_empty() && r.is_err() {
        return okc(false, vec!["empty"]);
    }
    let b = r.map_err(|e| format!("text {s:?}: {e}"))?;
    let mut want = bext(s);
    if let Some(k) = code {
        want = matter_from_raw(k, &want.raw).unwrap();
    }
    is(&b, &want, s, "text")?;
    every(&want, s, "its")?;
    okc(true, vec![want.code.clone()])
}
fn texts() -> BoxedStrategy<Text> {
    let len = prop_oneof![8 => 0usize..16, 3 => 0usize..80, 1 => 240usize..264, 1 => 16376usize..16392, 1 => 16384usize..40000];
    let good = len
        .prop_flat_map(|n| (vec(0usize..64, n), 0usize..4))
        .prop_map(|(v, lead)| {
            let mut s: String = v.into_iter().map(|i| ALPHA[i] as char).collect();
            if lead > 0 && s.len() >= lead {
                // leading zero sextets
                s.replace_range(..lead, &"A".repeat(lead));
            }
            s
        });
    let bad = ("[A-Za-z0-9_-]{0,12}", prop_oneof![Just("="), Just("=="), Just("+"), Just("/"), Just(" "), Just("\n"), Just("."), Just("é"), Just("\u{0}"), Just("\u{ff41}")], any::<usize>()).prop_map(|(mut s, x, at)| {
        let at = at % (s.len() + 1);
        s.insert_str(at, x);
        s
    });
    (prop_oneof![8 => good.boxed(), 3 => bad.boxed(), 1 => junk_text()], proptest::option::weighted(0.3, 0usize..6)).prop_map(|(text, code)| Text { text, code }).boxed()
}
/// any raw material of a text code reads as its text, which makes the same primitive again
fn raws(c: &(B, usize)) -> R {
    let code = CODES[c.1];
    let raw = &c.0 .0;
    let want = matter_from_raw(code, raw).unwrap();
    let t = bext_text(&want);
    every(&want, &t, "raw's")?;
    is(&must("raw", || Bexter::new_with_raw(raw, Some(code)))?, &want, &t, "raw, any text code")?;
    // raw material that is some text's
    let whole = t.bytes().all(|b| ALPHA.contains(&b)) && bext(&t).raw == want.raw;
    if whole && !(t.len() % 4 == 0 && t.starts_with('A')) && !t.is_empty() {
        let again = must("bext", || Bexter::new(Some(&t), Some(code), None, None, None, None))?;
        is(&again, &want, &t, "its own text")?;
    }
    okc(true, vec![want.code.clone()])
}

// ---- date-times ---------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
enum When {
    /// fields of a date-time with offset sign
    At([u32; 7], bool, u32, u32),
    Text(String),
}
fn render(w: &When) -> String {
    match w {
        When::At([y, mo, d, h, mi, s, us], neg, oh, om) => {
            format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{us:06}{}{oh:02}:{om:02}", if *neg { '-' } else { '+' })
        }
        When::Text(s) => s.clone(),
    }
}
fn shaped(s: &str) -> bool {
    let p = b"dddd-dd-ddTdd:dd:dd.ddddddsdd:dd";
    s.len() == 32
        && s.bytes().zip(p).all(|(c, p)| match p {
            b'd' => c.is_ascii_digit(),
            b's' => c == b'+' || c == b'-',
            p => c == *p,
        })
}
fn date(w: &When) -> R {
    let s = render(w);
    let r = call("dts", || Dater::new_with_dts(&s, None))?;
    let r2 = call("dts", || Dater::new(Some(&s), None, None, None, None, None))?;
    ensure_eq!(r.is_ok(), r2.is_ok(), "{s:?}: new and new_with_dts");
    if s.chars().count() < 32 {
        ensure!(r.is_err(), "date-time {s:?} of {} characters gave {:?}", s.chars().count(), r.map(|d| d.dts().ok()));
        return okc(true, vec!["short"]);
    }
    if !shaped(&s) {
        if let Ok(d) = r {
            must("dts", || d.dts())?;
            must("qb64", || d.qb64())?;
        }
        return okc(false, vec!["open"]);
    }
    let d = r.map_err(|e| format!("date-time {s:?}: {e}"))?;
    let text = format!("1AAG{}", s.replace(':', "c").replace('.', "d").replace('+', "p"));
    let p = matter_parse(text.as_bytes()).ok_or("model")?;
    let (q, bin) = p.encode();
    for (how, d) in [
        ("text", d.clone()),
        ("text with code", must("dts", || Dater::new_with_dts(&s, Some("1AAG")))?),
        ("qb64", must("qb64", || Dater::new_with_qb64(&q))?),
        ("qb64b", must("qb64b", || Dater::new_with_qb64b(q.as_bytes()))?),
        ("qb2", must("qb2", || Dater::new_with_qb2(&bin))?),
        ("raw", must("raw", || Dater::new_with_raw(&p.raw, None))?),
        ("own qb64", must("qb64", || Dater::new_with_qb64(&d.qb64()?))?),
        ("own qb2", must("qb2", || Dater::new_with_qb2(&d.qb2()?))?),
    ] {
        ensure_eq!(must("dts", || d.dts())?, s, "date-time from {how}");
        ensure_eq!(B(must("dtsb", || d.dtsb())?), B(s.clone().into_bytes()), "date-time bytes from {how}");
        ensure_eq!(must("qb64", || d.qb64())?, text, "date-time from {how}: encoding");
        ensure_eq!(B(must("qb2", || d.qb2())?), B(bin.clone()), "date-time from {how}: binary");
        ensure_eq!(d.code(), "1AAG", "date-time from {how}: code");
    }
    okc(true, vec!["date-time"])
}
fn days_in(y: u32, m: u32) -> u32 {
    match m {
        2 => {
            if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn whens() -> BoxedStrategy<When> {
    let at = (prop_oneof![3 => 1970u32..2100, 1 => 0u32..10000], 1u32..13, 1u32..32, 0u32..24, 0u32..60, 0u32..61, prop_oneof![3 => 0u32..1000000, 1 => 0u32..10, 1 => Just(0u32)], any::<bool>(), prop_oneof![2 => Just(0u32), 2 => 0u32..24], prop_oneof![3 => Just(0u32), 1 => 0u32..60])
        .prop_map(|(y, mo, d, h, mi, s, us, neg, oh, om)| When::At([y, mo, d.min(days_in(y, mo)), h, mi, s.min(59), us], neg, oh, om));
    let mutated = (at.clone(), any::<usize>(), prop_oneof![Just(None), any::<char>().prop_map(Some), Just(Some('Z')), Just(Some(':'))], 0u8..4).prop_map(|(w, i, c, op)| {
        let mut s: Vec<char> = render(&w).chars().collect();
        let i = i % s.len();
        match (op, c) {
            (0, _) => s.truncate(i),
            (1, _) => {
                s.remove(i);
            }
            (2, Some(c)) => s.insert(i, c),
            (_, Some(c)) => s[i] = c,
            _ => s.push('0'),
        }
        When::Text(s.into_iter().collect())
    });
    let other = prop_oneof![Just("2020-08-22T17:50:09Z"), Just("2020-08-22T17:50:09.988921"), Just("2020-08-22T17:50:09+00:00"), Just("2020-08-22"), Just(""), Just("2020-08-22T17:50:09.988+00:00")].prop_map(|s| When::Text(s.into()));
    prop_oneof![6 => at, 3 => mutated, 1 => other, 1 => junk_text().prop_map(When::Text)].boxed()
}
/// days since the epoch of a civil date
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn now(_: &u32) -> R {
    use std::time::{SystemTime, UNIX_EPOCH};
    let us = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros() as i64;
    let before = us();
    let d = must("now", || Dater::new(None, None, None, None, None, None))?;
    let after = us();
    let s = must("dts", || d.dts())?;
    ensure!(shaped(&s), "default date-time {s:?} is not in ISO-8601 form");
    ensure!(s.ends_with("+00:00"), "default date-time {s:?} is not UTC");
    let n = |r: std::ops::Range<usize>| -> i64 { s[r].parse().unwrap() };
    let t = ((days(n(0..4), n(5..7), n(8..10)) * 86400 + n(11..13) * 3600 + n(14..16) * 60 + n(17..19)) * 1000000) + n(20..26);
    // the clock may be stepped; a wrong field is off by far more
    ensure!(t >= before - 5_000_000 && t <= after + 5_000_000, "default date-time {s:?} is not the current time (epoch microseconds {before}..{after}, got {t})");
    ok(true)
}
pub fn check() -> Check {
    Check {
        id: "C16",
        rule: "a text or date-time carried through every encoding and back, or one that must be refused",
        assumptions: vec![
            "32-character strings that are not date-times of the form, and longer strings, are left open",
            "empty Base64 text may be refused",
            "texts of length divisible by four that start with 'A' have no faithful encoding in the format",
        ],
        subs: vec![
            each("all texts up to two characters", |_| {
                let one = (0..64usize).map(|i| (ALPHA[i] as char).to_string());
                let two = (0..4096usize).map(|i| format!("{}{}", ALPHA[i / 64] as char, ALPHA[i % 64] as char));
                one.chain(two).map(|text| Text { text, code: None })
            }, run),
            each("all bytes as text", |_| (0u32..0x250).filter_map(char::from_u32).flat_map(|c| ["", "AB", "ABC"].into_iter().map(move |p| Text { text: format!("{p}{c}"), code: None })), run),
            prop("texts", 200000, 3000000, texts, run),
            prop("raw material", 100000, 2000000, || (prop_oneof![6 => bytes(0..=40), 1 => bytes(12280..=12300)], 0usize..6), raws),
            prop("date-times", 2000000, 20000000, whens, date),
            prop("current time", 8000, 800000, || 0u32..1000, now),
        ],
        probes: vec![],
    }
}
