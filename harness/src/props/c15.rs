use super::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::{ensure, ensure_eq};
use cesride::{Matter, Number, Seqner};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn number_is(n: &Number, want: &MPrim, v: u128, how: &str) -> Result<(), String> {
    let (text, bin) = want.encode();
    ensure_eq!(n.code(), want.code, "number {v} from {how}: code");
    ensure_eq!(B(n.raw()), B(want.raw.clone()), "number {v} from {how}: raw");
    ensure_eq!(must("num", || n.num())?, v, "number from {how}");
    ensure_eq!(must("numh", || n.numh())?, format!("{v:x}"), "number {v} from {how}: hex");
    ensure_eq!(must("positive", || n.positive())?, v != 0, "number {v} from {how}: positive");
    ensure_eq!(must("qb64", || n.qb64())?, text, "number {v} from {how}: text");
    ensure_eq!(B(must("qb64b", || n.qb64b())?), B(text.clone().into_bytes()), "number {v} from {how}: text bytes");
    ensure_eq!(B(must("qb2", || n.qb2())?), B(bin), "number {v} from {how}: binary");
    Ok(())
}
fn all_numbers(p: &MPrim, v: u128, how: &str) -> Result<(), String> {
    let (text, bin) = p.encode();
    for (h, n) in [
        ("qb64", must("qb64", || Number::new_with_qb64(&text))?),
        ("qb64b", must("qb64b", || Number::new_with_qb64b(text.as_bytes()))?),
        ("qb2", must("qb2", || Number::new_with_qb2(&bin))?),
        ("raw", must("raw", || Number::new_with_raw(&p.raw, Some(&p.code)))?),
    ] {
        number_is(&n, p, v, &format!("{how} {h}"))?;
    }
    Ok(())
}
fn seq_is(s: &Seqner, v: u128, how: &str) -> Result<(), String> {
    let want = MPrim { code: "0A".into(), size: 0, raw: v.to_be_bytes().to_vec() };
    let (text, bin) = want.encode();
    ensure_eq!(s.code(), "0A", "sequence number {v} from {how}: code");
    ensure_eq!(B(s.raw()), B(want.raw.clone()), "sequence number {v} from {how}: raw");
    ensure_eq!(must("sn", || s.sn())?, v, "sequence number from {how}");
    ensure_eq!(must("snh", || s.snh())?, format!("{v:x}"), "sequence number {v} from {how}: hex");
    ensure_eq!(must("qb64", || s.qb64())?, text, "sequence number {v} from {how}: text");
    ensure_eq!(B(must("qb64b", || s.qb64b())?), B(text.into_bytes()), "sequence number {v} from {how}: text bytes");
    ensure_eq!(B(must("qb2", || s.qb2())?), B(bin), "sequence number {v} from {how}: binary");
    Ok(())
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    /// decimal, as JSON has no 128-bit numbers
    v: String,
    zeros: usize,
    upper: bool,
    wider: usize,
}
fn run(c: &Case) -> R {
    let v: u128 = c.v.parse().map_err(|_| "bad case".to_string())?;
    let h = if c.upper { format!("{v:X}") } else { format!("{v:x}") };
    let padded = format!("{}{h}", "0".repeat(c.zeros));
    let p = number(v);
    number_is(&must("num", || Number::new_with_num(v))?, &p, v, "number")?;
    number_is(&must("numh", || Number::new_with_numh(&h))?, &p, v, "hex")?;
    number_is(&must("numh", || Number::new_with_numh(&padded))?, &p, v, "padded hex")?;
    number_is(&must("new", || Number::new(Some(v), None, None, None, None, None, None))?, &p, v, "new(num)")?;
    number_is(&must("new", || Number::new(None, Some(&h), None, None, None, None, None))?, &p, v, "new(numh)")?;
    all_numbers(&p, v, "smallest")?;
    // the same value under a wider code
    let codes = [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)];
    let at = codes.iter().position(|(k, _)| *k == p.code).unwrap();
    let (code, len) = codes[at + c.wider % (4 - at)];
    let w = MPrim { code: code.into(), size: 0, raw: v.to_be_bytes()[16 - len..].to_vec() };
    all_numbers(&w, v, code)?;

    seq_is(&must("sn", || Seqner::new_with_sn(v))?, v, "number")?;
    seq_is(&must("snh", || Seqner::new_with_snh(&h))?, v, "hex")?;
    seq_is(&must("snh", || Seqner::new_with_snh(&padded))?, v, "padded hex")?;
    let q = MPrim { code: "0A".into(), size: 0, raw: v.to_be_bytes().to_vec() };
    let (text, bin) = q.encode();
    seq_is(&must("qb64", || Seqner::new_with_qb64(&text))?, v, "qb64")?;
    seq_is(&must("qb64b", || Seqner::new_with_qb64b(text.as_bytes()))?, v, "qb64b")?;
    seq_is(&must("qb2", || Seqner::new_with_qb2(&bin))?, v, "qb2")?;
    seq_is(&must("raw", || Seqner::new_with_raw(&q.raw, None))?, v, "raw")?;
    seq_is(&must("raw", || Seqner::new_with_raw(&q.raw, Some("0A")))?, v, "raw and code")?;
    okc(true, vec![format!("code {}", p.code)])
}
fn values() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => (any::<u128>(), 0u32..128).prop_map(|(n, s)| n >> s),
        3 => (0u32..128, 0u128..3).prop_map(|(s, d)| (1u128 << s).wrapping_add(d).wrapping_sub(1)),
        2 => (0usize..16, any::<u8>()).prop_map(|(i, b)| (b as u128) << (8 * i)),
        1 => 0u128..300,
        1 => prop_oneof![Just(0u128), Just(u128::MAX), Just(u64::MAX as u128), Just(1u128 << 127)],
        1 => any::<u128>(),
    ]
    .boxed()
}
/// arbitrary hex-like text
fn hex_text(c: &String) -> R {
    let s = c.as_str();
    let h = s.strip_prefix('+').unwrap_or(s);
    let hexy = !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit());
    let t = h.trim_start_matches('0');
    let v = if hexy && t.len() <= 32 { Some(if t.is_empty() { 0 } else { u128::from_str_radix(t, 16).unwrap() }) } else { None };
    let n = call("numh", || Number::new_with_numh(s))?;
    let q = call("snh", || Seqner::new_with_snh(s))?;
    match v {
        // a sign is left open
        Some(v) if h != s => {
            if let Ok(n) = n {
                number_is(&n, &number(v), v, s)?;
            }
            if let Ok(q) = q {
                seq_is(&q, v, s)?;
            }
            ok(false)
        }
        Some(v) => {
            number_is(&n.map_err(|e| format!("{s:?}: {e}"))?, &number(v), v, s)?;
            seq_is(&q.map_err(|e| format!("{s:?}: {e}"))?, v, s)?;
            okc(true, vec!["value"])
        }
        None => {
            // no text at all is the default, zero
            if s.is_empty() {
                return ok(false);
            }
            ensure!(n.is_err(), "{s:?} is no 128-bit hex value, yet gave the number {:?}", n.map(|n| n.numh().ok()));
            ensure!(q.is_err(), "{s:?} is no 128-bit hex value, yet gave the sequence number {:?}", q.map(|n| n.snh().ok()));
            okc(true, vec!["refused"])
        }
    }
}
/// every raw value under every numeric code reads as the big-endian number
fn raws(c: &(usize, B)) -> R {
    let (code, len) = [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)][c.0];
    let raw = &c.1 .0[..len];
    let mut b = [0u8; 16];
    b[16 - len..].copy_from_slice(raw);
    let v = u128::from_be_bytes(b);
    let p = MPrim { code: code.into(), size: 0, raw: raw.to_vec() };
    all_numbers(&p, v, code)?;
    let mut longer = raw.to_vec();
    longer.push(7);
    number_is(&must("raw", || Number::new_with_raw(&longer, Some(code)))?, &p, v, "longer raw")?;
    must_err("short raw", || Number::new_with_raw(&raw[1..], Some(code)).map(|n| n.num().ok()))?;
    okc(true, vec![code])
}
pub fn check() -> Check {
    Check {
        id: "C15",
        rule: "a value made, read and re-made through every route, or hex text that is refused",
        assumptions: vec!["a leading plus sign in hex text is left open, and so is empty text (the library reads no text as zero)"],
        subs: vec![
            prop("values", 500000, 10000000, || (values(), prop_oneof![Just(0usize), 1usize..40], any::<bool>(), 0usize..4).prop_map(|(v, zeros, upper, wider)| Case { v: v.to_string(), zeros, upper, wider }), run),
            each("all 16-bit values", |_| (0u32..=65537).map(|v| Case { v: v.to_string(), zeros: 0, upper: false, wider: (v % 4) as usize }), run),
            prop("hex text", 2000000, 20000000, || prop_oneof![3 => "[0-9a-fA-F]{1,40}", 2 => "0{0,8}[1-9a-f][0-9a-f]{28,34}", 2 => "[0-9a-fA-Fgx+_. -]{0,12}", 1 => junk_text(), 1 => Just("100000000000000000000000000000000".to_string()), 1 => Just("ffffffffffffffffffffffffffffffff".to_string()), 1 => "0x[0-9a-f]{1,6}", 1 => "-[0-9a-f]{1,6}", 1 => "[0-9a-f]{1,6}[ \n\t]"], hex_text),
            prop("raw values", 800000, 20000000, || (0usize..4, bytes_n(16)), raws),
        ],
        probes: vec![],
    }
}
