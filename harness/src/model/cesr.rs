//! Reference model of the CESR code tables and of the text/binary encodings.
//! One uniform rule: a primitive is a string of `fs` sextets (`fs` a multiple of 4): first the
//! sextets of its code (hard part, then soft part), and its raw bytes right-aligned in the
//! `3*fs/4` bytes; every bit between them is zero. Text is the URL-safe Base64 of that, binary is
//! the bytes themselves.

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn sextet(c: u8) -> Option<u8> {
    ALPHA.iter().position(|x| *x == c).map(|p| p as u8)
}
pub fn b64char(i: u8) -> char {
    ALPHA[i as usize] as char
}
/// unpadded base64 of bytes whose length is a multiple of 3
pub fn enc(b: &[u8]) -> String {
    assert!(b.len() % 3 == 0);
    let mut s = Vec::with_capacity(b.len() / 3 * 4);
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
        for k in [18, 12, 6, 0] {
            s.push(ALPHA[(n >> k & 63) as usize]);
        }
    }
    String::from_utf8(s).unwrap()
}
/// inverse; None for foreign characters or a length that is not a multiple of 4
pub fn dec(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 {
        return None;
    }
    let mut table = [255u8; 256];
    for (i, c) in ALPHA.iter().enumerate() {
        table[*c as usize] = i as u8;
    }
    let mut out = Vec::with_capacity(t.len() / 4 * 3);
    for c in t.chunks(4) {
        let mut n = 0u32;
        for x in c {
            let v = table[*x as usize];
            if v == 255 {
                return None;
            }
            n = n << 6 | v as u32;
        }
        out.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    Some(out)
}
pub fn int_b64(mut n: u64, len: usize) -> String {
    let mut v = vec![b'A'; len];
    for i in (0..len).rev() {
        v[i] = ALPHA[(n & 63) as usize];
        n >>= 6;
    }
    assert!(n == 0, "does not fit");
    String::from_utf8(v).unwrap()
}
pub fn b64_int(t: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in t {
        n = n << 6 | sextet(*c)? as u64;
    }
    Some(n)
}

/// Lays out `both` (code sextets) and raw in `fs` sextets.
pub fn layout(both: &str, raw: &[u8], fs: usize) -> (String, Vec<u8>) {
    assert!(fs % 4 == 0);
    let n = fs / 4 * 3;
    let mut bytes = vec![0u8; n];
    bytes[n - raw.len()..].copy_from_slice(raw);
    for (i, c) in both.bytes().enumerate() {
        let v = sextet(c).unwrap();
        for b in 0..6 {
            if v >> (5 - b) & 1 == 1 {
                let pos = i * 6 + b;
                assert!(pos / 8 < n);
                bytes[pos / 8] |= 0x80 >> (pos % 8);
            }
        }
    }
    (enc(&bytes), bytes)
}
/// Splits a full-size text back: checks that everything between code and raw is zero.
fn unlayout(text: &[u8], cs: usize, rawlen: usize) -> Option<Vec<u8>> {
    let bytes = dec(text)?;
    let n = bytes.len();
    let raw = bytes[n - rawlen..].to_vec();
    for pos in cs * 6..(n - rawlen) * 8 {
        if bytes[pos / 8] & (0x80 >> (pos % 8)) != 0 {
            return None;
        }
    }
    Some(raw)
}

// ---------------------------------------------------------------------------- matter ----------
#[derive(Clone, Copy, Debug)]
pub struct MCode {
    pub code: &'static str,
    /// soft (size) characters; 0 for fixed
    pub ss: usize,
    /// raw bytes of a fixed code
    pub rs: usize,
    /// lead bytes
    pub ls: usize,
}
impl MCode {
    pub fn var(&self) -> bool {
        self.ss > 0
    }
    pub fn cs(&self) -> usize {
        self.code.len() + self.ss
    }
    pub fn fs(&self) -> Option<usize> {
        (!self.var()).then(|| fixed_fs(self.code.len(), self.rs + self.ls))
    }
}
/// smallest multiple of 4 sextets holding the code and the raw bytes on separate bits
fn fixed_fs(cs: usize, raw: usize) -> usize {
    let mut q = 0;
    loop {
        q += 1;
        if q * 24 >= cs * 6 + raw * 8 {
            return q * 4;
        }
    }
}
const fn f(code: &'static str, rs: usize) -> MCode {
    MCode { code, ss: 0, rs, ls: 0 }
}
const fn fl(code: &'static str, rs: usize, ls: usize) -> MCode {
    MCode { code, ss: 0, rs, ls }
}
const fn v(code: &'static str, ss: usize, ls: usize) -> MCode {
    MCode { code, ss, rs: 0, ls }
}
pub const MATTER: &[MCode] = &[
    f("A", 32),
    f("B", 32),
    f("C", 32),
    f("D", 32),
    f("E", 32),
    f("F", 32),
    f("G", 32),
    f("H", 32),
    f("I", 32),
    f("J", 32),
    f("K", 56),
    f("L", 56),
    f("M", 2),
    f("N", 8),
    f("O", 32),
    f("P", 92),
    f("Q", 32),
    f("0A", 16),
    f("0B", 64),
    f("0C", 64),
    f("0D", 64),
    f("0E", 64),
    f("0F", 64),
    f("0G", 64),
    f("0H", 4),
    f("0I", 64),
    f("1AAA", 33),
    f("1AAB", 33),
    f("1AAC", 57),
    f("1AAD", 57),
    // the code table gives this code 56 characters, pinned by the repository's own tests
    f("1AAE", 39),
    f("1AAF", 3),
    f("1AAG", 24),
    f("1AAH", 72),
    f("1AAI", 33),
    f("1AAJ", 33),
    fl("2AAA", 2, 1),
    fl("3AAA", 1, 2),
    v("4A", 2, 0),
    v("4B", 2, 0),
    v("5A", 2, 1),
    v("5B", 2, 1),
    v("6A", 2, 2),
    v("6B", 2, 2),
    v("7AAA", 4, 0),
    v("7AAB", 4, 0),
    v("8AAA", 4, 1),
    v("8AAB", 4, 1),
    v("9AAA", 4, 2),
    v("9AAB", 4, 2),
];
pub fn mcode(code: &str) -> Option<&'static MCode> {
    MATTER.iter().find(|c| c.code == code)
}
pub fn hard_len(first: u8) -> Option<usize> {
    match first {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0' | b'4' | b'5' | b'6' => Some(2),
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => Some(4),
        _ => None,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MPrim {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
}
impl MPrim {
    pub fn encode(&self) -> (String, Vec<u8>) {
        let c = mcode(&self.code).unwrap();
        if c.var() {
            let both = format!("{}{}", self.code, int_b64(self.size as u64, c.ss));
            layout(&both, &self.raw, c.cs() + 4 * self.size as usize)
        } else {
            layout(&self.code, &self.raw, c.fs().unwrap())
        }
    }
    pub fn fs(&self) -> usize {
        let c = mcode(&self.code).unwrap();
        c.fs().unwrap_or(c.cs() + 4 * self.size as usize)
    }
}
pub const VAR_MAX: usize = ((1 << 24) - 1) * 3;
/// Code selection and truncation on construction from raw.
pub fn matter_from_raw(code: &str, raw: &[u8]) -> Option<MPrim> {
    let c = mcode(code)?;
    if !c.var() {
        if raw.len() < c.rs {
            return None;
        }
        return Some(MPrim { code: code.into(), size: 0, raw: raw[..c.rs].to_vec() });
    }
    let ls = (3 - raw.len() % 3) % 3;
    let size = (raw.len() + ls) / 3;
    if raw.len() > VAR_MAX {
        return None;
    }
    let kind = code.chars().last().unwrap(); // A: Base64 string, B: bytes
    let small = c.ss == 2;
    let code = if small && size < 4096 {
        format!("{}{kind}", ["4", "5", "6"][ls])
    } else {
        format!("{}AA{kind}", ["7", "8", "9"][ls])
    };
    Some(MPrim { code, size: size as u32, raw: raw.to_vec() })
}
/// Canonical parse of text (only the leading part is looked at).
pub fn matter_parse(t: &[u8]) -> Option<MPrim> {
    let hs = hard_len(*t.first()?)?;
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let c = mcode(hard)?;
    let (fs, size, rawlen) = if c.var() {
        let size = b64_int(t.get(hs..hs + c.ss)?)? as usize;
        let rawlen = (size * 3).checked_sub(c.ls)?;
        (c.cs() + 4 * size, size, rawlen)
    } else {
        (c.fs()?, 0, c.rs)
    };
    let raw = unlayout(t.get(..fs)?, c.cs(), rawlen)?;
    Some(MPrim { code: hard.into(), size: size as u32, raw })
}
/// the whole sextets of a byte string, as text
pub fn sextets(b: &[u8]) -> Vec<u8> {
    let mut p = b.to_vec();
    while p.len() % 3 != 0 {
        p.push(0);
    }
    let mut t = enc(&p).into_bytes();
    t.truncate(b.len() * 8 / 6);
    t
}
pub fn matter_parse_bin(b: &[u8]) -> Option<MPrim> {
    matter_parse(&sextets(b))
}

// ---------------------------------------------------------------------------- indexer ---------
#[derive(Clone, Copy, Debug)]
pub struct ICode {
    pub code: &'static str,
    /// characters of the main and of the other index
    pub ms: usize,
    pub os: usize,
    /// raw size; None = 3 * index
    pub rs: Option<usize>,
    pub ls: usize,
    pub current: bool,
    pub both: bool,
}
const fn ic(code: &'static str, ms: usize, os: usize, rs: usize, current: bool) -> ICode {
    ICode { code, ms, os, rs: Some(rs), ls: 0, current, both: !current }
}
pub const INDEXER: &[ICode] = &[
    ic("A", 1, 0, 64, false),
    ic("B", 1, 0, 64, true),
    ic("C", 1, 0, 64, false),
    ic("D", 1, 0, 64, true),
    ic("E", 1, 0, 64, false),
    ic("F", 1, 0, 64, true),
    ic("0A", 1, 1, 114, false),
    ic("0B", 1, 1, 114, true),
    ic("2A", 2, 2, 64, false),
    ic("2B", 2, 2, 64, true),
    ic("2C", 2, 2, 64, false),
    ic("2D", 2, 2, 64, true),
    ic("2E", 2, 2, 64, false),
    ic("2F", 2, 2, 64, true),
    ic("3A", 3, 3, 114, false),
    ic("3B", 3, 3, 114, true),
    ICode { code: "0z", ms: 2, os: 0, rs: None, ls: 0, current: false, both: false },
    ICode { code: "1z", ms: 1, os: 1, rs: Some(53), ls: 1, current: false, both: false },
    ICode { code: "4z", ms: 3, os: 3, rs: Some(53), ls: 1, current: false, both: false },
];
pub fn icode(code: &str) -> Option<&'static ICode> {
    INDEXER.iter().find(|c| c.code == code)
}
impl ICode {
    pub fn cs(&self) -> usize {
        self.code.len() + self.ms + self.os
    }
    pub fn raw_size(&self, index: u32) -> usize {
        self.rs.unwrap_or(3 * index as usize)
    }
    pub fn fs(&self, index: u32) -> usize {
        match self.rs {
            Some(rs) => fixed_fs(self.cs(), rs + self.ls),
            None => self.cs() + 4 * index as usize,
        }
    }
    pub fn max_index(&self) -> u32 {
        (1u32 << (6 * self.ms)) - 1
    }
    pub fn max_ondex(&self) -> u32 {
        (1u32 << (6 * self.os)) - 1
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct IPrim {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
}
impl IPrim {
    pub fn fs(&self) -> usize {
        icode(&self.code).unwrap().fs(self.index)
    }
    pub fn encode(&self) -> (String, Vec<u8>) {
        let c = icode(&self.code).unwrap();
        let mut both = format!("{}{}", self.code, int_b64(self.index as u64, c.ms));
        if c.os > 0 {
            both.push_str(&int_b64(self.ondex as u64, c.os));
        }
        layout(&both, &self.raw, self.fs())
    }
}
pub fn indexer_from_raw(code: &str, raw: &[u8], index: u32, ondex: Option<u32>) -> Option<IPrim> {
    let c = icode(code)?;
    if index > c.max_index() {
        return None;
    }
    let ondex = if c.current {
        if ondex.is_some() {
            return None;
        }
        0
    } else if c.os > 0 {
        let o = ondex.unwrap_or(if c.both { index } else { 0 });
        if o > c.max_ondex() {
            return None;
        }
        o
    } else {
        match ondex {
            // single-index codes: the other index is the index
            Some(o) if o != index => return None,
            _ => index,
        }
    };
    let rs = c.raw_size(index);
    if raw.len() < rs {
        return None;
    }
    Some(IPrim { code: code.into(), index, ondex, raw: raw[..rs].to_vec() })
}
pub fn indexer_hard(first: u8) -> Option<usize> {
    match first {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0'..=b'4' => Some(2),
        _ => None,
    }
}
pub fn indexer_parse(t: &[u8]) -> Option<IPrim> {
    let hs = indexer_hard(*t.first()?)?;
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let c = icode(hard)?;
    let index = b64_int(t.get(hs..hs + c.ms)?)? as u32;
    let ondex = b64_int(t.get(hs + c.ms..c.cs())?)? as u32;
    let ondex = if c.current {
        if ondex != 0 {
            return None;
        }
        0
    } else if c.os > 0 {
        ondex
    } else {
        index
    };
    let raw = unlayout(t.get(..c.fs(index))?, c.cs(), c.raw_size(index))?;
    Some(IPrim { code: hard.into(), index, ondex, raw })
}
pub fn indexer_parse_bin(b: &[u8]) -> Option<IPrim> {
    indexer_parse(&sextets(b))
}

// ---------------------------------------------------------------------------- counter ---------
/// (code, count characters)
pub const COUNTER: &[(&str, usize)] = &[
    ("-A", 2),
    ("-B", 2),
    ("-C", 2),
    ("-D", 2),
    ("-E", 2),
    ("-F", 2),
    ("-G", 2),
    ("-H", 2),
    ("-I", 2),
    ("-J", 2),
    ("-K", 2),
    ("-L", 2),
    ("-V", 2),
    ("-0V", 5),
    ("--AAA", 3),
];
pub fn ccode(code: &str) -> Option<usize> {
    COUNTER.iter().find(|c| c.0 == code).map(|c| c.1)
}
pub fn counter_encode(code: &str, count: u32) -> (String, Vec<u8>) {
    let t = format!("{code}{}", int_b64(count as u64, ccode(code).unwrap()));
    let b = dec(t.as_bytes()).unwrap();
    (t, b)
}
pub fn counter_parse(t: &[u8]) -> Option<(String, u32)> {
    if *t.first()? != b'-' {
        return None;
    }
    let hs = match *t.get(1)? {
        b'A'..=b'Z' | b'a'..=b'z' => 2,
        b'0'..=b'9' => 3,
        b'-' => 5,
        _ => return None,
    };
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let ss = ccode(hard)?;
    let n = b64_int(t.get(hs..hs + ss)?)?;
    Some((hard.into(), n as u32))
}
pub fn counter_parse_bin(b: &[u8]) -> Option<(String, u32)> {
    counter_parse(&sextets(b))
}

// ---- typed content -----------------------------------------------------------------------------
/// the numeric primitive of a value
pub fn number(n: u128) -> MPrim {
    let (code, len) = if n < 1 << 16 {
        ("M", 2)
    } else if n < 1 << 32 {
        ("0H", 4)
    } else if n < 1 << 64 {
        ("N", 8)
    } else {
        ("0A", 16)
    };
    MPrim { code: code.into(), size: 0, raw: n.to_be_bytes()[16 - len..].to_vec() }
}
/// the primitive carrying Base64 text
pub fn bext(text: &str) -> MPrim {
    let t = text.len() % 4;
    let padded = format!("{}{text}", "A".repeat((4 - t) % 4));
    let raw = dec(padded.as_bytes()).unwrap();
    matter_from_raw("4A", &raw[(3 - t) % 3..]).unwrap()
}
/// the text such a primitive stands for
pub fn bext_text(p: &MPrim) -> String {
    let ls = mcode(&p.code).unwrap().ls;
    let mut full = vec![0u8; ls];
    full.extend(&p.raw);
    let t = enc(&full);
    let drop = if ls == 0 { t.starts_with('A') as usize } else { ls + 1 };
    t[drop..].to_string()
}
