//! Registry of the typed primitives: one observer per type over every construction route.
use cesride::{
    Bexter, Cigar, Dater, Diger, Indexer, Matter, Number, Pather, Prefixer, Result, Saider, Salter, Seqner, Siger, Signer, Verfer,
};

#[derive(Debug, Clone, PartialEq)]
pub struct Obs {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
    pub qb64: String,
    pub qb64b: Vec<u8>,
    pub qb2: Vec<u8>,
    pub full: usize,
    pub digestive: bool,
    pub transferable: bool,
}
#[derive(Debug, Clone, Copy)]
pub enum Route<'a> {
    Raw(&'a str, &'a [u8]),
    Text(&'a str),
    Bytes(&'a [u8]),
    Bin(&'a [u8]),
}
/// A constructor that succeeds and an encoding that then fails is an accepted input, not a rejected one:
/// the failed view is kept, as text no encoding can equal.
fn failed<E: std::fmt::Display>(e: E) -> String {
    format!("<no encoding: {e}>")
}
pub fn obs<M: Matter>(m: &M) -> Result<Obs> {
    Ok(Obs {
        code: m.code(),
        raw: m.raw(),
        size: m.size(),
        qb64: m.qb64().unwrap_or_else(failed),
        qb64b: m.qb64b().unwrap_or_else(|e| failed(e).into_bytes()),
        qb2: m.qb2().unwrap_or_else(|e| failed(e).into_bytes()),
        full: m.full_size().unwrap_or(0),
        digestive: m.digestive(),
        transferable: m.transferable(),
    })
}

/// A bare implementation of the Matter trait.
#[derive(Default, Debug, Clone, PartialEq)]
pub struct Bare {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
}
impl Matter for Bare {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.into();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
}
/// A bare implementation of the Indexer trait.
#[derive(Default, Debug, Clone, PartialEq)]
pub struct BareIdx {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
}
impl Indexer for BareIdx {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.into();
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, i: u32) {
        self.index = i;
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, o: u32) {
        self.ondex = o;
    }
}

pub struct Ty {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    pub make: fn(Route) -> Result<Obs>,
    /// the same material through the general constructor
    pub make_new: fn(Route) -> Result<Obs>,
}

const DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const STRB64: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];

macro_rules! route {
    ($r:expr, $rawf:expr, $text:expr, $bytes:expr, $bin:expr) => {
        match $r {
            Route::Raw(c, r) => $rawf(c, r).and_then(|m| obs(&m)),
            Route::Text(t) => $text(t).and_then(|m| obs(&m)),
            Route::Bytes(b) => $bytes(b).and_then(|m| obs(&m)),
            Route::Bin(b) => $bin(b).and_then(|m| obs(&m)),
        }
    };
}
/// (code, raw, qb64b, qb64, qb2) as options, for the general constructors
fn parts<'a>(r: Route<'a>) -> (Option<&'a str>, Option<&'a [u8]>, Option<&'a [u8]>, Option<&'a str>, Option<&'a [u8]>) {
    match r {
        Route::Raw(c, r) => (Some(c), Some(r), None, None, None),
        Route::Text(t) => (None, None, None, Some(t), None),
        Route::Bytes(b) => (None, None, Some(b), None, None),
        Route::Bin(b) => (None, None, None, None, Some(b)),
    }
}

pub const TYPES: &[Ty] = &[
    Ty {
        name: "Verfer",
        codes: &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"],
        make: |r| route!(r, |c, x| Verfer::new_with_raw(x, Some(c)), Verfer::new_with_qb64, Verfer::new_with_qb64b, Verfer::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Verfer::new(c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Signer",
        codes: &["A", "J", "Q"],
        make: |r| {
            route!(
                r,
                |c, x| Signer::new_with_raw(x, None, Some(c)),
                |t| Signer::new_with_qb64(t, None),
                |t| Signer::new_with_qb64b(t, None),
                |t| Signer::new_with_qb2(t, None)
            )
        },
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Signer::new(Some(false), c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Salter",
        codes: &["0A"],
        make: |r| {
            route!(
                r,
                |c, x| Salter::new_with_raw(x, Some(c), None),
                |t| Salter::new_with_qb64(t, None),
                |t| Salter::new_with_qb64b(t, None),
                |t| Salter::new_with_qb2(t, None)
            )
        },
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Salter::new(Some("high"), c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Cigar",
        codes: &["0B", "0C", "0I"],
        make: |r| {
            route!(
                r,
                |c, x| Cigar::new_with_raw(x, None, Some(c)),
                |t| Cigar::new_with_qb64(t, None),
                |t| Cigar::new_with_qb64b(t, None),
                |t| Cigar::new_with_qb2(t, None)
            )
        },
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Cigar::new(None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Diger",
        codes: DIGESTS,
        make: |r| route!(r, |c, x| Diger::new_with_raw(x, Some(c)), Diger::new_with_qb64, Diger::new_with_qb64b, Diger::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Diger::new(None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Saider",
        codes: DIGESTS,
        make: |r| route!(r, |c, x| Saider::new_with_raw(x, Some(c)), Saider::new_with_qb64, Saider::new_with_qb64b, Saider::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Saider::new(None, None, None, None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Prefixer",
        codes: &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"],
        make: |r| {
            route!(r, |c, x| Prefixer::new_with_raw(x, Some(c)), Prefixer::new_with_qb64, Prefixer::new_with_qb64b, Prefixer::new_with_qb2)
        },
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Prefixer::new(None, None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Number",
        codes: &["M", "0H", "N", "0A"],
        make: |r| route!(r, |c, x| Number::new_with_raw(x, Some(c)), Number::new_with_qb64, Number::new_with_qb64b, Number::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Number::new(None, None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Seqner",
        codes: &["0A"],
        make: |r| route!(r, |c, x| Seqner::new_with_raw(x, Some(c)), Seqner::new_with_qb64, Seqner::new_with_qb64b, Seqner::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Seqner::new(None, None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Dater",
        codes: &["1AAG"],
        make: |r| route!(r, |c, x| Dater::new_with_raw(x, Some(c)), Dater::new_with_qb64, Dater::new_with_qb64b, Dater::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Dater::new(None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Bexter",
        codes: STRB64,
        make: |r| route!(r, |c, x| Bexter::new_with_raw(x, Some(c)), Bexter::new_with_qb64, Bexter::new_with_qb64b, Bexter::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Bexter::new(None, c, w, b, t, q)?)
        },
    },
    Ty {
        name: "Pather",
        codes: STRB64,
        make: |r| route!(r, |c, x| Pather::new_with_raw(x, Some(c)), Pather::new_with_qb64, Pather::new_with_qb64b, Pather::new_with_qb2),
        make_new: |r| {
            let (c, w, b, t, q) = parts(r);
            obs(&Pather::new(None, None, c, w, b, t, q)?)
        },
    },
];
pub const BARE: Ty = Ty {
    name: "Bare",
    codes: &[],
    make: |r| {
        route!(
            r,
            |c, x| <Bare as Matter>::new_with_code_and_raw(c, x),
            <Bare as Matter>::new_with_qb64,
            <Bare as Matter>::new_with_qb64b,
            <Bare as Matter>::new_with_qb2
        )
    },
    make_new: |r| {
        let (c, w, b, t, q) = parts(r);
        obs(&<Bare as Matter>::new(c, w, b, t, q)?)
    },
};

#[derive(Debug, Clone, PartialEq)]
pub struct IObs {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
    pub qb64: String,
    pub qb64b: Vec<u8>,
    pub qb2: Vec<u8>,
    pub full: usize,
}
pub fn iobs<I: Indexer>(m: &I) -> Result<IObs> {
    Ok(IObs {
        code: m.code(),
        raw: m.raw(),
        index: m.index(),
        ondex: m.ondex(),
        qb64: m.qb64().unwrap_or_else(failed),
        qb64b: m.qb64b().unwrap_or_else(|e| failed(e).into_bytes()),
        qb2: m.qb2().unwrap_or_else(|e| failed(e).into_bytes()),
        full: m.full_size().unwrap_or(0),
    })
}
#[derive(Debug, Clone, Copy)]
pub enum IRoute<'a> {
    Raw(&'a str, &'a [u8], u32, Option<u32>),
    Text(&'a str),
    Bytes(&'a [u8]),
    Bin(&'a [u8]),
}
pub fn make_bare_idx(r: IRoute) -> Result<IObs> {
    match r {
        IRoute::Raw(c, x, i, o) => iobs(&<BareIdx as Indexer>::new(Some(i), o, Some(c), Some(x), None, None, None)?),
        IRoute::Text(t) => iobs(&<BareIdx as Indexer>::new_with_qb64(t)?),
        IRoute::Bytes(t) => iobs(&<BareIdx as Indexer>::new_with_qb64b(t)?),
        IRoute::Bin(t) => iobs(&<BareIdx as Indexer>::new_with_qb2(t)?),
    }
}
pub fn make_siger(r: IRoute) -> Result<IObs> {
    match r {
        IRoute::Raw(c, x, i, o) => iobs(&Siger::new_with_raw(x, None, Some(i), o, Some(c))?),
        IRoute::Text(t) => iobs(&Siger::new_with_qb64(t, None)?),
        IRoute::Bytes(t) => iobs(&Siger::new_with_qb64b(t, None)?),
        IRoute::Bin(t) => iobs(&Siger::new_with_qb2(t, None)?),
    }
}
pub const SIGER_CODES: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
