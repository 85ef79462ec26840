//! Uniform access to every primitive type and every way of constructing it.
use cesride::*;

/// bare primitive: the trait's own behaviour for every code
#[derive(Default, Clone)]
pub struct Mat {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
}
impl Matter for Mat {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn set_size(&mut self, size: u32) {
        self.size = size
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
}
#[derive(Default, Clone)]
pub struct Ind {
    pub code: String,
    pub raw: Vec<u8>,
    pub index: u32,
    pub ondex: u32,
}
impl Indexer for Ind {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec()
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn set_index(&mut self, index: u32) {
        self.index = index
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_ondex(&mut self, ondex: u32) {
        self.ondex = ondex
    }
}

pub type R<T> = std::result::Result<T, String>;
pub fn es<T>(r: cesride::Result<T>) -> R<T> {
    r.map_err(|e| e.to_string())
}

/// everything observable about a primitive
#[derive(Debug, Clone, PartialEq)]
pub struct P {
    pub code: String,
    pub raw: Vec<u8>,
    pub size: u32,
    pub qb64: R<String>,
    pub qb64b: R<Vec<u8>>,
    pub qb2: R<Vec<u8>>,
    pub full: R<usize>,
}
pub fn obs<M: Matter>(m: M) -> P {
    P {
        code: m.code(),
        raw: m.raw(),
        size: m.size(),
        qb64: es(m.qb64()),
        qb64b: es(m.qb64b()),
        qb2: es(m.qb2()),
        full: es(m.full_size()),
    }
}

pub enum In<'a> {
    Raw(&'a str, &'a [u8]),
    Text(&'a str),
    Tbytes(&'a [u8]),
    Bin(&'a [u8]),
}
impl<'a> In<'a> {
    pub fn show(&self) -> String {
        match self {
            In::Raw(c, r) => format!("raw code={c} raw={}", crate::ctx::hex(r)),
            In::Text(t) => format!("qb64 {}", crate::ctx::short(t)),
            In::Tbytes(t) => format!("qb64b {}", crate::ctx::short(&String::from_utf8_lossy(t))),
            In::Bin(b) => format!("qb2 {}", crate::ctx::hex(b)),
        }
    }
}

pub struct Ty {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    /// `general`: through the all-options constructor instead of the specific one
    pub mk: fn(&In, bool) -> cesride::Result<P>,
}

macro_rules! ty {
    ($name:expr, $codes:expr, $t:ident, |$c:ident, $r:ident, $tb:ident, $tx:ident, $b:ident| $gen:expr,
     $raw:expr, $tbf:expr, $txf:expr, $bf:expr) => {
        Ty {
            name: $name,
            codes: $codes,
            mk: |i, general| {
                let m: $t = if general {
                    let ($c, $r, $tb, $tx, $b) = match i {
                        In::Raw(c, r) => (Some(*c), Some(*r), None, None, None),
                        In::Tbytes(t) => (None, None, Some(*t), None, None),
                        In::Text(t) => (None, None, None, Some(*t), None),
                        In::Bin(b) => (None, None, None, None, Some(*b)),
                    };
                    $gen?
                } else {
                    match i {
                        In::Raw(c, r) => $raw(*c, *r)?,
                        In::Tbytes(t) => $tbf(*t)?,
                        In::Text(t) => $txf(*t)?,
                        In::Bin(b) => $bf(*b)?,
                    }
                };
                Ok(obs(m))
            },
        }
    };
}

pub const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const STRS: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];

pub fn bare() -> Ty {
    ty!("bare", &[], Mat, |c, r, tb, tx, b| <Mat as Matter>::new(c, r, tb, tx, b),
        |c, r| Mat::new_with_code_and_raw(c, r), Mat::new_with_qb64b, Mat::new_with_qb64, Mat::new_with_qb2)
}

pub fn types() -> Vec<Ty> {
    vec![
        ty!("Verfer", KEYS, Verfer, |c, r, tb, tx, b| Verfer::new(c, r, tb, tx, b),
            |c, r| Verfer::new_with_raw(r, Some(c)), Verfer::new_with_qb64b, Verfer::new_with_qb64, Verfer::new_with_qb2),
        ty!("Diger", DIGS, Diger, |c, r, tb, tx, b| Diger::new(None, c, r, tb, tx, b),
            |c, r| Diger::new_with_raw(r, Some(c)), Diger::new_with_qb64b, Diger::new_with_qb64, Diger::new_with_qb2),
        ty!("Signer", &["A", "J", "Q"], Signer, |c, r, tb, tx, b| Signer::new(None, c, r, tb, tx, b),
            |c, r| Signer::new_with_raw(r, None, Some(c)),
            |t| Signer::new_with_qb64b(t, None), |t| Signer::new_with_qb64(t, None), |t| Signer::new_with_qb2(t, None)),
        ty!("Cigar", &["0B", "0C", "0I"], Cigar, |c, r, tb, tx, b| Cigar::new(None, c, r, tb, tx, b),
            |c, r| Cigar::new_with_raw(r, None, Some(c)),
            |t| Cigar::new_with_qb64b(t, None), |t| Cigar::new_with_qb64(t, None), |t| Cigar::new_with_qb2(t, None)),
        ty!("Saider", DIGS, Saider, |c, r, tb, tx, b| Saider::new(None, None, None, None, c, r, tb, tx, b),
            |c, r| Saider::new_with_raw(r, Some(c)), Saider::new_with_qb64b, Saider::new_with_qb64, Saider::new_with_qb2),
        ty!("Seqner", &["0A"], Seqner, |c, r, tb, tx, b| Seqner::new(None, None, c, r, tb, tx, b),
            |c, r| Seqner::new_with_raw(r, Some(c)), Seqner::new_with_qb64b, Seqner::new_with_qb64, Seqner::new_with_qb2),
        ty!("Dater", &["1AAG"], Dater, |c, r, tb, tx, b| Dater::new(None, c, r, tb, tx, b),
            |c, r| Dater::new_with_raw(r, Some(c)), Dater::new_with_qb64b, Dater::new_with_qb64, Dater::new_with_qb2),
        ty!("Bexter", STRS, Bexter, |c, r, tb, tx, b| Bexter::new(None, c, r, tb, tx, b),
            |c, r| Bexter::new_with_raw(r, Some(c)), Bexter::new_with_qb64b, Bexter::new_with_qb64, Bexter::new_with_qb2),
        ty!("Pather", STRS, Pather, |c, r, tb, tx, b| Pather::new(None, None, c, r, tb, tx, b),
            |c, r| Pather::new_with_raw(r, Some(c)), Pather::new_with_qb64b, Pather::new_with_qb64, Pather::new_with_qb2),
        ty!("Prefixer", &["B", "1AAA", "1AAI", "D", "1AAB", "1AAJ", "E", "0D", "F", "0E", "G", "H", "0F", "I", "0G"],
            Prefixer, |c, r, tb, tx, b| Prefixer::new(None, None, c, r, tb, tx, b),
            |c, r| Prefixer::new_with_raw(r, Some(c)), Prefixer::new_with_qb64b, Prefixer::new_with_qb64, Prefixer::new_with_qb2),
        ty!("Number", &["M", "0H", "N", "0A"], Number, |c, r, tb, tx, b| Number::new(None, None, c, r, tb, tx, b),
            |c, r| Number::new_with_raw(r, Some(c)), Number::new_with_qb64b, Number::new_with_qb64, Number::new_with_qb2),
        ty!("Salter", &["0A"], Salter, |c, r, tb, tx, b| Salter::new(None, c, r, tb, tx, b),
            |c, r| Salter::new_with_raw(r, Some(c), None),
            |t| Salter::new_with_qb64b(t, None), |t| Salter::new_with_qb64(t, None), |t| Salter::new_with_qb2(t, None)),
    ]
}

#[derive(Debug, Clone, PartialEq)]
pub struct IO {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
    pub qb64: R<String>,
    pub qb64b: R<Vec<u8>>,
    pub qb2: R<Vec<u8>>,
    pub full: R<usize>,
}
pub fn iobs<I: Indexer>(m: I) -> IO {
    IO {
        code: m.code(),
        index: m.index(),
        ondex: m.ondex(),
        raw: m.raw(),
        qb64: es(m.qb64()),
        qb64b: es(m.qb64b()),
        qb2: es(m.qb2()),
        full: es(m.full_size()),
    }
}
pub const SIGS: &[&str] =
    &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
pub struct ITy {
    pub name: &'static str,
    pub siger: bool,
    pub mk: fn(&In, u32, Option<u32>, bool) -> cesride::Result<IO>,
}
pub fn itypes() -> Vec<ITy> {
    vec![
        ITy {
            name: "indexer",
            siger: false,
            mk: |i, x, o, g| {
                Ok(iobs::<Ind>(match i {
                    In::Raw(c, r) if g => <Ind as Indexer>::new(Some(x), o, Some(c), Some(r), None, None, None)?,
                    In::Raw(c, r) => Ind::new_with_code_and_raw(c, r, x, o)?,
                    In::Tbytes(t) if g => <Ind as Indexer>::new(None, None, None, None, Some(t), None, None)?,
                    In::Tbytes(t) => Ind::new_with_qb64b(t)?,
                    In::Text(t) if g => <Ind as Indexer>::new(None, None, None, None, None, Some(t), None)?,
                    In::Text(t) => Ind::new_with_qb64(t)?,
                    In::Bin(t) if g => <Ind as Indexer>::new(None, None, None, None, None, None, Some(t))?,
                    In::Bin(t) => Ind::new_with_qb2(t)?,
                }))
            },
        },
        ITy {
            name: "Siger",
            siger: true,
            mk: |i, x, o, g| {
                Ok(iobs::<Siger>(match i {
                    In::Raw(c, r) if g => Siger::new(None, Some(x), o, Some(c), Some(r), None, None, None)?,
                    In::Raw(c, r) => Siger::new_with_raw(r, None, Some(x), o, Some(c))?,
                    In::Tbytes(t) if g => Siger::new(None, None, None, None, None, Some(t), None, None)?,
                    In::Tbytes(t) => Siger::new_with_qb64b(t, None)?,
                    In::Text(t) if g => Siger::new(None, None, None, None, None, None, Some(t), None)?,
                    In::Text(t) => Siger::new_with_qb64(t, None)?,
                    In::Bin(t) if g => Siger::new(None, None, None, None, None, None, None, Some(t))?,
                    In::Bin(t) => Siger::new_with_qb2(t, None)?,
                }))
            },
        },
    ]
}
#[derive(Debug, Clone, PartialEq)]
pub struct CO {
    pub code: String,
    pub count: u32,
    pub qb64: R<String>,
    pub qb64b: R<Vec<u8>>,
    pub qb2: R<Vec<u8>>,
    pub full: R<usize>,
}
pub fn cobs(c: Counter) -> CO {
    CO {
        code: c.code(),
        count: c.count(),
        qb64: es(c.qb64()),
        qb64b: es(c.qb64b()),
        qb2: es(c.qb2()),
        full: es(c.full_size()),
    }
}
pub fn cmk(i: &In, count: u32, g: bool) -> cesride::Result<CO> {
    Ok(cobs(match i {
        In::Raw(c, _) if g => Counter::new(Some(count), None, Some(c), None, None, None)?,
        In::Raw(c, _) => Counter::new_with_code_and_count(c, count)?,
        In::Tbytes(t) if g => Counter::new(None, None, None, Some(t), None, None)?,
        In::Tbytes(t) => Counter::new_with_qb64b(t)?,
        In::Text(t) if g => Counter::new(None, None, None, None, Some(t), None)?,
        In::Text(t) => Counter::new_with_qb64(t)?,
        In::Bin(t) if g => Counter::new(None, None, None, None, None, Some(t))?,
        In::Bin(t) => Counter::new_with_qb2(t)?,
    }))
}
