//! Views of the library's public types, so monitors can treat them uniformly.
use anyhow::Result;
use keride::cesr::*;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct TM {
    pub c: String,
    pub s: u32,
    pub r: Vec<u8>,
}
impl Matter for TM {
    fn code(&self) -> String {
        self.c.clone()
    }
    fn size(&self) -> u32 {
        self.s
    }
    fn raw(&self) -> Vec<u8> {
        self.r.clone()
    }
    fn set_code(&mut self, c: &str) {
        self.c = c.to_string()
    }
    fn set_size(&mut self, s: u32) {
        self.s = s
    }
    fn set_raw(&mut self, r: &[u8]) {
        self.r = r.to_vec()
    }
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct TI {
    pub c: String,
    pub r: Vec<u8>,
    pub i: u32,
    pub o: u32,
}
impl Indexer for TI {
    fn code(&self) -> String {
        self.c.clone()
    }
    fn set_code(&mut self, c: &str) {
        self.c = c.to_string()
    }
    fn raw(&self) -> Vec<u8> {
        self.r.clone()
    }
    fn set_raw(&mut self, r: &[u8]) {
        self.r = r.to_vec()
    }
    fn index(&self) -> u32 {
        self.i
    }
    fn set_index(&mut self, i: u32) {
        self.i = i
    }
    fn ondex(&self) -> u32 {
        self.o
    }
    fn set_ondex(&mut self, o: u32) {
        self.o = o
    }
}
/// Everything observable about a primitive.
#[derive(Debug, Clone, PartialEq)]
pub struct View {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
    pub text: String,
    pub textb: Vec<u8>,
    pub bin: Vec<u8>,
    pub full: usize,
}
pub fn view<M: Matter>(m: &M) -> Result<View> {
    Ok(View {
        code: m.code(),
        size: m.size(),
        raw: m.raw(),
        text: m.qb64()?,
        textb: m.qb64b()?,
        bin: m.qb2()?,
        full: m.full_size()?,
    })
}
impl View {
    pub fn of(p: &crate::model::Prim) -> View {
        View {
            code: p.code.clone(),
            size: p.size,
            raw: p.raw.clone(),
            text: p.text.clone(),
            textb: p.text.as_bytes().to_vec(),
            bin: p.bin(),
            full: p.text.len(),
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct IView {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
    pub text: String,
    pub textb: Vec<u8>,
    pub bin: Vec<u8>,
    pub full: usize,
}
pub fn iview<M: Indexer>(m: &M) -> Result<IView> {
    Ok(IView {
        code: m.code(),
        index: m.index(),
        ondex: m.ondex(),
        raw: m.raw(),
        text: m.qb64()?,
        textb: m.qb64b()?,
        bin: m.qb2()?,
        full: m.full_size()?,
    })
}
impl IView {
    pub fn of(p: &crate::model::ISig) -> IView {
        IView {
            code: p.code.clone(),
            index: p.index,
            ondex: p.ondex,
            raw: p.raw.clone(),
            text: p.text.clone(),
            textb: p.text.as_bytes().to_vec(),
            bin: p.bin(),
            full: p.text.len(),
        }
    }
}

type R = Result<View>;
pub struct Ty {
    pub name: &'static str,
    pub codes: &'static [&'static str],
    pub raw: fn(&str, &[u8]) -> R,
    pub qb64: fn(&str) -> R,
    pub qb64b: fn(&[u8]) -> R,
    pub qb2: fn(&[u8]) -> R,
    /// the same four routes through the general constructor with every option spelled out
    pub gen: fn(Option<&str>, Option<&[u8]>, Option<&[u8]>, Option<&str>, Option<&[u8]>) -> R,
}
const SEEDS: &[&str] = &["A", "J", "Q"];
pub const KEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const SIGS: &[&str] = &["0B", "0C", "0I"];
const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const PRES: &[&str] =
    &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const NUMS: &[&str] = &["M", "0H", "N", "0A"];
const TEXT: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
pub static TYPES: &[Ty] = &[
    Ty {
        name: "Verfer", codes: KEYS,
        raw: |c, r| view(&Verfer::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Verfer::new_with_qb64(s)?),
        qb64b: |s| view(&Verfer::new_with_qb64b(s)?),
        qb2: |s| view(&Verfer::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Verfer::new(c, r, b, t, q)?),
    },
    Ty {
        name: "Cigar", codes: SIGS,
        raw: |c, r| view(&Cigar::new_with_raw(r, None, Some(c))?),
        qb64: |s| view(&Cigar::new_with_qb64(s, None)?),
        qb64b: |s| view(&Cigar::new_with_qb64b(s, None)?),
        qb2: |s| view(&Cigar::new_with_qb2(s, None)?),
        gen: |c, r, b, t, q| view(&Cigar::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Diger", codes: DIGS,
        raw: |c, r| view(&Diger::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Diger::new_with_qb64(s)?),
        qb64b: |s| view(&Diger::new_with_qb64b(s)?),
        qb2: |s| view(&Diger::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Diger::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Saider", codes: DIGS,
        raw: |c, r| view(&Saider::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Saider::new_with_qb64(s)?),
        qb64b: |s| view(&Saider::new_with_qb64b(s)?),
        qb2: |s| view(&Saider::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Saider::new(None, None, None, None, c, r, b, t, q)?),
    },
    Ty {
        name: "Salter", codes: &["0A"],
        raw: |c, r| view(&Salter::new_with_raw(r, Some(c), None)?),
        qb64: |s| view(&Salter::new_with_qb64(s, None)?),
        qb64b: |s| view(&Salter::new_with_qb64b(s, None)?),
        qb2: |s| view(&Salter::new_with_qb2(s, None)?),
        gen: |c, r, b, t, q| view(&Salter::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Signer", codes: SEEDS,
        raw: |c, r| view(&Signer::new_with_raw(r, None, Some(c))?),
        qb64: |s| view(&Signer::new_with_qb64(s, None)?),
        qb64b: |s| view(&Signer::new_with_qb64b(s, None)?),
        qb2: |s| view(&Signer::new_with_qb2(s, None)?),
        gen: |c, r, b, t, q| view(&Signer::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Number", codes: NUMS,
        raw: |c, r| view(&Number::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Number::new_with_qb64(s)?),
        qb64b: |s| view(&Number::new_with_qb64b(s)?),
        qb2: |s| view(&Number::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Number::new(None, None, c, r, b, t, q)?),
    },
    Ty {
        name: "Seqner", codes: &["0A"],
        raw: |c, r| view(&Seqner::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Seqner::new_with_qb64(s)?),
        qb64b: |s| view(&Seqner::new_with_qb64b(s)?),
        qb2: |s| view(&Seqner::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Seqner::new(None, None, c, r, b, t, q)?),
    },
    Ty {
        name: "Dater", codes: &["1AAG"],
        raw: |c, r| view(&Dater::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Dater::new_with_qb64(s)?),
        qb64b: |s| view(&Dater::new_with_qb64b(s)?),
        qb2: |s| view(&Dater::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Dater::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Bexter", codes: TEXT,
        raw: |c, r| view(&Bexter::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Bexter::new_with_qb64(s)?),
        qb64b: |s| view(&Bexter::new_with_qb64b(s)?),
        qb2: |s| view(&Bexter::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Bexter::new(None, c, r, b, t, q)?),
    },
    Ty {
        name: "Pather", codes: TEXT,
        raw: |c, r| view(&Pather::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Pather::new_with_qb64(s)?),
        qb64b: |s| view(&Pather::new_with_qb64b(s)?),
        qb2: |s| view(&Pather::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Pather::new(None, None, c, r, b, t, q)?),
    },
    Ty {
        name: "Prefixer", codes: PRES,
        raw: |c, r| view(&Prefixer::new_with_raw(r, Some(c))?),
        qb64: |s| view(&Prefixer::new_with_qb64(s)?),
        qb64b: |s| view(&Prefixer::new_with_qb64b(s)?),
        qb2: |s| view(&Prefixer::new_with_qb2(s)?),
        gen: |c, r, b, t, q| view(&Prefixer::new(None, None, c, r, b, t, q)?),
    },
];
pub static SIGER_CODES: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
