//! Independent reference model of the CESR encodings, written from the specification tables.

pub const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn sextet(c: u8) -> Option<u8> {
    B64.iter().position(|x| *x == c).map(|p| p as u8)
}
/// Strict base64url without padding of whole 3-byte groups.
pub fn b64e(b: &[u8]) -> String {
    assert!(b.len() % 3 == 0);
    let mut s = String::new();
    for g in b.chunks(3) {
        let n = (g[0] as u32) << 16 | (g[1] as u32) << 8 | g[2] as u32;
        for k in (0..4).rev() {
            s.push(B64[(n >> (6 * k)) as usize & 63] as char);
        }
    }
    s
}
/// Only whole quadlets of alphabet characters.
pub fn b64d(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let mut v = vec![];
    for g in s.chunks(4) {
        let mut n = 0u32;
        for c in g {
            n = n << 6 | sextet(*c)? as u32;
        }
        v.extend_from_slice(&n.to_be_bytes()[1..]);
    }
    Some(v)
}
pub fn int_b64(n: u64, len: usize) -> Option<String> {
    let mut s = vec![];
    let mut n = n;
    for _ in 0..len {
        s.push(B64[(n & 63) as usize]);
        n >>= 6;
    }
    if n != 0 {
        return None;
    }
    s.reverse();
    Some(String::from_utf8(s).unwrap())
}
pub fn b64_int(s: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in s {
        n = n << 6 | sextet(*c)? as u64;
    }
    Some(n)
}

// ------------------------------------------------------------------ matter
#[derive(Clone, Copy, Debug)]
pub struct MC {
    pub code: &'static str,
    pub ss: usize,
    pub fs: usize, // 0 = variable
    pub ls: usize,
}
const fn m(code: &'static str, ss: usize, fs: usize, ls: usize) -> MC {
    MC { code, ss, fs, ls }
}
pub static MATTER: &[MC] = &[
    m("A", 0, 44, 0), m("B", 0, 44, 0), m("C", 0, 44, 0), m("D", 0, 44, 0), m("E", 0, 44, 0),
    m("F", 0, 44, 0), m("G", 0, 44, 0), m("H", 0, 44, 0), m("I", 0, 44, 0), m("J", 0, 44, 0),
    m("K", 0, 76, 0), m("L", 0, 76, 0), m("M", 0, 4, 0), m("N", 0, 12, 0), m("O", 0, 44, 0),
    m("P", 0, 124, 0), m("Q", 0, 44, 0),
    m("0A", 0, 24, 0), m("0B", 0, 88, 0), m("0C", 0, 88, 0), m("0D", 0, 88, 0), m("0E", 0, 88, 0),
    m("0F", 0, 88, 0), m("0G", 0, 88, 0), m("0H", 0, 8, 0), m("0I", 0, 88, 0),
    m("1AAA", 0, 48, 0), m("1AAB", 0, 48, 0), m("1AAC", 0, 80, 0), m("1AAD", 0, 80, 0),
    m("1AAE", 0, 56, 0), m("1AAF", 0, 8, 0), m("1AAG", 0, 36, 0), m("1AAH", 0, 100, 0),
    m("1AAI", 0, 48, 0), m("1AAJ", 0, 48, 0),
    m("2AAA", 0, 8, 1), m("3AAA", 0, 8, 2),
    m("4A", 2, 0, 0), m("5A", 2, 0, 1), m("6A", 2, 0, 2),
    m("7AAA", 4, 0, 0), m("8AAA", 4, 0, 1), m("9AAA", 4, 0, 2),
    m("4B", 2, 0, 0), m("5B", 2, 0, 1), m("6B", 2, 0, 2),
    m("7AAB", 4, 0, 0), m("8AAB", 4, 0, 1), m("9AAB", 4, 0, 2),
];
pub fn mc(code: &str) -> Option<&'static MC> {
    MATTER.iter().find(|m| m.code == code)
}
impl MC {
    pub fn cs(&self) -> usize {
        self.code.len() + self.ss
    }
    pub fn variable(&self) -> bool {
        self.fs == 0
    }
    /// raw size of a fixed code
    pub fn rs(&self) -> usize {
        (self.fs - self.cs()) * 3 / 4 - self.ls
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Prim {
    pub code: String,
    pub size: u32,
    pub raw: Vec<u8>,
    pub text: String,
}
impl Prim {
    pub fn bin(&self) -> Vec<u8> {
        b64d(self.text.as_bytes()).unwrap()
    }
}
/// What constructing a primitive from (code, raw) must give; None = must be refused.
pub fn construct(code: &str, raw: &[u8]) -> Option<Prim> {
    let d = mc(code)?;
    if !d.variable() {
        let n = d.rs();
        if raw.len() < n {
            return None;
        }
        return Some(encode_fixed(d, &raw[..n]));
    }
    let ls = (3 - raw.len() % 3) % 3;
    let q = (raw.len() + ls) / 3;
    let kind = d.code.chars().last().unwrap();
    let small = d.code.len() == 2;
    let code = if small && q < 4096 {
        format!("{}{}", ["4", "5", "6"][ls], kind)
    } else if q < 1 << 24 {
        format!("{}AA{}", ["7", "8", "9"][ls], kind)
    } else {
        return None;
    };
    Some(encode_var(mc(&code)?, raw, q))
}
pub fn encode_fixed(d: &MC, raw: &[u8]) -> Prim {
    let ps = d.cs() % 4;
    let mut b = vec![0u8; ps + d.ls];
    b.extend_from_slice(raw);
    let t = b64e(&b);
    Prim { code: d.code.into(), size: 0, raw: raw.to_vec(), text: format!("{}{}", d.code, &t[ps..]) }
}
pub fn encode_var(d: &MC, raw: &[u8], q: usize) -> Prim {
    let mut b = vec![0u8; d.ls];
    b.extend_from_slice(raw);
    let t = format!("{}{}{}", d.code, int_b64(q as u64, d.ss).unwrap(), b64e(&b));
    Prim { code: d.code.into(), size: q as u32, raw: raw.to_vec(), text: t }
}
fn hard_size(c: u8) -> Option<usize> {
    match c {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0' | b'4' | b'5' | b'6' => Some(2),
        b'1' | b'2' | b'3' | b'7' | b'8' | b'9' => Some(4),
        _ => None,
    }
}
/// Strict decode of a prefix of `t`; None = must be refused.
pub fn decode(t: &[u8]) -> Option<Prim> {
    let hs = hard_size(*t.first()?)?;
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let d = mc(hard)?;
    let (fs, q) = if d.variable() {
        let q = b64_int(t.get(hs..hs + d.ss)?)? as usize;
        (d.cs() + 4 * q, q)
    } else {
        (d.fs, 0)
    };
    let t = t.get(..fs)?;
    let ps = if d.variable() { 0 } else { d.cs() % 4 };
    let mut body = vec![b'A'; ps];
    body.extend_from_slice(&t[d.cs()..]);
    let b = b64d(&body)?;
    let lead = ps + d.ls;
    if b.len() < lead || (ps > 0 && b[..ps].iter().any(|x| *x != 0) && false) {
        return None;
    }
    let p = if d.variable() {
        encode_var(d, &b[lead..], q)
    } else {
        encode_fixed(d, &b[lead..])
    };
    if p.text.as_bytes() != t {
        return None;
    }
    Some(p)
}
pub fn decode_bin(b: &[u8]) -> Option<Prim> {
    let n = b.len() / 3 * 3;
    decode(b64e(&b[..n]).as_bytes())
}

// ------------------------------------------------------------------ indexer
#[derive(Clone, Copy, Debug)]
pub struct IC {
    pub code: &'static str,
    pub ss: usize,
    pub os: usize,
    pub fs: usize, // 0 = variable
    pub ls: usize,
}
const fn ix(code: &'static str, ss: usize, os: usize, fs: usize, ls: usize) -> IC {
    IC { code, ss, os, fs, ls }
}
pub static INDEXER: &[IC] = &[
    ix("A", 1, 0, 88, 0), ix("B", 1, 0, 88, 0), ix("C", 1, 0, 88, 0), ix("D", 1, 0, 88, 0),
    ix("E", 1, 0, 88, 0), ix("F", 1, 0, 88, 0),
    ix("0A", 2, 1, 156, 0), ix("0B", 2, 1, 156, 0),
    ix("2A", 4, 2, 92, 0), ix("2B", 4, 2, 92, 0), ix("2C", 4, 2, 92, 0), ix("2D", 4, 2, 92, 0),
    ix("2E", 4, 2, 92, 0), ix("2F", 4, 2, 92, 0),
    ix("3A", 6, 3, 160, 0), ix("3B", 6, 3, 160, 0),
    ix("0z", 2, 0, 0, 0), ix("1z", 2, 1, 76, 1), ix("4z", 6, 3, 80, 1),
];
pub static CURRENT_ONLY: &[&str] = &["B", "D", "F", "0B", "2B", "2D", "2F", "3B"];
pub static BOTH: &[&str] = &["A", "C", "E", "0A", "2A", "2C", "2E", "3A"];
pub fn ic(code: &str) -> Option<&'static IC> {
    INDEXER.iter().find(|m| m.code == code)
}
impl IC {
    pub fn cs(&self) -> usize {
        self.code.len() + self.ss
    }
    pub fn ms(&self) -> usize {
        self.ss - self.os
    }
    pub fn imax(&self) -> u64 {
        64u64.pow(self.ms() as u32) - 1
    }
    pub fn omax(&self) -> u64 {
        if self.os == 0 { 0 } else { 64u64.pow(self.os as u32) - 1 }
    }
    pub fn current_only(&self) -> bool {
        CURRENT_ONLY.contains(&self.code)
    }
    pub fn rs(&self, index: u64) -> usize {
        if self.fs == 0 { index as usize * 3 } else { (self.fs - self.cs()) * 3 / 4 - self.ls }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ISig {
    pub code: String,
    pub index: u32,
    pub ondex: u32,
    pub raw: Vec<u8>,
    pub text: String,
}
impl ISig {
    pub fn bin(&self) -> Vec<u8> {
        b64d(self.text.as_bytes()).unwrap()
    }
}
fn iencode(d: &IC, index: u64, ondex: u64, raw: &[u8]) -> Option<ISig> {
    let ps = d.cs() % 4;
    let mut b = vec![0u8; ps + d.ls];
    b.extend_from_slice(raw);
    let t = b64e(&b);
    let text = format!(
        "{}{}{}{}",
        d.code,
        int_b64(index, d.ms())?,
        int_b64(ondex, d.os)?,
        &t[ps..]
    );
    Some(ISig { code: d.code.into(), index: index as u32, ondex: ondex as u32, raw: raw.to_vec(), text })
}
/// None = must be refused
pub fn iconstruct(code: &str, raw: &[u8], index: u32, ondex: Option<u32>) -> Option<ISig> {
    let d = ic(code)?;
    if index as u64 > d.imax() {
        return None;
    }
    if d.current_only() && ondex.is_some() {
        return None;
    }
    if let Some(o) = ondex {
        if d.os > 0 && o as u64 > d.omax() {
            return None;
        }
        if d.os == 0 && o != index {
            return None;
        }
    }
    let n = d.rs(index as u64);
    if raw.len() < n {
        return None;
    }
    let raw = &raw[..n];
    // the other index defaults to the index where the code carries both
    let o = match ondex {
        Some(o) => o,
        None if BOTH.contains(&code) => index,
        None => 0,
    };
    if d.os > 0 && o as u64 > d.omax() {
        return None;
    }
    let mut s = iencode(d, index as u64, if d.os > 0 { o as u64 } else { 0 }, raw)?;
    s.ondex = o;
    Some(s)
}
fn ihard(c: u8) -> Option<usize> {
    match c {
        b'A'..=b'Z' | b'a'..=b'z' => Some(1),
        b'0'..=b'4' => Some(2),
        _ => None,
    }
}
pub fn idecode(t: &[u8]) -> Option<ISig> {
    let hs = ihard(*t.first()?)?;
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let d = ic(hard)?;
    let index = b64_int(t.get(hs..hs + d.ms())?)?;
    let od = b64_int(t.get(hs + d.ms()..hs + d.ss)?)?;
    if d.current_only() && od != 0 {
        return None;
    }
    let fs = if d.fs == 0 { d.cs() + 4 * index as usize } else { d.fs };
    let t = t.get(..fs)?;
    let ps = d.cs() % 4;
    let mut body = vec![b'A'; ps];
    body.extend_from_slice(&t[d.cs()..]);
    let b = b64d(&body)?;
    if b.len() < ps + d.ls {
        return None;
    }
    let mut s = iencode(d, index, od, &b[ps + d.ls..])?;
    if s.text.as_bytes() != t {
        return None;
    }
    if d.os == 0 && !d.current_only() {
        s.ondex = index as u32;
    }
    Some(s)
}
pub fn idecode_bin(b: &[u8]) -> Option<ISig> {
    let n = b.len() / 3 * 3;
    idecode(b64e(&b[..n]).as_bytes())
}

// ------------------------------------------------------------------ counter
#[derive(Clone, Copy, Debug)]
pub struct CC {
    pub code: &'static str,
    pub ss: usize,
}
pub static COUNTER: &[CC] = &[
    CC { code: "-A", ss: 2 }, CC { code: "-B", ss: 2 }, CC { code: "-C", ss: 2 }, CC { code: "-D", ss: 2 },
    CC { code: "-E", ss: 2 }, CC { code: "-F", ss: 2 }, CC { code: "-G", ss: 2 }, CC { code: "-H", ss: 2 },
    CC { code: "-I", ss: 2 }, CC { code: "-J", ss: 2 }, CC { code: "-K", ss: 2 }, CC { code: "-L", ss: 2 },
    CC { code: "-V", ss: 2 }, CC { code: "-0V", ss: 5 }, CC { code: "--AAA", ss: 3 },
];
pub fn cc(code: &str) -> Option<&'static CC> {
    COUNTER.iter().find(|c| c.code == code)
}
impl CC {
    pub fn max(&self) -> u64 {
        64u64.pow(self.ss as u32) - 1
    }
    pub fn fs(&self) -> usize {
        self.code.len() + self.ss
    }
}
pub fn cencode(code: &str, count: u64) -> Option<String> {
    let d = cc(code)?;
    Some(format!("{code}{}", int_b64(count, d.ss)?))
}
pub fn cdecode(t: &[u8]) -> Option<(String, u32, usize)> {
    if *t.first()? != b'-' {
        return None;
    }
    let hs = match *t.get(1)? {
        b'A'..=b'Z' | b'a'..=b'z' => 2,
        b'0' => 3,
        b'-' => 5,
        _ => return None,
    };
    let hard = std::str::from_utf8(t.get(..hs)?).ok()?;
    let d = cc(hard)?;
    let n = b64_int(t.get(hs..d.fs())?)?;
    Some((hard.into(), n as u32, d.fs()))
}
pub fn cdecode_bin(b: &[u8]) -> Option<(String, u32, usize)> {
    let n = b.len() / 3 * 3;
    let (c, k, fs) = cdecode(b64e(&b[..n]).as_bytes())?;
    Some((c, k, fs / 4 * 3))
}

// ------------------------------------------------------------------ digests
pub static DIGESTS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
pub fn digest(code: &str, data: &[u8]) -> Vec<u8> {
    use blake2::Digest;
    match code {
        "E" => blake3::hash(data).as_bytes().to_vec(),
        "F" => {
            let mut h = blake2::Blake2b::<blake2::digest::consts::U32>::new();
            h.update(data);
            h.finalize().to_vec()
        }
        "G" => blake2::Blake2s256::digest(data).to_vec(),
        "H" => sha3::Sha3_256::digest(data).to_vec(),
        "I" => sha2::Sha256::digest(data).to_vec(),
        "0D" => {
            let mut o = vec![0u8; 64];
            let mut h = blake3::Hasher::new();
            h.update(data);
            h.finalize_xof().fill(&mut o);
            o
        }
        "0E" => blake2::Blake2b512::digest(data).to_vec(),
        "0F" => sha3::Sha3_512::digest(data).to_vec(),
        "0G" => sha2::Sha512::digest(data).to_vec(),
        _ => panic!("not a digest code"),
    }
}
pub fn qualify(code: &str, raw: &[u8]) -> String {
    construct(code, raw).unwrap().text
}
