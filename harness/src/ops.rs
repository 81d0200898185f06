//! Hostile operations over every public entry point, shared by C07 (crashes), C25 (purity), C29 (sanitizers).
use crate::fw::{fnv, guarded, Rng};
use crate::gen;
use crate::model::*;
use crate::p_cesr::{any_counter, any_isig, any_prim};
use crate::p_docs::{credential, event, inception, message_doc, sized_or_same};
use crate::p_types as pt;
use anyhow::Result;
use keride::cesr::common::{deversify, sizeify, sniff, versify, Version};
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use serde_json::{json, Value as J};
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(u64),
    Err(u64),
    /// a value that is random by design: only that there is one
    Opaque,
    Panic(String, String),
}
pub type Log<'a> = &'a mut dyn FnMut(&'static str, Out, &str);
/// Probes calls, renders what they give.
pub struct P<'a> {
    pub log: Log<'a>,
    pub desc: String,
}
pub fn utf8_or_die(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}
impl P<'_> {
    pub fn get<T: Debug>(&mut self, api: &'static str, f: impl FnOnce() -> Result<T>) -> Option<T> {
        self.put(api, guarded(f), false)
    }
    pub fn opaque<T: Debug>(&mut self, api: &'static str, f: impl FnOnce() -> Result<T>) -> Option<T> {
        self.put(api, guarded(f), true)
    }
    pub fn val<T: Debug>(&mut self, api: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        self.get(api, || Ok(f()))
    }
    fn put<T: Debug>(&mut self, api: &'static str, r: std::result::Result<Result<T>, (String, String)>, opaque: bool) -> Option<T> {
        match r {
            Ok(Ok(t)) => {
                let o = if opaque { Out::Opaque } else { Out::Ok(fnv(format!("{t:?}").as_bytes())) };
                (self.log)(api, o, &self.desc);
                Some(t)
            }
            Ok(Err(e)) => {
                // an error is part of the result, and its text must be text
                let t = e.to_string();
                let o = if utf8_or_die(&t) { Out::Err(fnv(t.as_bytes())) } else { Out::Panic("error text is not UTF-8".into(), "".into()) };
                (self.log)(api, o, &self.desc);
                None
            }
            Err((m, l)) => {
                (self.log)(api, Out::Panic(m, l), &self.desc);
                None
            }
        }
    }
    /// text handed out must be text
    pub fn text(&mut self, api: &'static str, f: impl FnOnce() -> Result<String>) -> Option<String> {
        let s = self.get(api, f)?;
        if !utf8_or_die(&s) {
            (self.log)(api, Out::Panic("a text that is not UTF-8 was handed out".into(), "".into()), &self.desc);
            return None;
        }
        Some(s)
    }
}

/// Argument generator: fresh arguments, and arguments from a small pool so that related calls meet.
pub struct G {
    pub r: Rng,
    pub pool: u64,
    /// small inputs only (interpreters are slow)
    pub small: bool,
}
static VCODES: &[&str] = &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA", "4B", "5B", "6B", "7AAB", "8AAB", "9AAB"];
impl G {
    fn pooled<T>(&mut self, kind: u64, n: usize, f: fn(&mut G) -> T) -> T {
        if self.r.chance(1, 2) {
            let k = self.r.below(n) as u64;
            let mut g = G { r: Rng::new(self.pool ^ (kind << 32) ^ k), pool: self.pool, small: self.small };
            f(&mut g)
        } else {
            f(self)
        }
    }
    pub fn code(&mut self) -> String {
        let r = &mut self.r;
        match r.below(12) {
            0 => r.pick(INDEXER).code.to_string(),
            1 => r.pick(COUNTER).code.to_string(),
            2 => r.pick(&["", "-", "_", "--", "-V", "é", "漢", "\0", "A\0", "0", "1", "1A", "1AA", "0é", "1AAé", "4é", "7AA", "AAAAAA", "é0", "😀", "=", " E", "E ", "Z", "0Z", "1ZZZ", "L", "K", "T", "#", "B64", "2__A"]).to_string(),
            3 => gen::b64(r, 4),
            4 => r.pick(VCODES).to_string(),
            5 | 6 => r.pick(DIGESTS).to_string(),
            _ => r.pick(MATTER).code.to_string(),
        }
    }
    pub fn raw(&mut self) -> Vec<u8> {
        let small = self.small;
        let r = &mut self.r;
        let n = match r.below(8) {
            0 => r.below(8),
            1 | 2 => 32,
            3 => 33,
            4 => 64,
            5 => 16,
            6 => *r.pick(&[0usize, 1, 2, 3, 4, 7, 8, 17, 24, 31, 36, 63, 65, 100]),
            _ => if small { r.below(80) } else { *r.pick(&[0usize, 12285, 12286, 12287, 12288, 12289, 12290, 500, 1000, 49152, 65536]) },
        };
        match r.below(5) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => r.bytes(n),
        }
    }
    pub fn u32(&mut self) -> u32 {
        let r = &mut self.r;
        match r.below(5) {
            0 => *r.pick(&[0u32, 1, 2, 63, 64, 65, 4095, 4096, 4097, 262143, 262144, u32::MAX, u32::MAX - 1, 1 << 24, (1 << 24) - 1, 1 << 30, 1 << 31, 16777216]),
            1 => (r.next() >> (32 + r.below(32))) as u32,
            2 => r.below(70) as u32,
            _ => r.below(5) as u32,
        }
    }
    pub fn text(&mut self) -> String {
        let mut t = self.pooled(1, 24, |g| g.text0());
        t.shrink_to_fit();
        t
    }
    fn text0(&mut self) -> String {
        let small = self.small;
        let base = match self.r.below(14) {
            12 => format!("20{:02}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}{}{:02}:{:02}", self.r.below(100), self.r.below(14), self.r.below(33), self.r.below(26), self.r.below(62), self.r.below(62), self.r.below(1_000_000), self.r.pick(&["+", "-"]), self.r.below(25), self.r.below(61)),
            13 => { let mut t = String::new(); let n = *self.r.pick(&[16usize, 32, 36, 44]); while t.len() < n { t.push(gen::any_char(&mut self.r)) } t }
            0 => { let (m, raw) = self.prim(); construct(m, &raw).map(|p| p.text).unwrap_or_default() }
            1 => { let (m, raw) = self.prim(); construct(m, &raw).map(|p| p.text).unwrap_or_default() }
            2 => any_isig(&mut self.r).text,
            3 => { let (c, n) = any_counter(&mut self.r); cencode(c.code, n as u64).unwrap_or_default() }
            4 => { let c = self.code(); let t = gen::b64(&mut self.r, 90); format!("{c}{t}") }
            5 => gen::text(&mut self.r),
            6 => { let n = self.r.below(60); (0..n).map(|_| gen::any_char(&mut self.r)).collect() }
            7 => { let n = if small { 40 } else { *self.r.pick(&[100usize, 5000, 70000]) }; let c = self.code(); format!("{c}{}", gen::b64n(&mut self.r, n)) }
            8 => self.r.pick(&["KERI10JSON000000_", "ACDC10JSON0000ff_", "KERI10JSONffffff_", "KERI99JSON000000_", "2020-08-22T17:50:09.988921+00:00", "-", "-a-b", "--", "-0-1", "-a-", "1/2,1/2", "[1]", "0", "ff", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "-1", "+1", "1.0.0", "1.2", "256.0.0", "....", "1/0", "0/0", "1/1&1/2", "&", ",", "[[\"1/2\"]]", "[]", "[[]]", "\"", "{", "null", "low", "high", "signify:aid", "__", "====", "A===", "_-_-"]).to_string(),
            9 => self.doc().to_string(),
            10 => { let k = self.r.below(12); (0..k).map(|_| format!("-{}", gen::key(&mut self.r))).collect() }
            _ => { let t = pt::any_u128(&mut self.r); format!("{t:x}") }
        };
        match self.r.below(6) {
            0 | 1 => gen::mutate_text(&mut self.r, &base),
            2 => { let n = base.chars().count(); let k = self.r.below(n + 1); base.chars().take(k).collect() }
            _ => base,
        }
    }
    /// valid material for a random code
    fn prim(&mut self) -> (&'static str, Vec<u8>) {
        let (m, raw) = any_prim(&mut self.r);
        if self.small && raw.len() > 200 { (m.code, raw[..60].to_vec()) } else { (m.code, raw) }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let mut b = self.pooled(2, 24, |g| g.bytes0());
        b.shrink_to_fit(); // what follows the input in memory is not the input's
        b
    }
    fn bytes0(&mut self) -> Vec<u8> {
        let base = match self.r.below(8) {
            0 | 1 => { let (m, raw) = self.prim(); construct(m, &raw).map(|p| p.bin()).unwrap_or_default() }
            2 => any_isig(&mut self.r).bin(),
            3 => { let (c, n) = any_counter(&mut self.r); b64d(cencode(c.code, n as u64).unwrap_or_default().as_bytes()).unwrap_or_default() }
            4 => self.text0().into_bytes(),
            5 => { let n = self.r.below(12); self.r.bytes(n) }
            6 => self.raw(),
            _ => { let b = self.r.byte(); let n = self.r.below(80); vec![b; n] }
        };
        match self.r.below(6) {
            0 | 1 => gen::mutate_bytes(&mut self.r, &base),
            2 => { let k = self.r.below(base.len() + 1); base[..k].to_vec() }
            _ => base,
        }
    }
    pub fn doc(&mut self) -> J {
        self.pooled(3, 24, |g| g.doc0())
    }
    fn doc0(&mut self) -> J {
        let depth = if self.small { 2 } else { 4 };
        let mut d = match self.r.below(10) {
            9 => credential(&mut self.r),
            0 => gen::value(&mut self.r, depth),
            1 => gen::document(&mut self.r),
            2 | 3 => event(&mut self.r).0,
            4 => { let c = *self.r.pick(&["D", "B", "E", "1AAB"]); inception(&mut self.r, c) }
            5 => message_doc(&mut self.r, "KERI", "E"),
            6 => message_doc(&mut self.r, "ACDC", "E"),
            7 => { let n = if self.small { 20 } else { *self.r.pick(&[20usize, 100, 127, 128, 129, 400]) }; let mut v = gen::scalar(&mut self.r); for i in 0..n { v = if i % 3 == 0 { json!({"d": v}) } else { json!([v]) } } if self.r.bool() { json!({"v": "KERI10JSON000000_", "d": "", "a": v}) } else { v } }
            _ => { let mut o = gen::document(&mut self.r); o["v"] = json!("KERI10JSON000000_"); o["d"] = json!(""); o }
        };
        if self.r.bool() { d = sized_or_same(&d); }
        for _ in 0..self.r.below(3) {
            let pl = gen::places(&d);
            let p = self.r.pick(&pl).clone();
            let v = self.odd_value();
            match (gen::at_mut(&mut d, &p), self.r.below(4)) {
                (J::Object(m), 0) => { let f = *self.r.pick(FIELDS); m.insert(f.into(), v); }
                (J::Object(m), 1) => { let k = m.keys().next().cloned(); if let Some(k) = k { m.shift_remove(&k); } }
                (J::Object(m), 2) => { let n = m.len(); if n > 1 { let i = self.r.below(n); let k = m.keys().nth(i).cloned().unwrap(); m.shift_remove(&k); } }
                (x, _) => *x = v,
            }
        }
        d
    }
    fn odd_value(&mut self) -> J {
        match self.r.below(9) {
            0 => J::Null,
            1 => gen::scalar(&mut self.r),
            2 => json!(self.r.pick(&["", "-1", "0", "KERI10JSON000000_", "KERI20JSON000000_", "ACDC10JSON0000ab_", "KERI10CBOR000000_", "é", "icp", "dip", "rot", "vcp", "iss"])),
            3 => { let (m, raw) = self.prim(); json!(construct(m, &raw).map(|p| p.text).unwrap_or_default()) }
            4 => json!([]),
            5 => json!({}),
            6 => json!([gen::scalar(&mut self.r)]),
            7 => { let k = self.r.range(0, 3); J::Array((0..k).map(|_| { let (m, raw) = self.prim(); json!(construct(m, &raw).map(|p| p.text).unwrap_or_default()) }).collect()) }
            _ => gen::value(&mut self.r, 2),
        }
    }
    pub fn value(&mut self) -> Value {
        gen::keride(&self.doc())
    }
    /// bytes of a message: framed, mis-framed, mutated
    pub fn message(&mut self) -> Vec<u8> {
        self.pooled(4, 24, |g| {
            let d = g.doc0();
            let mut t = if g.r.chance(3, 4) { sized_or_same(&d).to_string().into_bytes() } else { gen::spaced(&mut g.r, &d).into_bytes() };
            match g.r.below(6) {
                0 => t.extend(g.bytes0()),
                1 => t = gen::mutate_bytes(&mut g.r, &t),
                2 => { let k = g.r.below(t.len() + 1); t.truncate(k) }
                3 => { let k = g.r.below(14); let mut v = vec![*g.r.pick(b"{ \xff\"v:a"); k]; v.extend(t); t = v }
                _ => {}
            }
            t
        })
    }
    pub fn opt<T>(&mut self, num: usize, den: usize, f: impl FnOnce(&mut G) -> T) -> Option<T> {
        if self.r.chance(num, den) { Some(f(self)) } else { None }
    }
    pub fn seed_code(&mut self) -> String {
        if self.r.chance(5, 6) { self.r.pick(&["A", "J", "Q"]).to_string() } else { self.code() }
    }
    fn key_text(&mut self) -> String {
        let c = *self.r.pick(&["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]);
        let n = mc(c).unwrap().rs();
        let raw = if self.r.chance(2, 3) {
            let s = if n == 32 { "A" } else if c < "1AAI" { "J" } else { "Q" };
            let seed = self.pooled(5, 6, |g| g.r.bytes(32));
            guarded(|| crate::p_crypto::ref_pub(s, &seed)).unwrap_or(vec![2; n])
        } else { self.r.bytes(n) };
        qualify(c, &raw)
    }
    fn vers(&mut self) -> Version {
        let (a, b) = if self.r.bool() { (1, 0) } else { (self.r.byte(), self.r.byte()) };
        Version { major: a, minor: b }
    }
    fn kind(&mut self) -> Option<String> {
        match self.r.below(5) { 0 => Some("CBOR".into()), 1 => Some(gen::text(&mut self.r)), 2 => Some("JSON".into()), _ => None }
    }
    fn dig(&mut self) -> Option<String> {
        match self.r.below(4) { 0 => Some(self.code()), 1 => Some(self.r.pick(DIGESTS).to_string()), _ => None }
    }
}
static FIELDS: &[&str] = &["v", "t", "d", "i", "s", "p", "k", "kt", "n", "nt", "b", "bt", "a", "f", "e", "ri", "br", "ba", "c", "di", "0", ""];

/// the five ways to give material; usually one, sometimes several, sometimes none
type Mat = (Option<String>, Option<Vec<u8>>, Option<Vec<u8>>, Option<String>, Option<Vec<u8>>);
fn material(g: &mut G) -> Mat {
    match g.r.below(8) {
        0 => { let (c, raw) = g.prim(); (Some(c.to_string()), Some(raw), None, None, None) }
        1 => { let c = g.code(); let raw = g.raw(); (Some(c), Some(raw), None, None, None) }
        2 => { let t = g.text(); (None, None, Some(t.into_bytes()), None, None) }
        3 | 4 => { let t = g.text(); (g.opt(1, 4, |g| g.code()), None, None, Some(t), None) }
        5 => { let b = g.bytes(); (g.opt(1, 4, |g| g.code()), None, None, None, Some(b)) }
        6 => { let b = g.bytes(); (g.opt(1, 4, |g| g.code()), None, Some(b), None, None) }
        _ => (g.opt(1, 2, |g| g.code()), g.opt(1, 3, |g| g.raw()), g.opt(1, 4, |g| g.bytes()), g.opt(1, 4, |g| g.text()), g.opt(1, 4, |g| g.bytes())),
    }
}
/// material of a type's own codes, so that accessors are reached
fn own(g: &mut G, codes: &[&str]) -> Mat {
    if g.r.chance(1, 2) { return material(g); }
    let code = *g.r.pick(codes);
    let d = mc(code).unwrap();
    let n = if d.variable() { g.r.below(40) } else { d.rs() };
    let raw = if g.r.chance(1, 6) { vec![*g.r.pick(&[0u8, 0xff]); n] } else { g.r.bytes(n) };
    if d.variable() && g.r.bool() {
        let t = if g.r.bool() { gen::b64(&mut g.r, 40) } else { format!("-{}-{}", gen::ident(&mut g.r), gen::ident(&mut g.r)) };
        return (None, None, None, Some(pt::text_prim(&t).text), None);
    }
    let Some(p) = construct(code, &raw) else { return material(g) };
    match g.r.below(4) {
        0 => (Some(code.into()), Some(raw), None, None, None),
        1 => (None, None, Some(p.text.into_bytes()), None, None),
        2 => (None, None, None, Some(p.text), None),
        _ => (None, None, None, None, Some(p.bin())),
    }
}
fn matter_accessors<M: Matter>(p: &mut P, m: &M) {
    p.val("Matter.code", || m.code());
    p.val("Matter.size", || m.size());
    p.val("Matter.raw", || m.raw());
    p.text("Matter.qb64", || m.qb64());
    p.get("Matter.qb64b", || m.qb64b());
    p.get("Matter.qb2", || m.qb2());
    p.get("Matter.full_size", || m.full_size());
    p.val("Matter.digestive", || m.digestive());
    p.val("Matter.transferable", || m.transferable());
}
fn indexer_accessors<M: Indexer>(p: &mut P, m: &M) {
    p.val("Indexer.code", || m.code());
    p.val("Indexer.raw", || m.raw());
    p.val("Indexer.index", || m.index());
    p.val("Indexer.ondex", || m.ondex());
    p.text("Indexer.qb64", || m.qb64());
    p.get("Indexer.qb64b", || m.qb64b());
    p.get("Indexer.qb2", || m.qb2());
    p.get("Indexer.full_size", || m.full_size());
}
macro_rules! d {
    ($m:expr) => { ($m.0.as_deref(), $m.1.as_deref(), $m.2.as_deref(), $m.3.as_deref(), $m.4.as_deref()) };
}
fn say(p: &mut P, s: String) {
    p.desc = s;
}

fn op_matter(g: &mut G, p: &mut P) {
    let m = material(g);
    say(p, format!("{m:?}"));
    let (c, r, b, t, q) = d!(m);
    if let Some(x) = p.get("Matter::new", || <crate::lib_api::TM as Matter>::new(c, r, b, t, q)) { matter_accessors(p, &x); }
    if let Some(t) = t {
        p.get("Matter::new_with_qb64", || <crate::lib_api::TM as Matter>::new_with_qb64(t));
    }
    if let Some(b) = b.or(q) {
        p.get("Matter::new_with_qb64b", || <crate::lib_api::TM as Matter>::new_with_qb64b(b));
        p.get("Matter::new_with_qb2", || <crate::lib_api::TM as Matter>::new_with_qb2(b));
    }
    if let (Some(c), Some(r)) = (c, r) {
        p.get("Matter::new_with_code_and_raw", || <crate::lib_api::TM as Matter>::new_with_code_and_raw(c, r));
    }
}
fn op_typed(g: &mut G, p: &mut P) {
    let t = g.r.pick(crate::lib_api::TYPES);
    if t.name == "Signer" || t.name == "Salter" { return op_signer(g, p); }
    let m = own(g, t.codes);
    say(p, format!("{} {m:?}", t.name));
    let (c, r, b, x, q) = d!(m);
    if t.name == "Dater" && r.is_none() && b.is_none() && x.is_none() && q.is_none() { return; }
    p.get("typed::new", || (t.gen)(c, r, b, x, q));
    if let Some(x) = x { p.get("typed::new_with_qb64", || (t.qb64)(x)); }
    if let Some(b) = b.or(q) {
        p.get("typed::new_with_qb64b", || (t.qb64b)(b));
        p.get("typed::new_with_qb2", || (t.qb2)(b));
    }
    if let (Some(c), Some(r)) = (c, r) { p.get("typed::new_with_raw", || (t.raw)(c, r)); }
}
fn op_indexer(g: &mut G, p: &mut P) {
    let (ix, ox) = (g.opt(3, 4, |g| g.u32()), g.opt(1, 2, |g| g.u32()));
    let (c, r, b, t, q): Mat = match g.r.below(6) {
        0 | 1 => { let c = if g.r.chance(4, 5) { g.r.pick(INDEXER).code.to_string() } else { g.code() }; let raw = if g.r.chance(2, 3) { g.r.bytes(64) } else { g.raw() }; (Some(c), Some(raw), None, None, None) }
        2 => (None, None, None, Some(g.text()), None),
        3 => (None, None, Some(g.bytes()), None, None),
        4 => (None, None, None, None, Some(g.bytes())),
        _ => material(g),
    };
    say(p, format!("{ix:?} {ox:?} {c:?} {r:?} {b:?} {t:?} {q:?}"));
    let (c, r, b, t, q) = (c.as_deref(), r.as_deref(), b.as_deref(), t.as_deref(), q.as_deref());
    if let Some(x) = p.get("Indexer::new", || <crate::lib_api::TI as Indexer>::new(ix, ox, c, r, b, t, q)) { indexer_accessors(p, &x); }
    let kt = g.key_text();
    let v = if g.r.bool() { p.get("Verfer::new_with_qb64", || Verfer::new_with_qb64(&kt)) } else { None };
    if let Some(x) = p.get("Siger::new", || Siger::new(v.as_ref(), ix, ox, c, r, b, t, q)) {
        indexer_accessors(p, &x);
        p.val("Siger.verfer", || x.verfer());
        let ser = g.bytes();
        p.get("Verfer.verify", || x.verfer().verify(&x.raw(), &ser));
    }
    if let Some(t) = t { p.get("Siger::new_with_qb64", || Siger::new_with_qb64(t, None)); }
    if let Some(b) = b.or(q) {
        p.get("Siger::new_with_qb64b", || Siger::new_with_qb64b(b, None));
        p.get("Siger::new_with_qb2", || Siger::new_with_qb2(b, None));
    }
    if let Some(r) = r { p.get("Siger::new_with_raw", || Siger::new_with_raw(r, None, ix, ox, c)); }
}
fn op_counter(g: &mut G, p: &mut P) {
    let code = if g.r.chance(3, 4) { g.r.pick(COUNTER).code.to_string() } else { g.code() };
    let n = g.opt(3, 4, |g| g.u32());
    let cb = g.opt(1, 3, |g| if g.r.bool() { gen::b64(&mut g.r, 7) } else { g.text() });
    let (b, t, q) = (g.opt(1, 4, |g| g.bytes()), g.opt(1, 4, |g| g.text()), g.opt(1, 4, |g| g.bytes()));
    let co = g.opt(3, 4, |_| code.clone());
    say(p, format!("{co:?} {n:?} {cb:?} {b:?} {t:?} {q:?}"));
    if let Some(x) = p.get("Counter::new", || Counter::new(n, cb.as_deref(), co.as_deref(), b.as_deref(), t.as_deref(), q.as_deref())) {
        p.val("Counter.code", || x.code());
        p.val("Counter.count", || x.count());
        p.text("Counter.qb64", || x.qb64());
        p.get("Counter.qb64b", || x.qb64b());
        p.get("Counter.qb2", || x.qb2());
        p.get("Counter.full_size", || x.full_size());
        let l = g.r.below(12);
        p.text("Counter.count_as_b64", || x.count_as_b64(l));
    }
    if let Some(t) = &t { p.get("Counter::new_with_qb64", || Ok(Counter::new_with_qb64(t)?.qb64()?)); }
    if let Some(b) = b.or(q) {
        p.get("Counter::new_with_qb64b", || Ok(Counter::new_with_qb64b(&b)?.qb64()?));
        p.get("Counter::new_with_qb2", || Ok(Counter::new_with_qb2(&b)?.qb64()?));
    }
    if let Some(n) = n { p.get("Counter::new_with_code_and_count", || Ok(Counter::new_with_code_and_count(&code, n)?.qb64()?)); }
    let (a, bb, c) = (g.r.byte(), g.r.byte(), g.r.byte());
    p.text("Counter::sem_ver_to_b64", || Counter::sem_ver_to_b64(a, bb, c));
    let s = if g.r.bool() { format!("{}.{}.{}", g.r.below(300), g.r.below(70), g.text()) } else { g.text() };
    say(p, s.clone());
    p.text("Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s));
}
fn op_numbers(g: &mut G, p: &mut P) {
    let n = g.opt(1, 3, |g| pt::any_u128(&mut g.r));
    let h = g.opt(1, 3, |g| if g.r.bool() { pt::bad_hex(&mut g.r) } else { g.text() });
    let m = own(g, &["M", "0H", "N", "0A"]);
    say(p, format!("{n:?} {h:?} {m:?}"));
    let (c, r, b, t, q) = d!(m);
    if let Some(x) = p.get("Number::new", || Number::new(n, h.as_deref(), c, r, b, t, q)) {
        matter_accessors(p, &x);
        p.get("Number.num", || x.num());
        p.text("Number.numh", || x.numh());
        p.get("Number.positive", || x.positive());
    }
    if let Some(x) = p.get("Seqner::new", || Seqner::new(n, h.as_deref(), c, r, b, t, q)) {
        matter_accessors(p, &x);
        p.get("Seqner.sn", || x.sn());
        p.text("Seqner.snh", || x.snh());
    }
    if let Some(h) = &h {
        p.get("Number::new_with_numh", || Number::new_with_numh(h));
        p.get("Seqner::new_with_snh", || Seqner::new_with_snh(h));
    }
    if let Some(n) = n {
        p.get("Number::new_with_num", || Number::new_with_num(n));
        p.get("Seqner::new_with_sn", || Seqner::new_with_sn(n));
    }
}
fn op_texts(g: &mut G, p: &mut P) {
    let t0 = g.text();
    let m = own(g, &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"]);
    say(p, format!("{t0:?} {m:?}"));
    let (c, r, b, t, q) = d!(m);
    let given = if g.r.bool() { Some(t0.as_str()) } else { None };
    if let Some(x) = p.get("Bexter::new", || Bexter::new(given, c, r, b, t, q)) {
        matter_accessors(p, &x);
        p.text("Bexter.bext", || x.bext());
    }
    p.get("Bexter::new_with_bext", || Bexter::new_with_bext(&t0));
    let m = own(g, &["1AAG"]);
    let (c, r, b, t, q) = d!(m);
    let dts = if g.r.bool() { Some(t0.clone()) } else if r.is_none() && b.is_none() && t.is_none() && q.is_none() { Some(String::new()) } else { None };
    if let Some(x) = p.get("Dater::new", || Dater::new(dts.as_deref(), c, r, b, t, q)) {
        matter_accessors(p, &x);
        p.text("Dater.dts", || x.dts());
        p.get("Dater.dtsb", || x.dtsb());
    }
    p.get("Dater::new_with_dts", || Dater::new_with_dts(&t0, None));
    p.get("deversify", || { let x = deversify(&t0)?; Ok((x.ident, x.kind, x.version.major, x.version.minor, x.size)) });
    let (id, k, s) = (g.opt(1, 2, |g| g.text()), g.kind(), g.opt(1, 2, |g| g.u32()));
    let v = g.opt(1, 2, |g| g.vers());
    p.text("versify", || versify(id.as_deref(), v.as_ref(), k.as_deref(), s));
    let raw = if g.r.bool() { g.message() } else { g.bytes() };
    say(p, format!("{raw:?}"));
    p.get("sniff", || { let x = sniff(&raw)?; Ok((x.ident, x.kind, x.version.major, x.version.minor, x.size)) });
}
fn op_pather(g: &mut G, p: &mut P) {
    let pv = match g.r.below(4) {
        0 => g.doc(),
        1 => json!([g.text(), g.text()]),
        2 => { let k = g.r.below(5); J::Array((0..k).map(|_| gen::scalar(&mut g.r)).collect()) }
        _ => { let d = g.doc(); let pl = gen::places(&d); let q = g.r.pick(&pl); J::Array(q.iter().map(|s| match s { gen::Step::Pos(i) => json!(i.to_string()), gen::Step::Name(k) => json!(k) }).collect()) }
    };
    let v = gen::keride(&pv);
    let bext = g.text();
    let doc = g.value();
    let m = own(g, &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"]);
    let raw = g.message();
    say(p, format!("path {pv} bext {bext:?} doc {doc} {m:?}"));
    let (c, r, b, t, q) = d!(m);
    let (a1, a2) = (g.r.bool(), g.r.bool());
    let mut all = vec![];
    all.extend(p.get("Pather::new", || Pather::new(if a1 { Some(&v) } else { None }, if a2 { Some(&bext) } else { None }, c, r, b, t, q)));
    all.extend(p.get("Pather::new_with_path", || Pather::new_with_path(&v)));
    all.extend(p.get("Pather::new_with_bext", || Pather::new_with_bext(&bext)));
    let s = p.get("Serder::new_with_raw", || Serder::new_with_raw(&raw));
    for x in &all {
        matter_accessors(p, x);
        p.text("Pather.bext", || x.bext());
        p.get("Pather.path", || x.path());
        p.get("Pather.resolve", || x.resolve(&doc));
        if let Some(s) = &s { p.text("Pather.tail", || x.tail(s)); }
        for y in &all {
            p.get("Pather.root", || x.root(y));
            p.get("Pather.strip", || x.strip(y));
            p.get("Pather.starts_with", || x.starts_with(y));
        }
    }
}
fn op_tholder(g: &mut G, p: &mut P) {
    let sith = match g.r.below(5) {
        0 => { let t = pt::weighted(&mut g.r); t.spelled }
        1 => pt::malformed(&mut g.r).0,
        2 => g.doc(),
        3 => json!(g.text()),
        _ => gen::number(&mut g.r),
    };
    let v = gen::keride(&sith);
    let limen = if g.r.bool() { g.bytes() } else {
        // limens whose text is an odd threshold expression
        let t = match g.r.below(3) { 0 => pt::malformed(&mut g.r).0.to_string(), 1 => pt::weighted(&mut g.r).spelled.to_string(), _ => g.text() };
        let t: String = t.chars().map(|c| match c { '/' => 's', ',' => 'c', '&' => 'a', c => c }).filter(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').take(60).collect();
        let t = if t.is_empty() { "1s2c1s2a1".to_string() } else { t };
        Bexter::new_with_bext(&t).and_then(|b| b.qb64b()).unwrap_or_default()
    };
    let k = g.r.below(40);
    let ix: Vec<u32> = (0..k).map(|_| g.u32()).collect();
    say(p, format!("{sith} {limen:?} {ix:?}"));
    let (a, b, c) = (g.r.bool(), g.r.bool(), g.r.bool());
    let mut all = vec![];
    all.extend(p.get("Tholder::new", || Tholder::new(if a { Some(&v) } else { None }, if b { Some(&limen) } else { None }, if c { Some(&v) } else { None })));
    all.extend(p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&v)));
    all.extend(p.get("Tholder::new_with_thold", || Tholder::new_with_thold(&v)));
    all.extend(p.get("Tholder::new_with_limen", || Tholder::new_with_limen(&limen)));
    for t in &all {
        p.val("Tholder.thold", || t.thold());
        p.val("Tholder.weighted", || t.weighted());
        p.val("Tholder.size", || t.size());
        p.get("Tholder.num", || t.num());
        p.val("Tholder.number", || t.number());
        p.val("Tholder.bexter", || t.bexter());
        p.get("Tholder.limen", || t.limen());
        p.get("Tholder.sith", || t.sith());
        p.text("Tholder.to_json", || t.to_json());
        p.get("Tholder.satisfy", || t.satisfy(&ix));
        let all: Vec<u32> = (0..t.size().min(200)).collect();
        p.get("Tholder.satisfy", || t.satisfy(&all));
        if let Ok(l) = t.limen() { p.get("Tholder::new_with_limen", || Tholder::new_with_limen(&l)); }
    }
}
fn op_diger(g: &mut G, p: &mut P) {
    let m = own(g, DIGESTS);
    let (ser, ser2) = (g.bytes(), g.bytes());
    let dc = g.dig();
    say(p, format!("{m:?} {ser:?} {dc:?}"));
    let (c, r, b, t, q) = d!(m);
    let mut all = vec![];
    all.extend(p.get("Diger::new_with_ser", || Diger::new_with_ser(&ser, dc.as_deref())));
    let given = g.r.bool();
    all.extend(p.get("Diger::new", || Diger::new(if given { Some(&ser) } else { None }, c, r, b, t, q)));
    let dig = if g.r.bool() { all.first().and_then(|d| d.qb64b().ok()).unwrap_or_default() } else { g.bytes() };
    for x in &all {
        matter_accessors(p, x);
        p.get("Diger.verify", || x.verify(&ser));
        p.get("Diger.verify", || x.verify(&ser2));
        p.get("Diger.compare", || x.compare(&ser, Some(&dig), None));
        p.get("Diger.compare", || x.compare(&ser, None, None));
        for y in &all { p.get("Diger.compare", || x.compare(&ser, None, Some(y))); }
    }
}
fn op_verfer(g: &mut G, p: &mut P) {
    let kt = g.key_text();
    let m = if g.r.bool() { (None, None, None, Some(kt), None) } else { own(g, &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"]) };
    let sig = if g.r.bool() { g.r.bytes(64) } else { g.raw() };
    let ser = g.bytes();
    say(p, format!("{m:?} {sig:?} {ser:?}"));
    let (c, r, b, t, q) = d!(m);
    if let Some(v) = p.get("Verfer::new", || Verfer::new(c, r, b, t, q)) {
        matter_accessors(p, &v);
        p.get("Verfer.verify", || v.verify(&sig, &ser));
        p.get("Verfer.verify", || v.verify(&[0; 64], &ser));
        p.get("Verfer.verify", || v.verify(&[0xff; 64], &ser));
        p.get("Verfer.verify", || v.verify(&[], &ser));
        let m = own(g, &["0B", "0C", "0I"]);
        let (c, r, b, t, q) = d!(m);
        if let Some(x) = p.get("Cigar::new", || Cigar::new(Some(&v), c, r, b, t, q)) {
            matter_accessors(p, &x);
            p.val("Cigar.verfer", || x.verfer());
            p.get("Verfer.verify", || x.verfer().verify(&x.raw(), &ser));
        }
    }
}
fn op_signer(g: &mut G, p: &mut P) {
    let code = g.seed_code();
    let raw = g.pooled(6, 6, |g| match g.r.below(5) { 0 => g.raw(), 1 => vec![0; 32], 2 => vec![0xff; 32], _ => g.r.bytes(32) });
    let tr = g.opt(2, 3, |g| g.r.bool());
    let ser = g.bytes();
    let (only, ix, ox) = (g.r.bool(), g.u32(), g.opt(1, 2, |g| g.u32()));
    let m = if g.r.bool() { (Some(code.clone()), Some(raw.clone()), None, None, None) } else { own(g, &["A", "J", "Q"]) };
    say(p, format!("{m:?} {tr:?} {ser:?} {only} {ix} {ox:?}"));
    let (c, r, b, t, q) = d!(m);
    let fresh = r.is_none() && b.is_none() && t.is_none() && q.is_none();
    let s = if fresh { p.opaque("Signer::new", || Signer::new(tr, c, r, b, t, q)) } else { p.get("Signer::new", || Signer::new(tr, c, r, b, t, q)) };
    if let Some(s) = s {
        if fresh {
            p.opaque("Signer.sign_unindexed", || s.sign_unindexed(&ser));
        } else {
            matter_accessors(p, &s);
            let v = p.val("Signer.verfer", || s.verfer());
            // signatures over the two ECDSA curves may be randomized: only their verdicts count
            let cg = p.opaque("Signer.sign_unindexed", || s.sign_unindexed(&ser));
            let sg = p.opaque("Signer.sign_indexed", || s.sign_indexed(&ser, only, ix, ox));
            if let (Some(v), Some(cg)) = (&v, cg) {
                p.val("signature code", || cg.code());
                p.get("Verfer.verify", || v.verify(&cg.raw(), &ser));
            }
            if let (Some(v), Some(sg)) = (&v, sg) {
                p.val("signature code", || (sg.code(), sg.index(), sg.ondex()));
                p.get("Verfer.verify", || v.verify(&sg.raw(), &ser));
            }
        }
    }
    p.opaque("Signer::new_with_defaults", || Signer::new_with_defaults(tr, c));
}
fn op_salter(g: &mut G, p: &mut P) {
    let m = own(g, &["0A"]);
    let tier = g.opt(1, 2, |g| if g.r.bool() { g.r.pick(&["min", "low", "med", "high"]).to_string() } else { g.text() });
    let path = g.opt(2, 3, |g| g.text());
    let size = g.opt(1, 2, |g| *g.r.pick(&[0usize, 1, 3, 4, 5, 31, 32, 33, 64, 100, 1000]));
    let (count, start) = (g.opt(1, 2, |g| g.r.below(4)), g.opt(1, 2, |g| if g.r.bool() { g.u32() as usize } else { usize::MAX - g.r.below(4) }));
    let (code, tr) = (g.opt(2, 3, |g| g.seed_code()), g.opt(1, 2, |g| g.r.bool()));
    say(p, format!("{m:?} {tier:?} {path:?} {size:?} {count:?} {start:?} {code:?}"));
    let (c, r, b, t, q) = d!(m);
    let fresh = r.is_none() && b.is_none() && t.is_none() && q.is_none();
    if fresh {
        p.opaque("Salter::new", || Salter::new(tier.as_deref(), c, r, b, t, q));
        p.opaque("Salter::new_with_defaults", || Salter::new_with_defaults(tier.as_deref()));
        return;
    }
    let Some(s) = p.get("Salter::new", || Salter::new(tier.as_deref(), c, r, b, t, q)) else { return };
    matter_accessors(p, &s);
    p.val("Salter.tier", || s.tier());
    let (pa, ti) = (path.as_deref(), tier.as_deref());
    p.get("Salter.stretch", || s.stretch(size, pa, ti, Some(true)));
    p.get("Salter.signer", || s.signer(code.as_deref(), tr, pa, ti, Some(true)));
    p.get("Salter.signers", || s.signers(count, start, pa, code.as_deref(), tr, ti, Some(true)));
    // tiers that no stretching knows are refused before any work is done
    if let Some(t) = ti { if !["low", "med", "high"].contains(&t) { p.get("Salter.stretch", || s.stretch(size, pa, ti, None)); } }
}
fn op_creator(g: &mut G, p: &mut P) {
    let salt = g.opt(4, 5, |g| if g.r.chance(2, 3) { qualify("0A", &g.r.bytes(16)) } else { g.text() });
    let stem = g.opt(1, 2, |g| g.text());
    let tier = g.opt(1, 3, |g| if g.r.bool() { g.r.pick(&["low", "med", "high", "min"]).to_string() } else { g.text() });
    let k = g.r.below(4);
    let cs: Vec<&str> = (0..k).map(|_| *g.r.pick(&["A", "J", "Q"])).collect();
    let codes = if g.r.bool() { Some(cs) } else { None };
    let count = g.opt(1, 2, |g| g.r.below(3) as u16);
    let i16s = |g: &mut G| g.opt(1, 2, |g| *g.r.pick(&[0u16, 1, 9, 10, 15, 16, 255, 256, u16::MAX]));
    let (pi, ri, ki) = (i16s(g), i16s(g), i16s(g));
    let st2 = g.opt(1, 2, |g| g.text());
    let tr = g.opt(1, 2, |g| g.r.bool());
    say(p, format!("{salt:?} {stem:?} {tier:?} {codes:?} {count:?} {pi:?} {ri:?} {ki:?} {st2:?}"));
    let fresh = salt.is_none();
    let f = || SaltyCreator::new(salt.as_deref(), stem.as_deref(), tier.as_deref(), None);
    let c = if fresh { p.opaque("SaltyCreator::new", f) } else { p.get("SaltyCreator::new", f) };
    if let Some(c) = c {
        let f = || Ok(c.create(codes.clone(), count, None, pi, ri, ki, st2.as_deref(), tr, true));
        if fresh { p.opaque("SaltyCreator.create", f); } else { p.get("SaltyCreator.create", f); }
    }
    p.opaque("RandyCreator.create", || Ok(keride::signify::creating::monitor_randy(codes.clone(), count, Some("A"), tr)));
}
fn labels(g: &mut G, d: &J) -> Option<String> {
    match g.r.below(4) {
        0 => Some(g.r.pick(FIELDS).to_string()),
        1 => d.as_object().and_then(|m| m.keys().next().cloned()),
        2 => Some(gen::text(&mut g.r)),
        _ => None,
    }
}
fn op_saider(g: &mut G, p: &mut P) {
    let d = g.doc();
    let v = gen::keride(&d);
    let label = labels(g, &d);
    let (code, kind) = (g.dig(), g.kind());
    let ig: Option<Vec<String>> = g.opt(1, 3, |g| (0..g.r.below(3)).map(|_| g.r.pick(FIELDS).to_string()).collect());
    let igr: Option<Vec<&str>> = ig.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let (pre, ver) = (g.opt(1, 2, |g| g.r.bool()), g.opt(1, 2, |g| g.r.bool()));
    let m = own(g, DIGESTS);
    say(p, format!("{d} label {label:?} code {code:?} kind {kind:?} ignore {ig:?} {m:?}"));
    let (c, r, b, t, q) = d!(m);
    let (l, k, i) = (label.as_deref(), kind.as_deref(), igr.as_deref());
    let mut all = vec![];
    let with = g.r.bool();
    all.extend(p.get("Saider::new", || Saider::new(if with { Some(&v) } else { None }, l, k, i, c, r, b, t, q)));
    all.extend(p.get("Saider::new_with_sad", || Saider::new_with_sad(&v, l, k, i, code.as_deref())));
    let mut other = v.clone();
    if let Some((s, sad)) = p.get("Saider::saidify", || Saider::saidify(&v, code.as_deref(), k, l, i)) {
        all.push(s);
        other = sad;
    }
    for s in &all {
        matter_accessors(p, s);
        p.get("Saider.verify", || s.verify(&v, pre, ver, k, l, i));
        p.get("Saider.verify", || s.verify(&other, pre, ver, k, l, i));
    }
    p.get("sizeify", || { let x = sizeify(&v, k)?; Ok((x.raw, x.ident, x.kind, x.ked.to_json()?, x.version.major)) });
}
fn sadder_accessors<S: Sadder>(p: &mut P, s: &S, n: usize) {
    p.val("Sadder.code", || s.code());
    p.val("Sadder.raw", || s.raw());
    p.val("Sadder.ked", || s.ked());
    p.val("Sadder.ident", || s.ident());
    p.val("Sadder.kind", || s.kind());
    p.val("Sadder.size", || s.size());
    p.val("Sadder.version", || (s.version().major, s.version().minor));
    p.val("Sadder.saider", || s.saider());
    p.text("Sadder.said", || s.said());
    p.get("Sadder.saidb", || s.saidb());
    p.text("Sadder.pretty", || s.pretty(None));
    p.text("Sadder.pretty", || s.pretty(Some(n)));
}
fn op_serder(g: &mut G, p: &mut P) {
    let raw = g.message();
    let d = g.doc();
    let v = gen::keride(&d);
    let (code, kind) = (g.dig(), g.kind());
    let n = g.r.below(400);
    say(p, format!("{:?} {d} {code:?} {kind:?}", String::from_utf8_lossy(&raw)));
    let mut all = vec![];
    all.extend(p.get("Serder::new_with_raw", || Serder::new_with_raw(&raw)));
    all.extend(p.get("Serder::new_with_ked", || Serder::new_with_ked(&v, code.as_deref(), kind.as_deref())));
    let (a, b) = (g.r.bool(), g.r.bool());
    let first = all.first().cloned();
    all.extend(p.get("Serder::new", || Serder::new(code.as_deref(), if a { Some(&raw) } else { None }, kind.as_deref(), if b { Some(&v) } else { None }, first.as_ref())));
    for s in &all {
        sadder_accessors(p, s, n);
        p.get("Serder.verfers", || s.verfers());
        p.get("Serder.digers", || s.digers());
        p.get("Serder.werfers", || s.werfers());
        p.get("Serder.tholder", || s.tholder());
        p.get("Serder.ntholder", || s.ntholder());
        p.get("Serder.sner", || s.sner());
        p.get("Serder.sn", || s.sn());
        p.get("Serder.fner", || s.fner());
        p.get("Serder._fn", || s._fn());
        p.text("Serder.pre", || s.pre());
        p.get("Serder.preb", || s.preb());
        p.get("Serder.est", || s.est());
    }
    let mut all = vec![];
    all.extend(p.get("Creder::new_with_raw", || Creder::new_with_raw(&raw)));
    all.extend(p.get("Creder::new_with_ked", || Creder::new_with_ked(&v, code.as_deref(), kind.as_deref())));
    let first = all.first().cloned();
    all.extend(p.get("Creder::new", || Creder::new(code.as_deref(), if a { Some(&raw) } else { None }, kind.as_deref(), if b { Some(&v) } else { None }, first.as_ref())));
    for s in &all {
        sadder_accessors(p, s, n);
        p.val("Creder.crd", || s.crd());
        p.text("Creder.issuer", || s.issuer());
        p.text("Creder.schema", || s.schema());
        p.val("Creder.subject", || s.subject());
        p.get("Creder.status", || s.status());
        p.get("Creder.chains", || s.chains());
    }
    p.get("Sadder.populate_from_raw", || { let mut s = Serder::default(); s.populate_from_raw(&raw)?; Ok(s) });
    p.get("Sadder.populate_from_ked", || { let mut s = Creder::default(); s.populate_from_ked(&v, kind.as_deref())?; Ok(s) });
}
fn op_prefixer(g: &mut G, p: &mut P) {
    let d = match g.r.below(4) {
        0 => g.doc(),
        _ => {
            let c = *g.r.pick(&["D", "B", "1AAA", "1AAB", "1AAI", "1AAJ"]);
            let mut d = inception(&mut g.r, c);
            for _ in 0..g.r.below(3) { let f = *g.r.pick(FIELDS); if g.r.chance(1, 3) { d.as_object_mut().unwrap().shift_remove(f); } else { d[f] = g.odd_value(); } }
            d
        }
    };
    let v = gen::keride(&d);
    let v2 = g.value();
    let code = g.opt(3, 4, |g| if g.r.bool() { g.code() } else { g.r.pick(&["D", "B", "E", "1AAA", "1AAB", "0D", "1AAI", "1AAJ"]).to_string() });
    let al: Option<Vec<String>> = g.opt(1, 4, |g| (0..g.r.below(4)).map(|_| g.code()).collect());
    let alr: Option<Vec<&str>> = al.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let m = own(g, DIGESTS);
    say(p, format!("{d} {code:?} {al:?} {m:?}"));
    let mut all = vec![];
    all.extend(p.get("Prefixer::new_with_ked", || Prefixer::new_with_ked(&v, alr.as_deref(), code.as_deref())));
    let (c, r, b, t, q) = d!(m);
    let with = g.r.bool();
    all.extend(p.get("Prefixer::new", || Prefixer::new(if with { Some(&v) } else { None }, alr.as_deref(), c, r, b, t, q)));
    let key = d["k"][0].as_str().unwrap_or("").to_string();
    all.extend(p.get("Prefixer::new_with_qb64", || Prefixer::new_with_qb64(&key)));
    for x in &all {
        matter_accessors(p, x);
        for pre in [None, Some(true), Some(false)] {
            p.get("Prefixer.verify", || x.verify(&v, pre));
            p.get("Prefixer.verify", || x.verify(&v2, pre));
        }
    }
}
fn op_value(g: &mut G, p: &mut P) {
    let d = g.doc();
    say(p, d.to_string());
    let Some(v) = p.val("Value::from", || gen::keride(&d)) else { return };
    p.text("Value.to_json", || v.to_json());
    p.val("Value Display", || format!("{v}"));
    p.get("Value.to_bool", || v.to_bool());
    p.get("Value.to_string", || v.to_string());
    p.get("Value.to_i64", || v.to_i64());
    p.get("Value.to_f64", || v.to_f64());
    p.get("Value.to_vec", || v.to_vec());
    p.get("Value.to_map", || v.to_map());
    p.get("Value try bool", || bool::try_from(&v));
    p.get("Value try String", || String::try_from(&v));
    p.get("Value try i64", || i64::try_from(&v));
    p.get("Value try f64", || f64::try_from(&v));
    p.get("Value try Vec", || Vec::<Value>::try_from(&v));
    p.get("Value try IndexMap", || indexmap::IndexMap::<String, Value>::try_from(&v));
    let k = gen::key(&mut g.r);
    let i = if g.r.chance(1, 4) { usize::MAX - g.r.below(2) } else { g.r.below(6) };
    p.val("Value[usize]", || v[i].clone());
    p.val("Value[&str]", || v[k.as_str()].clone());
    p.val("Value[&str][usize]", || v[k.as_str()][i][k.as_str()].clone());
    if d.is_object() {
        p.val("Value[&str] =", || { let mut w = v.clone(); w[k.as_str()] = Value::Null; w });
    }
    p.val("Value ==", || (v == v.clone(), v == Value::Null));
    // floats no JSON document can hold
    let f = f64::from_bits(g.r.next());
    p.text("Value.to_json", || Value::from(f).to_json());
    p.text("Value.to_json", || Value::from(*[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].get(i % 3).unwrap()).to_json());
    p.get("Value try i64", || i64::try_from(&Value::from(f)));
}
fn op_messages(g: &mut G, p: &mut P) {
    let (pre, said) = (g.text(), g.text());
    let sn = pt::any_u128(&mut g.r);
    let v = g.opt(1, 2, |g| g.vers());
    let k = g.kind();
    let ok = qualify("E", &g.r.bytes(32));
    let sa = if g.r.bool() { said } else { ok };
    say(p, format!("{pre:?} {sn} {sa:?} {k:?}"));
    let Some(s) = p.get("receipt", || keride::receipting::monitor_receipt(&pre, sn, &sa, v.as_ref(), k.as_deref())) else { return };
    let n = g.r.below(3);
    let sg: Vec<Siger> = (0..n).filter_map(|_| Siger::new_with_qb64(&any_isig(&mut g.r).text, None).ok()).collect();
    let (i, sq, d) = (g.text(), g.text(), g.text());
    let (a, b, c) = (g.r.bool(), g.r.bool(), g.r.bool());
    say(p, format!("{i:?} {sq:?} {d:?} {} {a} {b} {c}", sg.len()));
    p.text("messagize", || keride::messaging::monitor_messagize(&s, if a { Some(&sg) } else { None }, if b { Some((&i, &sq, &d, c)) } else { None }, if c { Some(&sg) } else { None }, None));
}
fn op_util(g: &mut G, p: &mut P) {
    // every element of a stream, one after another, the way a reader would
    let mut t = String::new();
    for _ in 0..g.r.range(1, 6) {
        match g.r.below(4) {
            0 => { let (c, n) = any_counter(&mut g.r); t += &cencode(c.code, n as u64).unwrap_or_default() }
            1 => t += &any_isig(&mut g.r).text,
            _ => { let (m, raw) = g.prim(); t += &construct(m, &raw).map(|x| x.text).unwrap_or_default() }
        }
    }
    if g.r.bool() { t = gen::mutate_text(&mut g.r, &t); }
    say(p, t.clone());
    let mut at = 0;
    for _ in 0..40 {
        let Some(rest) = t.get(at..) else { break };
        if rest.is_empty() { break; }
        let step = if rest.starts_with('-') {
            p.get("Counter::new_with_qb64", || Counter::new_with_qb64(rest)?.full_size())
        } else {
            let m = p.get("Matter::new_with_qb64", || <crate::lib_api::TM as Matter>::new_with_qb64(rest)?.full_size());
            let s = p.get("Siger::new_with_qb64", || Siger::new_with_qb64(rest, None)?.full_size());
            m.or(s)
        };
        match step { Some(n) if n > 0 => at += n, Some(_) => { (p.log)("stream", Out::Panic("an element of no length".into(), "".into()), &p.desc); break } None => at += 4 }
    }
}

pub type Op = (&'static str, fn(&mut G, &mut P), u32);
/// name, operation, weight
pub static OPS: &[Op] = &[
    ("matter", op_matter, 6), ("typed", op_typed, 6), ("indexer", op_indexer, 6), ("counter", op_counter, 4),
    ("numbers", op_numbers, 4), ("texts", op_texts, 5), ("pather", op_pather, 4), ("tholder", op_tholder, 6),
    ("diger", op_diger, 4), ("verfer", op_verfer, 4), ("signer", op_signer, 3), ("salter", op_salter, 3),
    ("creator", op_creator, 1), ("saider", op_saider, 5), ("serder", op_serder, 6), ("prefixer", op_prefixer, 5),
    ("value", op_value, 4), ("messages", op_messages, 2), ("stream", op_util, 4),
];
pub fn pick_op(r: &mut Rng) -> &'static Op {
    let total: u32 = OPS.iter().map(|o| o.2).sum();
    let mut k = r.below(total as usize) as u32;
    for o in OPS {
        if k < o.2 { return o; }
        k -= o.2;
    }
    unreachable!()
}
/// one case of the common workload: everything depends only on (seed, pool, index)
pub fn run_case(seed: u64, pool: u64, i: u64, small: bool, log: Log) -> &'static str {
    let mut g = G { r: Rng::new(seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)), pool, small };
    let o = pick_op(&mut g.r);
    let mut p = P { log, desc: String::new() };
    (o.1)(&mut g, &mut p);
    o.0
}
