//! Generators shared by the monitors: JSON documents, texts, mutations.
use crate::fw::Rng;
use serde_json::{json, Map, Number, Value as J};

static ODD: &[&str] = &[
    "", " ", "a", "A", "0", "00", "-", "\"", "\\", "\\\"", "/", "\u{0}", "\u{1f}", "\u{7f}", "\n", "\r\n\t", "\u{8}\u{c}",
    "é", "ß", "漢字", "😀", "\u{200b}", "\u{2028}\u{2029}", "\u{fffd}", "\u{10ffff}", "e\u{301}", "null", "true", "[1]", "{\"a\":1}",
    "KERI10JSON000000_", "\\u0041", "&<>'", "0.1", "1e5", "#########", "the quick brown fox",
];
/// a length or count of notable size: on and around the powers of two where widths and counters turn over
pub fn size(r: &mut Rng) -> usize {
    *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 191, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025])
}
/// a text of notable length
pub fn long_text(r: &mut Rng) -> String {
    let n = if r.chance(1, 30) { *r.pick(&[4095usize, 4096, 4097, 8192, 16383, 16384, 16385, 65535, 65536, 65537]) } else { size(r) };
    let unit = match r.below(4) { 0 => "é".to_string(), 1 => "\"".to_string(), 2 => any_char(r).to_string(), _ => "a".to_string() };
    let mut s = unit.repeat(n);
    if r.bool() { s.push_str(&ident(r)); }
    s
}
/// a value that is long, wide or deep
pub fn sprawl(r: &mut Rng) -> J {
    match r.below(6) {
        0 => json!(long_text(r)),
        1 => { let n = size(r); J::Array((0..n).map(|i| if r.chance(1, 6) { scalar(r) } else { json!(i) }).collect()) }
        2 => { let n = size(r); let mut m = Map::new(); for i in 0..n { m.insert(format!("k{i}"), if r.chance(1, 6) { scalar(r) } else { json!(i) }); } J::Object(m) }
        3 => { let n = r.range(20, 60); let mut v = scalar(r); for i in 0..n { v = if r.bool() { json!([v]) } else { let mut m = Map::new(); m.insert(format!("n{i}"), v); J::Object(m) }; } v }
        4 => { let n = r.range(20, 70); J::Array((0..n).map(|_| value(r, 1)).collect()) }
        _ => { let mut m = Map::new(); m.insert(long_text(r), scalar(r)); m.insert(key(r), json!(long_text(r))); J::Object(m) }
    }
}
pub fn text(r: &mut Rng) -> String {
    if r.chance(1, 80) { return long_text(r); }
    match r.below(6) {
        0 => r.pick(ODD).to_string(),
        1 => format!("{}{}", r.pick(ODD), r.pick(ODD)),
        2 => ident(r),
        3 => b64(r, 60),
        4 => {
            let n = r.below(12);
            (0..n).map(|_| any_char(r)).collect()
        }
        _ => {
            let n = r.range(1, 20);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
    }
}
/// Characters that look like, or are classed with, the ones a grammar allows, and every ASCII character.
pub fn strangers() -> Vec<char> {
    let mut v: Vec<char> = (0u8..=127).map(|b| b as char).collect();
    v.extend("\u{80}\u{85}\u{a0}\u{ad}²³¹¼½éßÿ\u{131}\u{17f}\u{212a}٣۵००๓０９ａＡｆＦ．／－＿＋：⁄∕−–—•\u{200b}\u{200d}\u{2028}\u{202e}\u{3000}\u{feff}\u{fffd}漢①Ⅷ𝟘𝟿😀\u{10ffff}".chars());
    v
}
/// the text with one stranger put in or put instead, at each place
pub fn injections(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out = vec![];
    for x in strangers() {
        for i in 0..=cs.len() {
            let (a, z): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            out.push(format!("{a}{x}{z}"));
            if i < cs.len() && cs[i] != x {
                let z: String = cs[i + 1..].iter().collect();
                out.push(format!("{a}{x}{z}"));
            }
        }
    }
    out
}
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let x = match r.below(5) {
            0 => r.below(0x20),
            1 => r.below(0x80),
            2 => r.below(0x800),
            3 => r.below(0x10000),
            _ => r.below(0x110000),
        };
        if let Some(c) = char::from_u32(x as u32) {
            return c;
        }
    }
}
pub fn ident(r: &mut Rng) -> String {
    let n = r.range(1, 8);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
/// base64url text of length 0..=max
pub fn b64(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    b64n(r, n)
}
pub fn b64n(r: &mut Rng, n: usize) -> String {
    let flat = r.chance(1, 8);
    let k = r.below(64);
    (0..n).map(|_| crate::model::B64[if flat { k } else { r.below(64) }] as char).collect()
}
pub fn number(r: &mut Rng) -> J {
    match r.below(9) {
        0 => json!(r.below(300) as i64 - 50),
        1 => json!(r.next()),
        2 => json!(r.next() as i64),
        3 => json!(*r.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, 1 << 53, (1 << 53) + 1, i32::MAX as i64, i32::MIN as i64, 1 << 31, 1 << 32, 999999999999999999])),
        4 => json!(*r.pick(&[u64::MAX, i64::MAX as u64 + 1, 1 << 63, u64::MAX - 1, 10000000000000000000])),
        5 => float(f64::from_bits(r.next())),
        6 => float(*r.pick(&[0.0, -0.0, 1.0, 0.1, 1e21, 1e-7, 1.5e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, 100.0, 1e15, 1e16, 1e17, 123456789.125])),
        7 => float((r.next() as i64) as f64 / 1000.0),
        _ => float(r.below(100000) as f64 / 100.0),
    }
}
fn float(f: f64) -> J {
    Number::from_f64(f).map(J::Number).unwrap_or(json!(0.5))
}
pub fn scalar(r: &mut Rng) -> J {
    match r.below(7) {
        0 => J::Null,
        1 => json!(r.bool()),
        2 | 3 => number(r),
        _ => json!(text(r)),
    }
}
/// any JSON value with nesting up to `depth`
pub fn value(r: &mut Rng, depth: usize) -> J {
    if depth == 0 || r.chance(1, 3) {
        return scalar(r);
    }
    if depth > 1 && r.chance(1, 150) {
        return sprawl(r);
    }
    if r.bool() {
        let n = width(r);
        J::Array((0..n).map(|_| value(r, depth - 1)).collect())
    } else {
        object(r, depth)
    }
}
fn width(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1 => r.range(5, 14),
        _ => r.range(1, 4),
    }
}
pub fn object(r: &mut Rng, depth: usize) -> J {
    let n = width(r);
    let mut m = Map::new();
    for _ in 0..n {
        let k = key(r);
        m.insert(k, value(r, depth.saturating_sub(1)));
    }
    J::Object(m)
}
pub fn key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => text(r),
        1 => r.pick(&["v", "d", "i", "t", "s", "a", "k", "n", "0", "1", "10", "id", "$id"]).to_string(),
        2 => r.below(12).to_string(),
        _ => ident(r),
    }
}
/// a document of at least one entry with plain names
pub fn document(r: &mut Rng) -> J {
    let depth = r.range(1, 4);
    let mut o = object(r, depth);
    if o.as_object().unwrap().is_empty() {
        o["x"] = scalar(r);
    }
    if r.chance(1, 25) {
        let (k, v) = (key(r), sprawl(r));
        o[k.as_str()] = v;
    }
    o
}
/// the JSON text with random insignificant whitespace and escapes
pub fn spaced(r: &mut Rng, v: &J) -> String {
    let ws = |r: &mut Rng| -> String { (0..r.below(3)).map(|_| *[' ', '\n', '\t', '\r'].get(r.below(4)).unwrap()).collect() };
    match v {
        J::Array(a) => {
            let parts: Vec<String> = a.iter().map(|x| { let (p, q) = (ws(r), ws(r)); format!("{p}{}{q}", spaced(r, x)) }).collect();
            format!("[{}{}]", parts.join(","), if parts.is_empty() { ws(r) } else { String::new() })
        }
        J::Object(o) => {
            let parts: Vec<String> = o.iter().map(|(k, x)| { let (p, q, s) = (ws(r), ws(r), ws(r)); format!("{p}{}{q}:{s}{}", quote(r, k), spaced(r, x)) }).collect();
            format!("{{{}}}", parts.join(","))
        }
        J::String(s) => quote(r, s),
        x => x.to_string(),
    }
}
fn quote(r: &mut Rng, s: &str) -> String {
    let mut out = String::from("\"");
    for ch in s.chars() {
        if ch == '"' || ch == '\\' || (ch as u32) < 0x20 || r.chance(1, 12) {
            let mut b = [0u16; 2];
            for u in ch.encode_utf16(&mut b) {
                if r.bool() { out += &format!("\\u{u:04x}") } else { out += &format!("\\u{u:04X}") }
            }
        } else {
            out.push(ch);
        }
    }
    out.push('"');
    out
}
pub fn keride(v: &J) -> keride::data::Value {
    keride::data::Value::from(v)
}
/// every string edit: replace, delete, insert, swap, truncate, duplicate
pub fn mutate_text(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        match r.below(7) {
            0 if n > 0 => { let i = r.below(n); c[i] = any_char(r); }
            1 if n > 0 => { let i = r.below(n); c.remove(i); }
            2 => { let i = r.below(n + 1); c.insert(i, any_char(r)); }
            3 if n > 1 => { let i = r.below(n - 1); c.swap(i, i + 1); }
            4 if n > 0 => { let i = r.below(n); c.truncate(i); }
            5 if n > 0 => { let i = r.below(n); c[i] = crate::model::B64[r.below(64)] as char; }
            _ => { let i = r.below(n + 1); let t: Vec<char> = c[i..].to_vec(); c.extend(t); }
        }
    }
    c.into_iter().collect()
}
pub fn mutate_bytes(r: &mut Rng, s: &[u8]) -> Vec<u8> {
    let mut c = s.to_vec();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        match r.below(6) {
            0 if n > 0 => { let i = r.below(n); c[i] ^= 1 << r.below(8); }
            1 if n > 0 => { let i = r.below(n); c.remove(i); }
            2 => { let i = r.below(n + 1); let b = r.byte(); c.insert(i, b); }
            3 if n > 1 => { let i = r.below(n - 1); c.swap(i, i + 1); }
            4 if n > 0 => { let i = r.below(n); c.truncate(i); }
            _ if n > 0 => { let i = r.below(n); c[i] = r.byte(); }
            _ => c.push(r.byte()),
        }
    }
    c
}
/// all places in a document: paths as lists of steps
pub fn places(v: &J) -> Vec<Vec<Step>> {
    fn go(v: &J, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        out.push(at.clone());
        match v {
            J::Array(a) => for (i, x) in a.iter().enumerate() { at.push(Step::Pos(i)); go(x, at, out); at.pop(); },
            J::Object(o) => for (k, x) in o.iter() { at.push(Step::Name(k.clone())); go(x, at, out); at.pop(); },
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
/// make two texts of a document the same, or all of them that were
pub fn coincide(r: &mut Rng, d: &mut J, keep: &[&str]) {
    let pl: Vec<Vec<Step>> = places(d).into_iter().filter(|p| !p.is_empty() && !matches!(&p[0], Step::Name(n) if keep.contains(&n.as_str()))).collect();
    let texts: Vec<(Vec<Step>, String)> = pl.into_iter().filter_map(|p| at_mut(d, &p).as_str().map(|t| t.to_string()).map(|t| (p, t))).collect();
    if texts.len() < 2 { return }
    for _ in 0..r.range(1, 3) {
        let from = r.pick(&texts).1.clone();
        let (to, _) = r.pick(&texts);
        *at_mut(d, to) = json!(from);
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Pos(usize),
    Name(String),
}
pub fn at<'a>(v: &'a J, p: &[Step]) -> &'a J {
    p.iter().fold(v, |v, s| match s { Step::Pos(i) => &v[*i], Step::Name(k) => &v[k.as_str()] })
}
pub fn at_mut<'a>(v: &'a mut J, p: &[Step]) -> &'a mut J {
    p.iter().fold(v, |v, s| match s { Step::Pos(i) => &mut v[*i], Step::Name(k) => &mut v[k.as_str()] })
}
