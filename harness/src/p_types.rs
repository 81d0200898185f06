//! C15..C21: thresholds, numbers, timestamps, texts, paths, structured values.
use crate::fw::*;
use crate::gen;
use crate::lib_api::*;
use crate::model::*;
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use serde_json::{json, Value as J};
use std::convert::TryFrom;

// ---------------------------------------------------------------- exact arithmetic
/// little-endian base 2^32
#[derive(Clone, PartialEq, Debug)]
struct Big(Vec<u32>);
impl Big {
    fn from(n: u32) -> Big { Big(vec![n]).trim() }
    fn trim(mut self) -> Big { while self.0.last() == Some(&0) { self.0.pop(); } self }
    fn mul(&self, k: u32) -> Big {
        let mut c = 0u64;
        let mut v: Vec<u32> = self.0.iter().map(|x| { let y = *x as u64 * k as u64 + c; c = y >> 32; y as u32 }).collect();
        if c > 0 { v.push(c as u32) }
        Big(v).trim()
    }
    fn add(&self, o: &Big) -> Big {
        let mut v = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let y = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c;
            v.push(y as u32);
            c = y >> 32;
        }
        if c > 0 { v.push(c as u32) }
        Big(v).trim()
    }
    fn ge(&self, o: &Big) -> bool {
        if self.0.len() != o.0.len() { return self.0.len() > o.0.len(); }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] { return self.0[i] > o.0[i]; }
        }
        true
    }
}
pub type Weight = (u32, u32);
/// is the exact sum of the chosen weights at least one?
fn at_least_one(ws: &[Weight], chosen: impl Fn(usize) -> bool) -> bool {
    // over the least common denominator where that fits, exactly in big numbers otherwise
    let lcd = ws.iter().try_fold(1u128, |l, w| (l / gcd(l, w.1 as u128)).checked_mul(w.1 as u128)).filter(|l| l.checked_mul(ws.len() as u128 + 1).map(|x| x < 1 << 100).unwrap_or(false));
    if let Some(l) = lcd {
        if ws.iter().all(|w| (w.0 as u64) <= w.1 as u64) {
            return ws.iter().enumerate().filter(|(i, _)| chosen(*i)).map(|(_, w)| w.0 as u128 * (l / w.1 as u128)).sum::<u128>() >= l;
        }
    }
    let mut sum = Big::from(0);
    for (i, w) in ws.iter().enumerate() {
        if !chosen(i) { continue; }
        let mut t = Big::from(w.0);
        for (j, x) in ws.iter().enumerate() { if j != i { t = t.mul(x.1) } }
        sum = sum.add(&t);
    }
    let mut den = Big::from(1);
    for x in ws { den = den.mul(x.1) }
    sum.ge(&den)
}
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
/// can the weights of the clause be brought to a common denominator and summed in 128 bits?
pub fn fits(ws: &[Weight]) -> bool {
    let mut l = 1u128;
    for w in ws {
        let d = w.1 as u128 / gcd(w.0 as u128, w.1 as u128);
        match (l / gcd(l, d)).checked_mul(d) { Some(x) => l = x, None => return false }
    }
    // every share is at most the denominator
    l.checked_mul(ws.len() as u128 + 1).is_some()
}
fn lowest(w: Weight) -> String {
    let g = gcd(w.0 as u128, w.1 as u128) as u32;
    if w.1 / g == 1 { (w.0 / g).to_string() } else { format!("{}/{}", w.0 / g, w.1 / g) }
}
fn weight(r: &mut Rng) -> Weight {
    match r.below(9) {
        0 => (0, r.range(1, 9) as u32),
        1 => { let d = r.range(1, 9) as u32; (d, d) }
        2 => (1, r.range(1, 12) as u32),
        3 => { let d = r.range(1, 100) as u32; (r.range(0, d as usize) as u32, d) }
        4 => { let d = *r.pick(&[2147483647u32, 2147483646, 65536, 65537, 1 << 30, 1000003, 999983, 720720]); (r.range(0, d as usize) as u32, d) }
        5 => { let d = r.range(1, 2147483647) as u32; (r.range(0, d as usize) as u32, d) }
        _ => { let d = r.range(2, 6) as u32; (r.range(1, d as usize) as u32, d) }
    }
}
/// a clause whose weights add up to at least one, often exactly one or barely above
fn clause(r: &mut Rng) -> Vec<Weight> {
    if r.chance(1, 120) {
        // many small weights of one denominator
        let n = if r.chance(1, 8) { *r.pick(&[1500usize, 2047, 2048, 3000]) } else { gen::size(r) } as u32;
        let mut v: Vec<Weight> = (0..n).map(|_| (1, n)).collect();
        for _ in 0..r.below(4) { v.push((r.below(2) as u32, 1)); }
        r.shuffle(&mut v);
        return v;
    }
    let mut v: Vec<Weight> = match r.below(5) {
        0 => { let n = r.range(1, 12) as u32; (0..n).map(|_| (1, n)).collect() }
        1 => {
            let d = r.range(2, 2000) as u32;
            let a = r.range(0, d as usize) as u32;
            vec![(a, d), (d - a, d)]
        }
        2 => {
            // sums that floating point gets wrong: tenths, thirds, sevenths mixed
            let d = *r.pick(&[3u32, 7, 10, 11, 13, 30, 97, 1000]);
            let mut left = d;
            let mut v = vec![];
            while left > 0 { let a = r.range(1, left as usize) as u32; v.push((a, d)); left -= a; }
            v
        }
        3 => vec![(1, 1)],
        _ => { let n = r.range(1, 6); (0..n).map(|_| weight(r)).collect() }
    };
    for _ in 0..r.below(4) {
        let w = weight(r);
        v.push(w);
    }
    r.shuffle(&mut v);
    for _ in 0..20 {
        if at_least_one(&v, |_| true) { break; }
        let w = weight(r);
        v.push(w);
    }
    if !at_least_one(&v, |_| true) { v.push((1, 1)) }
    v
}
/// unreduced notation of the weight
fn spell(r: &mut Rng, w: Weight) -> String {
    if w.1 == 1 && r.bool() { return w.0.to_string(); }
    if w.0 == w.1 && r.chance(1, 3) { return "1".into(); }
    if w.0 == 0 && r.chance(1, 3) { return "0".into(); }
    let k = if r.chance(1, 4) { r.range(1, 3) as u32 } else { 1 };
    if (w.1 as u64 * k as u64) < (1 << 31) { format!("{}/{}", w.0 * k, w.1 * k) } else { format!("{}/{}", w.0, w.1) }
}
pub struct Thr {
    pub clauses: Vec<Vec<Weight>>,
    pub spelled: J,
}
pub fn weighted(r: &mut Rng) -> Thr {
    let many = r.chance(1, 150);
    let n = match r.below(6) { _ if many => gen::size(r).min(300), 0 | 1 | 2 => 1, 3 | 4 => 2, _ => r.range(3, 6) };
    let clauses: Vec<Vec<Weight>> = (0..n).map(|_| if many { vec![*r.pick(&[(1, 1), (1, 1), (0, 1), (1, 2)]), (1, 1)] } else { clause(r) }).collect();
    let lists: Vec<J> = clauses.iter().map(|c| J::Array(c.iter().map(|w| json!(spell(r, *w))).collect())).collect();
    let spelled = if n == 1 && r.bool() { lists[0].clone() } else { J::Array(lists) };
    Thr { clauses, spelled }
}
fn nested(cl: &[Vec<Weight>]) -> J {
    J::Array(cl.iter().map(|c| J::Array(c.iter().map(|w| json!(lowest(*w))).collect())).collect())
}
fn plain_sith(cl: &[Vec<Weight>]) -> J {
    let n = nested(cl);
    if cl.len() == 1 { n[0].clone() } else { n }
}
fn bext_of(cl: &[Vec<Weight>]) -> String {
    cl.iter().map(|c| c.iter().map(|w| lowest(*w).replace('/', "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a")
}
pub fn text_prim(text: &str) -> Prim {
    let ts = text.len() % 4;
    let b = b64d(format!("{}{}", "A".repeat((4 - ts) % 4), text).as_bytes()).unwrap();
    construct("4A", &b[(3 - ts) % 3..]).unwrap()
}
pub fn number_prim(n: u128) -> Prim {
    let (code, len) = if n < 1 << 16 { ("M", 2) } else if n < 1 << 32 { ("0H", 4) } else if n < 1 << 64 { ("N", 8) } else { ("0A", 16) };
    construct(code, &n.to_be_bytes()[16 - len..]).unwrap()
}
fn indices(r: &mut Rng, size: usize) -> Vec<u32> {
    let mut v: Vec<u32> = match r.below(5) {
        0 => vec![],
        1 => (0..size as u32).collect(),
        2 => (0..size as u32).filter(|_| r.bool()).collect(),
        3 => { let k = r.below(size + 1); (0..size as u32).skip(k).collect() }
        _ => (0..size as u32).filter(|_| r.chance(4, 5)).collect(),
    };
    if r.bool() {
        for _ in 0..r.below(4) {
            if !v.is_empty() { let x = *r.pick(&v); v.push(x) }
        }
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let x = match r.below(4) { 0 => size as u32, 1 => size as u32 + r.below(5) as u32, 2 => u32::MAX, _ => r.next() as u32 | 0x8000_0000 };
            v.push(x);
        }
    }
    if r.chance(2, 3) { r.shuffle(&mut v) }
    v
}
fn model_satisfied(cl: &[Vec<Weight>], ix: &[u32]) -> bool {
    let mut base = 0usize;
    for c in cl {
        if !at_least_one(c, |i| ix.iter().any(|x| *x as usize == base + i)) { return false; }
        base += c.len();
    }
    true
}
fn distinct(ix: &[u32]) -> usize {
    let mut v = ix.to_vec();
    v.sort_unstable();
    v.dedup();
    v.len()
}

pub fn c15(run: &Run) {
    run.require(&["threshold-made", "numeric-satisfied", "numeric-unsatisfied", "weighted-satisfied", "weighted-unsatisfied", "monotone", "order-and-repetition"]);
    run.section("numeric", 6000, |c| {
        let t = match c.rng.below(6) { 0 => 0u32, 1 => 1, 2 => c.rng.range(0, 30) as u32, 3 => *c.rng.pick(&[65535u32, 65536, 1 << 31, u32::MAX, 255, 256, (1 << 31) - 1]), _ => c.rng.range(0, 9) as u32 };
        let size = if t > 100 { c.rng.below(20) } else { c.rng.range(0, t as usize + 4) };
        let ix = indices(&mut c.rng, size);
        c.input(format!("{t} {ix:?}"));
        let how = c.rng.below(4);
        let o = c.call("Tholder", || match how {
            0 => Tholder::new_with_sith(&Value::from(t)),
            1 => Tholder::new_with_sith(&Value::from(&format!("{t:x}"))),
            2 => Tholder::new_with_thold(&Value::from(t)),
            _ => Tholder::new_with_limen(number_prim(t as u128).text.as_bytes()),
        });
        let Some(th) = c.must("threshold-made", "numeric", o) else { return };
        let want = t > 0 && distinct(&ix) >= t as usize;
        let o = c.call("Tholder.satisfy", || th.satisfy(&ix));
        c.must_eq(if want { "numeric-satisfied" } else { "numeric-unsatisfied" }, "", o, &want);
        c.seen("threshold and distinct indices", &format!("{} {}", t.min(50), distinct(&ix)));
    });
    run.section("exact boundary", 2000, |c| {
        // every numeric threshold up to 60 with exactly one fewer and exactly enough signers
        let t = (c.idx % 60) as u32 + 1;
        let mut ix: Vec<u32> = (0..t).map(|_| c.rng.below(100000) as u32).collect();
        ix.sort_unstable();
        ix.dedup();
        while (ix.len() as u32) < t { let m = ix.iter().max().unwrap() + 1 + c.rng.below(3) as u32; ix.push(m) }
        c.rng.shuffle(&mut ix);
        c.input(format!("{t} {ix:?}"));
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(t)));
        let Some(th) = c.must("threshold-made", "numeric", o) else { return };
        let o = c.call("Tholder.satisfy", || th.satisfy(&ix));
        c.must_eq("numeric-satisfied", "exactly enough", o, &true);
        let gone = ix.pop().unwrap();
        let mut fewer = ix.clone();
        if let Some(x) = ix.first() { fewer.extend(vec![*x; c.rng.below(4)]) }
        let _ = gone;
        let o = c.call("Tholder.satisfy", || th.satisfy(&fewer));
        c.must_eq("numeric-unsatisfied", "one missing", o, &false);
    });
    // every threshold up to 300 and some larger, with exactly enough, one fewer and one more signer
    let ts: Vec<u32> = (1..300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    run.enumerate("every numeric threshold", ts.len() as u64 * 2, |c| {
        let t = ts[c.idx as usize / 2];
        let base = if c.idx % 2 == 0 { 0 } else { *c.rng.pick(&[1u32, 255, 65530, u32::MAX - 70000]) };
        let mut ix: Vec<u32> = (0..t + 1).map(|i| base + i).collect();
        c.rng.shuffle(&mut ix);
        c.input(format!("{t} of {} indices from {base}", ix.len()));
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&format!("{t:x}"))));
        let Some(th) = c.must("threshold-made", "numeric", o) else { return };
        for (k, want) in [(t + 1, true), (t, true), (t - 1, false)] {
            let mut v = ix[..k as usize].to_vec();
            let o = c.call("Tholder.satisfy", || th.satisfy(&v));
            c.must_eq(if want { "numeric-satisfied" } else { "numeric-unsatisfied" }, "every", o, &want);
            if let Some(x) = v.first().copied() { v.push(x); v.push(x); }
            let o = c.call("Tholder.satisfy", || th.satisfy(&v));
            c.must_eq(if want { "numeric-satisfied" } else { "numeric-unsatisfied" }, "every, repeated", o, &want);
        }
    });
    // n equal shares, all needed
    run.enumerate("every number of equal shares", 400, |c| {
        let n = c.idx as u32 + 1;
        let cl: Vec<Vec<Weight>> = if c.rng.bool() { vec![vec![(1, n); n as usize]] } else { vec![vec![(1, 1)], vec![(1, n); n as usize]] };
        let off = if cl.len() == 2 { 1 } else { 0 };
        c.input(format!("{n} shares in clause {}", cl.len()));
        let o = c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&nested(&cl))));
        if !cl.iter().all(|x| fits(x)) && o.is_err() { return }
        let Some(th) = c.must("threshold-made", "weighted", o) else { return };
        let mut ix: Vec<u32> = (0..n + off).collect();
        c.rng.shuffle(&mut ix);
        let o = c.call("Tholder.satisfy", || th.satisfy(&ix));
        c.must_eq("weighted-satisfied", "all shares", o, &true);
        for _ in 0..3 {
            let mut v = ix.clone();
            v.remove(c.rng.below(ix.len()));
            let want = model_satisfied(&cl, &v);
            let o = c.call("Tholder.satisfy", || th.satisfy(&v));
            c.must_eq(if want { "weighted-satisfied" } else { "weighted-unsatisfied" }, "a share missing", o, &want);
        }
    });
    // every clause of up to four small weights with every set of signers
    const SMALL: [Weight; 8] = [(0, 1), (1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 6)];
    run.enumerate("every small clause", 8 + 64 + 512 + 4096, |c| {
        let (n, mut i) = match c.idx { 0..=7 => (1, c.idx), 8..=71 => (2, c.idx - 8), 72..=583 => (3, c.idx - 72), _ => (4, c.idx - 584) };
        let cl: Vec<Weight> = (0..n).map(|_| { let w = SMALL[(i % 8) as usize]; i /= 8; w }).collect();
        c.input(format!("{cl:?}"));
        let two = c.rng.bool();
        let cls = if two { vec![cl.clone(), vec![(1, 2), (1, 2)]] } else { vec![cl.clone()] };
        let o = c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&nested(&cls))));
        if !at_least_one(&cl, |_| true) { c.refuse("insufficient", "small", &o); return }
        let Some(th) = c.must("threshold-made", "weighted", o) else { return };
        let size = cls.iter().map(|x| x.len()).sum::<usize>();
        for m in 0..1u32 << size {
            let v: Vec<u32> = (0..size as u32).filter(|b| m >> b & 1 == 1).collect();
            let want = model_satisfied(&cls, &v);
            let o = c.call("Tholder.satisfy", || th.satisfy(&v));
            c.must_eq(if want { "weighted-satisfied" } else { "weighted-unsatisfied" }, "small", o, &want);
        }
    });
    run.section("weighted", 9000, |c| {
        let t = weighted(&mut c.rng);
        let size: usize = t.clauses.iter().map(|x| x.len()).sum();
        let ix = indices(&mut c.rng, size);
        c.input(format!("{} {ix:?}", t.spelled));
        let how = c.rng.below(4);
        let o = c.call("Tholder", || match how {
            0 | 3 => Tholder::new_with_sith(&gen::keride(&t.spelled)),
            1 => Tholder::new_with_thold(&gen::keride(&nested(&t.clauses))),
            _ => Tholder::new_with_limen(text_prim(&bext_of(&t.clauses)).text.as_bytes()),
        });
        if !t.clauses.iter().all(|x| fits(x)) && o.is_err() { return }
        let Some(th) = c.must("threshold-made", "weighted", o) else { return };
        judge_weighted(c, &th, &t.clauses, &ix);
    });
    run.section("weighted subsets", 500, |c| {
        // all subsets of a short threshold
        let mut t = weighted(&mut c.rng);
        for _ in 0..50 {
            if t.clauses.iter().map(|x| x.len()).sum::<usize>() <= 9 { break; }
            t = weighted(&mut c.rng);
        }
        let size: usize = t.clauses.iter().map(|x| x.len()).sum();
        if size > 9 || !t.clauses.iter().all(|x| fits(x)) { return }
        c.input(t.spelled.to_string());
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&t.spelled)));
        let Some(th) = c.must("threshold-made", "weighted", o) else { return };
        for m in 0..1u32 << size {
            let mut ix: Vec<u32> = (0..size as u32).filter(|i| m >> i & 1 == 1).collect();
            let want = model_satisfied(&t.clauses, &ix);
            if c.rng.bool() { c.rng.shuffle(&mut ix) }
            let o = c.call("Tholder.satisfy", || th.satisfy(&ix));
            c.must_eq(if want { "weighted-satisfied" } else { "weighted-unsatisfied" }, "subset", o, &want);
        }
    });
}
fn judge_weighted(c: &mut Case, th: &Tholder, cl: &[Vec<Weight>], ix: &[u32]) {
    let size: usize = cl.iter().map(|x| x.len()).sum();
    let want = model_satisfied(cl, ix);
    let o = c.call("Tholder.satisfy", || th.satisfy(ix));
    c.must_eq(if want { "weighted-satisfied" } else { "weighted-unsatisfied" }, "", o, &want);
    c.seen("clauses, size, verdict", &format!("{} {size} {want}", cl.len()));
    let mut v = ix.to_vec();
    c.rng.shuffle(&mut v);
    if let Some(x) = v.first().cloned() { v.push(x); v.insert(0, x); }
    let o = c.call("Tholder.satisfy", || th.satisfy(&v));
    c.must_eq("order-and-repetition", "", o, &want);
    // one more valid index
    let x = c.rng.below(size) as u32;
    v.push(x);
    let o = c.call("Tholder.satisfy", || th.satisfy(&v));
    if want { c.must_eq("monotone", "", o, &true); } else { let w = model_satisfied(cl, &v); c.must_eq("order-and-repetition", "added", o, &w); }
    // invalid indices only
    let junk: Vec<u32> = (0..c.rng.range(1, 5)).map(|i| size as u32 + i as u32 * 7).collect();
    let o = c.call("Tholder.satisfy", || th.satisfy(&junk));
    c.must_eq("weighted-unsatisfied", "beyond the list", o, &false);
}

#[derive(Debug, PartialEq, Clone)]
pub struct ThView {
    thold: String,
    weighted: bool,
    size: u32,
    num: Option<u32>,
    number: Option<String>,
    bexter: Option<String>,
    limen: String,
    sith: String,
    json: String,
}
pub fn thview(t: &Tholder) -> anyhow::Result<ThView> {
    Ok(ThView {
        thold: t.thold().to_json()?, weighted: t.weighted(), size: t.size(), num: t.num()?,
        number: match t.number() { Some(n) => Some(n.qb64()?), None => None },
        bexter: match t.bexter() { Some(b) => Some(b.qb64()?), None => None },
        limen: String::from_utf8(t.limen()?)?, sith: t.sith()?.to_json()?, json: t.to_json()?,
    })
}
pub fn want_numeric(n: u32) -> ThView {
    let p = number_prim(n as u128).text;
    ThView { thold: n.to_string(), weighted: false, size: n, num: Some(n), number: Some(p.clone()), bexter: None, limen: p, sith: format!("\"{n:x}\""), json: format!("\"{n:x}\"") }
}
pub fn want_weighted(cl: &[Vec<Weight>]) -> ThView {
    let p = text_prim(&bext_of(cl)).text;
    let s = plain_sith(cl).to_string();
    ThView { thold: nested(cl).to_string(), weighted: true, size: cl.iter().map(|x| x.len() as u32).sum(), num: None, number: None, bexter: Some(p.clone()), limen: p, sith: s.clone(), json: s }
}
fn judge_notation(c: &mut Case, key: &'static str, o: Obs<Tholder>, want: &ThView, first: &mut Option<Tholder>) {
    let Some(t) = c.must("notation-accepted", key, o) else { return };
    let o = c.call("Tholder accessors", || thview(&t));
    c.must_eq("notation", key, o, want);
    if let Some(f) = first {
        let same = *f == t;
        c.check("equal-thresholds", key, same, || format!("{f:?} differs from {t:?}"));
    } else {
        *first = Some(t);
    }
}
pub fn c16(run: &Run) {
    run.require(&["notation-accepted", "notation", "equal-thresholds", "malformed-refused", "malformed-limen-refused", "insufficient-refused"]);
    let numeric = |c: &mut Case, n: u32| {
        c.input(n.to_string());
        let w = want_numeric(n);
        let mut first = None;
        let h = format!("{n:x}");
        let hu = format!("{n:X}");
        let hz = format!("{}{n:x}", "0".repeat(c.rng.below(4)));
        let limen = number_prim(n as u128).text;
        let jt = json!(h).to_string();
        let js: J = serde_json::from_str(&jt).unwrap();
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(n)));
        judge_notation(c, "integer", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&h)));
        judge_notation(c, "hex", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&hu)));
        judge_notation(c, "upper hex", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&hz)));
        judge_notation(c, "padded hex", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_thold(&Value::from(n)));
        judge_notation(c, "thold", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_limen(limen.as_bytes()));
        judge_notation(c, "limen", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&js)));
        judge_notation(c, "json", o, &w, &mut first);
        // wider number codes denote the same threshold
        let (code, len) = *c.rng.pick(&[("0H", 4usize), ("N", 8), ("0A", 16)]);
        let wide = construct(code, &(n as u128).to_be_bytes()[16 - len..]).unwrap().text;
        let o = c.call("Tholder", || Tholder::new_with_limen(wide.as_bytes()));
        judge_notation(c, "wide limen", o, &w, &mut first);
        // back from what the library itself reports
        if let Some(f) = first.clone() {
            rebuild(c, &f, &w, &mut first);
        }
    };
    run.section("numeric notations", 3000, |c| {
        let n = match c.rng.below(4) { 0 => c.rng.below(20) as u32, 1 => *c.rng.pick(&[0u32, 1, 9, 10, 15, 16, 17, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1]), 2 => c.rng.below(70000) as u32, _ => c.rng.next() as u32 };
        numeric(c, n);
    });
    run.enumerate("every numeric threshold", 5000, |c| { let n = c.idx as u32; numeric(c, n) });
    run.enumerate("notable numeric thresholds", 32 * 5, |c| { let b = 1u64 << (c.idx / 5); let n = (b + c.idx % 5).saturating_sub(2); if n <= u32::MAX as u64 { numeric(c, n as u32) } });
    run.enumerate("every small fraction", 64 * 64, |c| {
        let (a, b) = (c.idx as u32 % 64, c.idx as u32 / 64 + 1);
        let cl: Vec<Vec<Weight>> = if c.rng.bool() { vec![vec![(a, b), (1, 1)]] } else { vec![vec![(1, 1)], vec![(1, 2), (1, 1), (a, b)]] };
        let sith = J::Array(cl.iter().map(|x| J::Array(x.iter().map(|w| json!(format!("{}/{}", w.0, w.1))).collect())).collect());
        let sith = if cl.len() == 1 { sith[0].clone() } else { sith };
        c.input(sith.to_string());
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&sith)));
        if a > b { c.refuse("malformed-refused", "above one", &o); return }
        let w = want_weighted(&cl);
        let mut first = None;
        judge_notation(c, "fraction", o, &w, &mut first);
        if let Some(f) = first.clone() { rebuild(c, &f, &w, &mut first); }
    });
    run.enumerate("large fractions", 31 * 31 * 9, |c| {
        // numerators and denominators on and around the powers of two, up to what 32 signed bits hold
        let (i, j, k) = (c.idx % 31, c.idx / 31 % 31, c.idx / 961);
        let (a, b) = (((1u64 << i) + k % 3).saturating_sub(1), ((1u64 << j) + k / 3).saturating_sub(1));
        if b == 0 || b > i32::MAX as u64 || a > i32::MAX as u64 { return }
        let sith = json!([format!("{a}/{b}"), "1"]);
        c.input(sith.to_string());
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&sith)));
        if a > b { c.refuse("malformed-refused", "above one", &o); return }
        let w = want_weighted(&[vec![(a as u32, b as u32), (1, 1)]]);
        let mut first = None;
        judge_notation(c, "fraction", o, &w, &mut first);
        if let Some(f) = first.clone() { rebuild(c, &f, &w, &mut first); }
    });
    run.enumerate("fractions beyond any machine word", 40, |c| {
        // more than one only when read exactly; wrapping or clamping would hide it
        let k = c.idx as usize;
        for (a, b) in [(format!("1{}", "0".repeat(10 + k)), "3".to_string()), ("18446744073709551617".into(), "2".into()), ("4294967297".into(), "2".into()), ("4294967298".into(), "3".into()), ("340282366920938463463374607431768211457".into(), "2".into()), (format!("{}", (1u128 << 32) + k as u128 + 7), "6".into())] {
            for w in [json!([format!("{a}/{b}"), "1"]), json!([["1"], [format!("{a}/{b}"), "1"]]), json!([format!("-{a}/{b}"), "1"]), json!([a, "1"])] {
                c.input(w.to_string());
                let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&w)));
                c.refuse("malformed-refused", "beyond any word", &o);
            }
        }
    });
    // one foreign character put into each notation
    run.enumerate("strangers in hexadecimal thresholds", 4, |c| {
        for t in gen::injections(["2", "1f", "00ff", "fffffff0"][c.idx as usize]) {
            // a list as JSON text is another notation; a leading plus changes nothing
            if t.starts_with('[') || t.starts_with('+') { continue }
            c.input(format!("{t:?}"));
            let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&t)));
            match u128::from_str_radix(&t, 16) { Ok(n) if n <= u32::MAX as u128 && t.bytes().all(|b| b.is_ascii_hexdigit()) => { let o2 = o; let mut first = None; judge_notation(c, "hex", o2, &want_numeric(n as u32), &mut first); } _ => { c.refuse("malformed-refused", "stranger in hex", &o); } }
        }
    });
    run.enumerate("strangers in weights", 6, |c| {
        for t in gen::injections(["1/2", "0", "1", "3/4", "10/30", "0/7"][c.idx as usize]) {
            // signs that change nothing are left open
            if t.contains('+') || t.starts_with("-0") { continue }
            c.input(format!("{t:?}"));
            let p: Vec<&str> = t.split('/').collect();
            let dig = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
            let w: Option<Weight> = if p.len() == 2 && dig(p[0]) && dig(p[1]) { let (a, b) = (p[0].parse::<u32>().unwrap(), p[1].parse::<u32>().unwrap()); if b > 0 && a <= b { Some((a, b)) } else { None } } else if t == "0" { Some((0, 1)) } else if t == "1" { Some((1, 1)) } else { None };
            for k in 0..3 {
                let o = match k {
                    0 => c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&json!([t, "1"])))),
                    1 => c.call("Tholder", || Tholder::new_with_sith(&Value::from(&json!([["1/1"], ["1", t]]).to_string()))),
                    _ => c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&json!([["1", t]])))),
                };
                match w {
                    None => { c.refuse("malformed-refused", "stranger in a weight", &o); }
                    Some(w) => { let cl = match k { 0 => vec![vec![w, (1, 1)]], 1 => vec![vec![(1, 1)], vec![(1, 1), w]], _ => vec![vec![(1, 1), w]] }; let mut first = None; judge_notation(c, "weight", o, &want_weighted(&cl), &mut first) }
                }
            }
        }
    });
    run.enumerate("strangers in encoded thresholds", 4, |c| {
        let base = match c.idx { 0 => number_prim(2).text, 1 => text_prim("1s2c1s2").text, 2 => text_prim("1s2c1s2c1s4a1c0").text, _ => number_prim(70000).text };
        for t in gen::injections(&base) {
            let at = t.char_indices().find(|(_, x)| !(x.is_ascii_alphanumeric() || *x == '-' || *x == '_')).map(|x| x.0);
            // only what lies within the primitive counts
            if !matches!(at, Some(i) if i < base.len()) { continue }
            c.input(format!("{t:?}"));
            let o = c.call("Tholder", || Tholder::new_with_limen(t.as_bytes()));
            c.refuse("malformed-limen-refused", "stranger", &o);
        }
    });
    run.section("weighted notations", 6000, |c| {
        let t = weighted(&mut c.rng);
        c.input(t.spelled.to_string());
        let w = want_weighted(&t.clauses);
        let ok = t.clauses.iter().all(|x| fits(x));
        let mut first = None;
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&t.spelled)));
        if !ok && o.is_err() { return }
        judge_notation(c, "sith list", o, &w, &mut first);
        let text = gen::spaced(&mut c.rng, &t.spelled);
        let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&text)));
        judge_notation(c, "json text", o, &w, &mut first);
        let o = c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&nested(&t.clauses))));
        judge_notation(c, "thold", o, &w, &mut first);
        let l = text_prim(&bext_of(&t.clauses)).text;
        let o = c.call("Tholder", || Tholder::new_with_limen(l.as_bytes()));
        judge_notation(c, "limen", o, &w, &mut first);
        let raw = t.clauses.iter().map(|x| x.iter().map(|w| if w.1 == 1 { w.0.to_string() } else { format!("{}s{}", w.0, w.1) }).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a");
        let l = text_prim(&raw).text;
        let o = c.call("Tholder", || Tholder::new_with_limen(l.as_bytes()));
        judge_notation(c, "unreduced limen", o, &w, &mut first);
        if let Some(f) = first.clone() {
            rebuild(c, &f, &w, &mut first);
        }
        c.seen("clauses and size", &format!("{} {}", t.clauses.len(), w.size));
    });
    run.section("malformed", 12000, |c| {
        let (v, key) = malformed(&mut c.rng);
        c.input(v.to_string());
        let o = c.call("Tholder", || Tholder::new_with_sith(&gen::keride(&v)));
        c.refuse(if key == "insufficient" { "insufficient-refused" } else { "malformed-refused" }, key, &o);
        if let J::Array(a) = &v {
            // the same as JSON text, and as a nested list
            let s = v.to_string();
            let o = c.call("Tholder", || Tholder::new_with_sith(&Value::from(&s)));
            c.refuse("malformed-refused", "as json text", &o);
            let n = if a.iter().all(|x| x.is_array()) { v.clone() } else { json!([v]) };
            let o = c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&n)));
            c.refuse("malformed-refused", "as thold", &o);
        } else if v.is_number() {
            let o = c.call("Tholder", || Tholder::new_with_thold(&gen::keride(&v)));
            c.refuse("malformed-refused", "as thold", &o);
        }
    });
    run.section("malformed limen", 6000, |c| {
        let l: String = match c.rng.below(6) {
            0 => {
                // a text that is no threshold
                let t = loop {
                    let t = match c.rng.below(3) {
                        0 => gen::b64(&mut c.rng, 12),
                        1 => c.rng.pick(&["1s2", "1s2c1s3", "2", "3s2", "1s0", "0", "1a0", "1aa1", "a1", "1a", "1c", "c1", "1s2s2c1", "s", "1s", "s2", "-1s2c1", "1s-2c1", "1_2"]).to_string(),
                        _ => { let w = weighted(&mut c.rng); let b = bext_of(&w.clauses); let i = c.rng.below(b.len()); b.chars().enumerate().map(|(j, ch)| if i == j { *c.rng.pick(&['x', 'B', '-', '_']) } else { ch }).collect() }
                    };
                    if !maybe_threshold(&t) { break t; }
                };
                text_prim(&t).text
            }
            1 => {
                // some other primitive
                let d = loop { let d = c.rng.pick(MATTER); if !["M", "0H", "N", "0A", "4A", "5A", "6A", "7AAA", "8AAA", "9AAA"].contains(&d.code) { break d; } };
                let n = if d.variable() { c.rng.range(0, 40) } else { d.rs() };
                let raw = c.rng.bytes(n);
                match construct(d.code, &raw) { Some(p) => p.text, None => "zz".into() }
            }
            2 => {
                // numbers that are no threshold
                let n = (1u128 << 32) + c.rng.u128() % *c.rng.pick(&[1u128, 1 << 10, 1 << 33, 1 << 64, 1 << 100]);
                number_prim(n).text
            }
            3 => {
                let w = weighted(&mut c.rng);
                let t = text_prim(&bext_of(&w.clauses)).text;
                t[..c.rng.below(t.len())].to_string()
            }
            4 => { let n = c.rng.below(70000) as u128; let t = number_prim(n).text; t[..c.rng.below(t.len())].to_string() }
            _ => c.rng.pick(&["M", "0", "-", "_", "é", "4", "5A", "4AAA", "\u{0}", "=", "MAA=", "zAAA", "1AAG"]).to_string(),
        };
        c.input(l.clone());
        let o = c.call("Tholder", || Tholder::new_with_limen(l.as_bytes()));
        c.refuse("malformed-limen-refused", "", &o);
    });
}
/// could this text be read as weights by some lenient reader? (such texts are not judged)
fn maybe_threshold(t: &str) -> bool {
    let cl: Vec<Vec<&str>> = t.split('a').map(|x| x.split('c').collect()).collect();
    let mut all = vec![];
    for x in cl {
        let mut v: Vec<Weight> = vec![];
        for w in x {
            let p: Vec<&str> = w.split('s').collect();
            let q: Option<Weight> = match p.as_slice() {
                ["0"] => Some((0, 1)),
                ["1"] => Some((1, 1)),
                [a, b] => match (a.parse::<i64>(), b.parse::<i64>()) { (Ok(a), Ok(b)) if a >= 0 && a <= b && b <= u32::MAX as i64 && b > 0 => Some((a as u32, b as u32)), _ => None },
                _ => None,
            };
            match q { Some(q) => v.push(q), None => return false }
        }
        all.push(v);
    }
    all.iter().all(|x| at_least_one(x, |_| true))
}
fn rebuild(c: &mut Case, f: &Tholder, w: &ThView, first: &mut Option<Tholder>) {
    let o = c.call("Tholder", || Tholder::new_with_sith(&f.sith()?));
    judge_notation(c, "own sith", o, w, first);
    let o = c.call("Tholder", || Tholder::new_with_limen(&f.limen()?));
    judge_notation(c, "own limen", o, w, first);
    let o = c.call("Tholder", || Tholder::new_with_thold(&f.thold()));
    judge_notation(c, "own thold", o, w, first);
    let o = c.call("Tholder", || {
        let j: J = serde_json::from_str(&f.to_json()?)?;
        Tholder::new_with_sith(&Value::from(&j))
    });
    judge_notation(c, "own json", o, w, first);
}
pub fn malformed(r: &mut Rng) -> (J, &'static str) {
    fn bad_weight(r: &mut Rng) -> (J, &'static str) {
        match r.below(12) {
            0 => (json!(*r.pick(&["3/2", "2/1", "100/99", "2147483647/2147483646", "4/3"])), "above one"),
            1 => (json!(*r.pick(&["1/0", "0/0", "5/0"])), "zero denominator"),
            2 => (json!(*r.pick(&["-1/2", "1/-2", "-1/-2", "-1", "-0/-1"])), "negative"),
            3 => (json!(*r.pick(&["", " ", "/", "1/", "/2", "//", "1/2/3", "1/2/", "a", "a/b", "0x1/2", "1 /2", "1/ 2", " 1/2", "1/2 ", "1.0", "0.5", ".5/1", "1e0", "é", "½", "1/b", "one"])), "malformed weight"),
            4 => (json!(*r.pick(&["2", "3", "10", "4294967297"])), "integral weight above one"),
            5 => (json!(1), "number weight"),
            6 => (json!(0.5), "float weight"),
            7 => (J::Null, "null weight"),
            8 => (json!(true), "bool weight"),
            9 => (json!({"a": "1"}), "object weight"),
            10 => (json!(["1", ["1"]]), "deep list"),
            _ => { let d = r.range(1, 1 << 30); (json!(format!("{}/{}", d + r.range(1, 9), d)), "above one") }
        }
    }
    match r.below(6) {
        0 => match r.below(9) {
            0 => (json!(-(r.range(1, 1 << 40) as i64)), "negative integer"),
            1 => (json!(format!("-{:x}", r.range(1, 1 << 30))), "negative hex"),
            2 => (json!((1u64 << 32) + r.below(1 << 40) as u64), "too large"),
            3 => (json!(*r.pick(&["", " ", "g", "0x2", "1.5", "2 ", " 2", "é", "1/2", "-", "100000000", "ffffffffffffffffff"])), "malformed text"),
            4 => (json!(1.5), "float"),
            5 => (json!(*r.pick(&[true, false])), "bool"),
            6 => (J::Null, "null"),
            7 => (gen::object(r, 2), "object"),
            _ => (json!(*r.pick(&["[", "[\"1\"", "[]x", "[1]", "[[]]", "[]", "[\"1\",]", "[null]", "[\"1/2\"]", "[[\"1\"],[\"1/2\"]]", "[\"1\"] x"])), "malformed json text"),
        },
        1 => {
            let n = r.range(0, 3);
            (J::Array((0..n).map(|_| json!([])).collect()), "empty")
        }
        2 => {
            // clauses whose weights do not reach one, often by the smallest possible margin
            let mut cl: Vec<Vec<Weight>> = (0..r.range(0, 2)).map(|_| clause(r)).collect();
            let bad: Vec<Weight> = match r.below(3) {
                0 => { let d = r.range(2, 3000) as u32; let a = r.range(0, d as usize - 1) as u32; vec![(a, d), (d - 1 - a, d)] }
                1 => { let n = r.range(2, 12) as u32; (0..n - 1).map(|_| (1, n)).collect() }
                _ => loop { let v: Vec<Weight> = (0..r.range(1, 4)).map(|_| weight(r)).collect(); if !at_least_one(&v, |_| true) { break v; } },
            };
            let at = r.below(cl.len() + 1);
            cl.insert(at, bad);
            (J::Array(cl.iter().map(|x| J::Array(x.iter().map(|w| json!(format!("{}/{}", w.0, w.1))).collect())).collect()), "insufficient")
        }
        3 => {
            // an empty clause among good ones
            let w = weighted(r);
            let mut a = match nested(&w.clauses) { J::Array(a) => a, _ => vec![] };
            let at = r.below(a.len() + 1);
            a.insert(at, json!([]));
            (J::Array(a), "empty clause")
        }
        4 => {
            // a clause list mixed with loose weights
            let w = weighted(r);
            let mut a = match nested(&w.clauses) { J::Array(a) => a, _ => vec![] };
            let at = r.below(a.len() + 1);
            a.insert(at, json!("1/2"));
            (J::Array(a), "mixed nesting")
        }
        _ => {
            let w = weighted(r);
            let mut v = plain_sith(&w.clauses);
            let (b, k) = bad_weight(r);
            let deep = v[0].is_array();
            let a = if deep { let i = r.below(w.clauses.len()); v[i].as_array_mut().unwrap() } else { v.as_array_mut().unwrap() };
            let at = r.below(a.len() + 1);
            a.insert(at, b);
            (v, k)
        }
    }
}

// ---------------------------------------------------------------- C17
pub fn any_u128(r: &mut Rng) -> u128 {
    match r.below(6) {
        5 => {
            // lanes that are empty, full, lone bits or anything
            let w = *r.pick(&[4u32, 8, 16, 32, 64]);
            let full = (1u128 << w) - 1;
            (0..128 / w).fold(0u128, |n, _| n << w | match r.below(5) { 0 | 1 => 0, 2 => full, 3 => 1 << r.below(w as usize), _ => r.u128() & full })
        }
        0 => {
            let k = r.range(0, 127);
            let b = 1u128 << k;
            match r.below(3) { 0 => b, 1 => b - 1, _ => b.wrapping_add(1) }
        }
        1 => r.below(70000) as u128,
        2 => { let k = r.below(128); r.u128() >> k }
        3 => { let k = *r.pick(&[2u32, 4, 8, 16]); let b = if k == 16 { u128::MAX } else { 256u128.pow(k) }; b.wrapping_sub(3).wrapping_add(r.below(6) as u128) }
        _ => r.u128() & (r.u128() | 0xffff << (r.below(112))),
    }
}
fn spell_hex(r: &mut Rng, n: u128) -> String {
    let mut s = format!("{n:x}");
    if r.chance(1, 3) { s = format!("{}{s}", "0".repeat(r.below(40))) }
    if r.chance(1, 3) { s = s.to_uppercase() } else if r.chance(1, 3) { s = s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect() }
    s
}
pub fn bad_hex(r: &mut Rng) -> String {
    match r.below(5) {
        0 => r.pick(&["g", "0x1", "-1", "+1", " 1", "1 ", "1_0", "1.0", "é", "1\u{0}", "٣", "１", "-", "+", "--1", "0X1F", "1h", "\n", "ffffffffffffffffffffffffffffffffg"]).to_string(),
        1 => format!("{}{}", "f".repeat(r.range(1, 5)), "0".repeat(32)),
        2 => format!("1{}", "0".repeat(32 + r.below(10))),
        3 => { let s = format!("{:x}", r.u128()); let i = r.below(s.len() + 1); let mut t = s; t.insert(i, *r.pick(&['g', 'z', ' ', '-', '+', '_', 'G', '.', ':', '/', '@', '`'])); t }
        _ => { let mut t = format!("{:x}", r.u128() | 1 << 127); t.push(*r.pick(&['0', 'f', '1'])); t }
    }
}
#[derive(Debug, PartialEq, Clone)]
struct NView {
    v: View,
    num: u128,
    hex: String,
    positive: bool,
}
fn nview(n: &Number) -> anyhow::Result<NView> {
    Ok(NView { v: view(n)?, num: n.num()?, hex: n.numh()?, positive: n.positive()? })
}
fn sview(s: &Seqner) -> anyhow::Result<NView> {
    let n = s.sn()?;
    Ok(NView { v: view(s)?, num: n, hex: s.snh()?, positive: n > 0 })
}
fn want_n(p: &Prim, n: u128) -> NView {
    NView { v: View::of(p), num: n, hex: format!("{n:x}"), positive: n > 0 }
}
pub fn c17(run: &Run) {
    run.require(&["number-from-integer", "number-from-hex", "number-forms", "seqner-from-integer", "seqner-from-hex", "seqner-forms", "order", "number-bad-text-refused", "seqner-bad-text-refused", "wide-number"]);
    run.enumerate("around powers of two", 129 * 5, |c| {
        let k = c.idx / 5;
        let b = if k == 128 { 0 } else { 1u128 << k };
        let n = b.wrapping_add(c.idx as u128 % 5).wrapping_sub(2);
        num_case(c, n);
    });
    run.section("integers", 12000, |c| {
        let n = any_u128(&mut c.rng);
        num_case(c, n);
    });
    run.enumerate("every integer below 2^16 and around", 66000, |c| {
        let n = c.idx as u128;
        c.input(n.to_string());
        let p = number_prim(n);
        let o = c.call("Number", || nview(&Number::new_with_num(n)?));
        c.must_eq("number-from-integer", "", o, &want_n(&p, n));
        let h = format!("{n:x}");
        let o = c.call("Number", || nview(&Number::new_with_numh(&h)?));
        c.must_eq("number-from-hex", "", o, &want_n(&p, n));
        let q = construct("0A", &n.to_be_bytes()).unwrap();
        let o = c.call("Seqner", || sview(&Seqner::new_with_snh(&h)?));
        c.must_eq("seqner-from-hex", "", o, &want_n(&q, n));
    });
    run.enumerate("every pattern of words", 1 << 16, |c| {
        let n = (0..8).fold(0u128, |n, i| n << 16 | [0u128, 1, 0x8000, 0xffff][(c.idx >> (2 * i)) as usize & 3]);
        num_case(c, n);
    });
    run.section("refused text", 6000, |c| {
        let h = bad_hex(&mut c.rng);
        c.input(format!("{h:?}"));
        let o = c.call("Number", || nview(&Number::new_with_numh(&h)?));
        c.refuse("number-bad-text-refused", "", &o);
        let o = c.call("Seqner", || sview(&Seqner::new_with_snh(&h)?));
        c.refuse("seqner-bad-text-refused", "", &o);
        if c.idx % 50 == 0 {
            c.input("empty");
            let o = c.call("Number", || nview(&Number::new_with_numh("")?));
            c.must_eq("number-from-hex", "empty", o, &want_n(&number_prim(0), 0));
            let o = c.call("Seqner", || sview(&Seqner::new_with_snh("")?));
            c.refuse("seqner-bad-text-refused", "empty", &o);
            let o = c.call("Number", || nview(&Number::new(None, None, None, None, None, None, None)?));
            c.must_eq("number-from-integer", "none", o, &want_n(&number_prim(0), 0));
            let o = c.call("Seqner", || sview(&Seqner::new(None, None, None, None, None, None, None)?));
            c.must_eq("seqner-from-integer", "none", o, &want_n(&construct("0A", &[0; 16]).unwrap(), 0));
        }
    });
    run.enumerate("strangers in hexadecimal text", 5, |c| {
        let base = ["7", "1f", "00ff", "deadbeef01", "ffffffffffffffffffffffffffffffff"][c.idx as usize];
        for t in gen::injections(base) {
            if t.bytes().all(|b| b.is_ascii_hexdigit()) { continue }
            c.input(format!("{t:?}"));
            let o = c.call("Number", || nview(&Number::new_with_numh(&t)?));
            c.refuse("number-bad-text-refused", "stranger", &o);
            let o = c.call("Seqner", || sview(&Seqner::new_with_snh(&t)?));
            c.refuse("seqner-bad-text-refused", "stranger", &o);
        }
    });
    run.enumerate("leading zeros", 300, |c| {
        let z = "0".repeat(c.idx as usize);
        for (h, n) in [("0", 0u128), ("1", 1), ("aB", 0xab), ("FfFfFfFf", 0xffff_ffff), ("80000000000000000000000000000000", 1 << 127)] {
            let t = format!("{z}{h}");
            c.input(t.clone());
            let p = number_prim(n);
            let o = c.call("Number", || nview(&Number::new_with_numh(&t)?));
            c.must_eq("number-from-hex", "leading zeros", o, &want_n(&p, n));
            let q = construct("0A", &n.to_be_bytes()).unwrap();
            let o = c.call("Seqner", || sview(&Seqner::new_with_snh(&t)?));
            c.must_eq("seqner-from-hex", "leading zeros", o, &want_n(&q, n));
        }
    });
    run.section("order", 6000, |c| {
        let a = any_u128(&mut c.rng);
        let b = match c.rng.below(3) { 0 => a.wrapping_add(1), 1 => a.wrapping_add(1u128 << c.rng.below(128)), _ => any_u128(&mut c.rng) };
        c.input(format!("{a} {b}"));
        let o = c.call("Seqner", || {
            let (x, y) = (Seqner::new_with_sn(a)?, Seqner::new_with_sn(b)?);
            Ok((x.raw().cmp(&y.raw()), x.qb2()?[2..].cmp(&y.qb2()?[2..]), x.sn()?.cmp(&y.sn()?), x == y))
        });
        let w = a.cmp(&b);
        // the binary form spreads the lead character over bytes; its payload order is the same
        c.must_eq("order", "", o, &(w, w, w, a == b));
    });
}
fn num_case(c: &mut Case, n: u128) {
    c.input(n.to_string());
    let h = spell_hex(&mut c.rng, n);
    let p = number_prim(n);
    let w = want_n(&p, n);
    c.seen("number widths", &format!("{} {}", p.code, 128 - n.leading_zeros()));
    let o = c.call("Number", || nview(&Number::new_with_num(n)?));
    c.must_eq("number-from-integer", "", o, &w);
    let o = c.call("Number", || nview(&Number::new(Some(n), Some("zz"), None, None, None, None, None)?));
    c.must_eq("number-from-integer", "with unused text", o, &w);
    let o = c.call("Number", || nview(&Number::new_with_numh(&h)?));
    c.must_eq("number-from-hex", "", o, &w);
    let o = c.call("Number", || nview(&Number::new_with_raw(&p.raw, Some(&p.code))?));
    c.must_eq("number-forms", "raw", o, &w);
    let o = c.call("Number", || nview(&Number::new_with_qb64(&p.text)?));
    c.must_eq("number-forms", "text", o, &w);
    let o = c.call("Number", || nview(&Number::new_with_qb64b(p.text.as_bytes())?));
    c.must_eq("number-forms", "text bytes", o, &w);
    let bin = p.bin();
    let o = c.call("Number", || nview(&Number::new_with_qb2(&bin)?));
    c.must_eq("number-forms", "binary", o, &w);
    for (code, len) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
        if len < p.raw.len() || code == p.code { continue; }
        let q = construct(code, &n.to_be_bytes()[16 - len..]).unwrap();
        let w = want_n(&q, n);
        let o = c.call("Number", || nview(&Number::new_with_raw(&q.raw, Some(code))?));
        c.must_eq("wide-number", "raw", o, &w);
        let o = c.call("Number", || nview(&Number::new_with_qb64(&q.text)?));
        c.must_eq("wide-number", "text", o, &w);
        let b = q.bin();
        let o = c.call("Number", || nview(&Number::new_with_qb2(&b)?));
        c.must_eq("wide-number", "binary", o, &w);
    }
    let q = construct("0A", &n.to_be_bytes()).unwrap();
    let w = want_n(&q, n);
    let o = c.call("Seqner", || sview(&Seqner::new_with_sn(n)?));
    c.must_eq("seqner-from-integer", "", o, &w);
    let o = c.call("Seqner", || sview(&Seqner::new(Some(n), Some("zz"), None, None, None, None, None)?));
    c.must_eq("seqner-from-integer", "with unused text", o, &w);
    let o = c.call("Seqner", || sview(&Seqner::new_with_snh(&h)?));
    c.must_eq("seqner-from-hex", "", o, &w);
    let o = c.call("Seqner", || sview(&Seqner::new_with_raw(&q.raw, None)?));
    c.must_eq("seqner-forms", "raw", o, &w);
    let o = c.call("Seqner", || sview(&Seqner::new_with_qb64(&q.text)?));
    c.must_eq("seqner-forms", "text", o, &w);
    let o = c.call("Seqner", || sview(&Seqner::new_with_qb64b(q.text.as_bytes())?));
    c.must_eq("seqner-forms", "text bytes", o, &w);
    let b = q.bin();
    let o = c.call("Seqner", || sview(&Seqner::new_with_qb2(&b)?));
    c.must_eq("seqner-forms", "binary", o, &w);
}

// ---------------------------------------------------------------- C18
fn timestamp(r: &mut Rng) -> String {
    let y = match r.below(3) { 0 => r.below(10000), _ => r.range(1970, 2100) };
    let m = r.range(1, 12);
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dm = match m { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    let us = match r.below(4) { 0 => 0, 1 => 999999, 2 => r.below(1000), _ => r.below(1000000) };
    format!("{y:04}-{m:02}-{:02}T{:02}:{:02}:{:02}.{us:06}{}{:02}:{:02}", r.range(1, dm), r.below(24), r.below(60), { let leap_s = r.chance(1, 20); r.below(if leap_s { 61 } else { 60 }) },
        if r.bool() { '+' } else { '-' }, r.below(24), r.below(60))
}
#[derive(Debug, PartialEq, Clone)]
struct DView {
    v: View,
    dts: String,
    dtsb: Vec<u8>,
}
fn dview(d: &Dater) -> anyhow::Result<DView> {
    Ok(DView { v: view(d)?, dts: d.dts()?, dtsb: d.dtsb()? })
}
fn want_d(t: &str) -> (Prim, DView) {
    let b: String = t.chars().map(|c| match c { ':' => 'c', '.' => 'd', '+' => 'p', c => c }).collect();
    let p = decode(format!("1AAG{b}").as_bytes()).expect("a timestamp is base64 text");
    let v = DView { v: View::of(&p), dts: t.to_string(), dtsb: t.as_bytes().to_vec() };
    (p, v)
}
/// UTC now as an RFC 3339 text with microseconds, computed from the clock
fn now_text() -> String {
    let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    let (s, us) = (d.as_secs() as i64, d.subsec_micros());
    let days = s.div_euclid(86400);
    let t = s.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let dd = doy - (153 * mp + 2) / 5 + 1;
    let mm = if mp < 10 { mp + 3 } else { mp - 9 };
    let yy = yoe + era * 400 + i64::from(mm <= 2);
    format!("{yy:04}-{mm:02}-{dd:02}T{:02}:{:02}:{:02}.{us:06}+00:00", t / 3600, t / 60 % 60, t % 60)
}
pub fn c18(run: &Run) {
    run.require(&["timestamp", "timestamp-forms", "distinct", "other-length-refused", "default-is-now"]);
    let stamp = |c: &mut Case, t: String| {
        c.input(t.clone());
        let (p, w) = want_d(&t);
        let o = c.call("Dater", || dview(&Dater::new_with_dts(&t, None)?));
        c.must_eq("timestamp", "", o, &w);
        let o = c.call("Dater", || dview(&Dater::new_with_dts(&t, Some("1AAG"))?));
        c.must_eq("timestamp", "code given", o, &w);
        let o = c.call("Dater", || dview(&Dater::new_with_raw(&p.raw, None)?));
        c.must_eq("timestamp-forms", "raw", o, &w);
        let o = c.call("Dater", || dview(&Dater::new_with_qb64(&p.text)?));
        c.must_eq("timestamp-forms", "text", o, &w);
        let o = c.call("Dater", || dview(&Dater::new_with_qb64b(p.text.as_bytes())?));
        c.must_eq("timestamp-forms", "text bytes", o, &w);
        let b = p.bin();
        let o = c.call("Dater", || dview(&Dater::new_with_qb2(&b)?));
        c.must_eq("timestamp-forms", "binary", o, &w);
        let o = c.call("Dater", || {
            let d = Dater::new_with_dts(&t, None)?;
            Ok([Dater::new_with_qb64(&d.qb64()?)?.dts()?, Dater::new_with_qb64b(&d.qb64b()?)?.dts()?, Dater::new_with_qb2(&d.qb2()?)?.dts()?, Dater::new_with_raw(&d.raw(), None)?.dts()?])
        });
        c.must_eq("timestamp-forms", "through its own forms", o, &[t.clone(), t.clone(), t.clone(), t.clone()]);
        // a timestamp differing in one field
        let mut u = t.clone().into_bytes();
        let i = c.rng.below(32);
        if u[i].is_ascii_digit() { u[i] = b'0' + (u[i] - b'0' + 1 + c.rng.below(9) as u8) % 10 } else if u[i] == b'+' { u[i] = b'-' } else if i == 26 { u[i] = b'+' } else { u[25] = b'0' + (u[25] - b'0' + 1) % 10 }
        let u = String::from_utf8(u).unwrap();
        let o = c.call("Dater", || {
            let (a, b) = (Dater::new_with_dts(&t, None)?, Dater::new_with_dts(&u, None)?);
            Ok((a.qb64()? == b.qb64()?, a.qb2()? == b.qb2()?, a.raw() == b.raw(), a == b))
        });
        c.must_eq("distinct", "", o, &(false, false, false, false));
    };
    run.section("timestamps", 15000, |c| { let t = timestamp(&mut c.rng); stamp(c, t) });
    // every value of every field, the others at random
    run.enumerate("every year", 10000, |c| { let t = timestamp(&mut c.rng); let t = format!("{:04}-01-{}", c.idx, &t[8..]); stamp(c, t) });
    run.enumerate("every day", 12 * 28, |c| { let t = timestamp(&mut c.rng); let t = format!("{}-{:02}-{:02}{}", &t[..4], c.idx / 28 + 1, c.idx % 28 + 1, &t[10..]); stamp(c, t) });
    run.enumerate("every minute", 1440, |c| { let t = timestamp(&mut c.rng); let t = format!("{}{:02}:{:02}{}", &t[..11], c.idx / 60, c.idx % 60, &t[16..]); stamp(c, t) });
    run.enumerate("every second and microsecond digit", 61 * 60, |c| { let t = timestamp(&mut c.rng); let (i, us) = (c.idx % 60, t[20..26].to_string()); let mut us = us.into_bytes(); us[(i / 10) as usize] = b'0' + (i % 10) as u8; let t = format!("{}{:02}.{}{}", &t[..17], c.idx / 60, String::from_utf8(us).unwrap(), &t[26..]); stamp(c, t) });
    run.enumerate("every zone", 2 * 1440, |c| { let t = timestamp(&mut c.rng); let i = c.idx % 1440; let t = format!("{}{}{:02}:{:02}", &t[..26], if c.idx < 1440 { '+' } else { '-' }, i / 60, i % 60); stamp(c, t) });
    run.enumerate("a stranger put in", 4, |c| {
        let t = ["2020-08-22T17:50:09.988921+00:00", "1999-12-31T23:59:59.999999-12:30", "0000-01-01T00:00:00.000000+00:00", "2024-02-29T12:00:00.000001+14:00"][c.idx as usize];
        for s in gen::injections(t) {
            if s.chars().count() != 33 { continue }
            c.input(s.clone());
            let o = c.call("Dater", || dview(&Dater::new_with_dts(&s, None)?));
            c.refuse("other-length-refused", "stranger", &o);
        }
    });
    run.enumerate("every length", 200, |c| {
        let n = c.idx as usize;
        if n == 32 { return }
        for unit in ["2020-08-22T17:50:09.988921+00:00", "0", "2020-08-22T17:50:09.988921", "A"] {
            let s: String = unit.chars().cycle().take(n).collect();
            c.input(s.clone());
            let o = c.call("Dater", || dview(&Dater::new_with_dts(&s, None)?));
            c.refuse("other-length-refused", "length", &o);
        }
    });
    // timestamps of every other precision and zone notation, valid in themselves
    run.enumerate("other notations", 24, |c| {
        for tz in ["", "Z", "z", "+00:00", "-00:00", "+05:30", "-1130", "+00", "+00:00:00", "-12:00:30.5", " +00:00", "UTC", "[UTC]", "+00:00[Europe/Paris]"] {
            for sep in ["T", "t", " ", "  ", "T "] {
                for date in ["2020-08-22", "20200822", "2020-235", "2020-W34-6", "+002020-08-22", "-2020-08-22", "120-08-22", "2020-8-22"] {
                    for time in ["17:50:09", "175009", "17:50", "17", "7:50:09"] {
                        for mark in [".", ","] {
                            let f: String = "987654321012345678901234"[..c.idx as usize].to_string();
                            let s = format!("{date}{sep}{time}{}{f}{tz}", if f.is_empty() { "" } else { mark });
                            if s.len() == 32 { continue }
                            c.input(s.clone());
                            let o = c.call("Dater", || dview(&Dater::new_with_dts(&s, None)?));
                            c.refuse("other-length-refused", "notation", &o);
                        }
                    }
                }
            }
        }
    });
    run.section("other lengths", 8000, |c| {
        let t = timestamp(&mut c.rng);
        let s = match c.rng.below(8) {
            0 => t[..c.rng.below(32)].to_string(),
            1 => t[1 + c.rng.below(31)..].to_string(),
            2 => format!("{t}{}", gen::b64(&mut c.rng, 6)),
            3 => format!("{t}{}", c.rng.pick(&["0", "Z", " ", "+", ":", "A", "AAAA", "\n"])),
            4 => format!("{}Z", &t[..26]),
            5 => format!("{}{}", &t[..19], &t[26..]),
            6 => format!("{}000{}", &t[..26], &t[26..]),
            _ => { let i = c.rng.below(32); let mut x = t.clone(); x.remove(i); if c.rng.bool() { let i = c.rng.below(31); x.remove(i); } x }
        };
        if s.len() == 32 { return }
        c.input(s.clone());
        let o = c.call("Dater", || dview(&Dater::new_with_dts(&s, None)?));
        c.refuse("other-length-refused", if s.len() < 32 { "shorter" } else { "longer" }, &o);
    });
    run.section_exact("now", 400, 2, |c| {
        let a = now_text();
        let o = c.call("Dater", || dview(&Dater::new(None, None, None, None, None, None)?));
        let b = now_text();
        let Some(v) = c.must("default-is-now", "", o) else { return };
        c.input(v.dts.clone());
        // texts of the same zone and width order like the instants
        c.check("default-is-now", "window", v.dts.len() == 32 && a <= v.dts && v.dts <= b, || format!("{} is not between {a} and {b}", v.dts));
        let (_, w) = if v.dts.len() == 32 && v.dts.is_ascii() { want_d(&v.dts) } else { return };
        c.eq("default-is-now", "encoded", &v, &w);
    });
}

// ---------------------------------------------------------------- C19
#[derive(Debug, PartialEq, Clone)]
struct BView {
    v: View,
    bext: String,
}
fn bview(b: &Bexter) -> anyhow::Result<BView> {
    Ok(BView { v: view(b)?, bext: b.bext()? })
}
pub fn c19(run: &Run) {
    run.require(&["text", "text-forms", "foreign-refused", "leading-A", "large"]);
    run.enumerate("every text of one or two characters", 1 + 64 + 64 * 64, |c| {
        let i = c.idx as usize;
        let t = if i == 0 { String::new() } else if i <= 64 { (B64[i - 1] as char).to_string() } else { let j = i - 65; format!("{}{}", B64[j / 64] as char, B64[j % 64] as char) };
        bext_case(c, t);
    });
    run.section("texts", 12000, |c| {
        let mut t = gen::b64(&mut c.rng, 64);
        if c.rng.chance(1, 4) { t = format!("{}{t}", "A".repeat(c.rng.range(1, 6))) }
        bext_case(c, t);
    });
    run.enumerate("every length", 520, |c| {
        let n = c.idx as usize;
        for k in 0..4 {
            let mut t = match k { 0 => "A".repeat(n), 1 => "_".repeat(n), _ => gen::b64n(&mut c.rng, n) };
            if k == 3 && n > 0 { t.replace_range(0..1, "A") }
            bext_case(c, t);
        }
    });
    run.enumerate("strangers", 6, |c| {
        let base = ["", "a", "a-_", "Abcd", "abcdefgh", "AAAAA"][c.idx as usize];
        for t in gen::injections(base) {
            if t.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') { continue }
            c.input(format!("{t:?}"));
            let o = c.call("Bexter", || bview(&Bexter::new_with_bext(&t)?));
            c.refuse("foreign-refused", "stranger", &o);
            let o = c.call("Bexter", || bview(&Bexter::new(Some(&t), Some("7AAA"), None, None, None, None)?));
            c.refuse("foreign-refused", "stranger, code given", &o);
            let o = c.call("Pather", || view(&Pather::new_with_bext(&t)?));
            c.refuse("foreign-refused", "stranger in path", &o);
        }
    });
    run.section("long texts", 60, |c| {
        let around = [4095 * 4, 4096 * 4, 4094 * 4, 100, 1000, 20000][c.rng.below(6)];
        let n = around - 8 + c.rng.below(17);
        let mut t = gen::b64n(&mut c.rng, n);
        if c.rng.chance(1, 4) { t.replace_range(0..1, "A") }
        bext_case(c, t);
        c.judge("large");
    });
    run.section("foreign characters", 8000, |c| {
        let mut t: Vec<char> = gen::b64(&mut c.rng, 20).chars().collect();
        let ch = loop {
            let ch = if c.rng.bool() { gen::any_char(&mut c.rng) } else { *c.rng.pick(&['=', '+', '/', ' ', '\n', '.', '~', '\0', ':', '@', '[', '`', '{', 'é', '＿', '٠', '１']) };
            if !(ch.is_ascii_alphanumeric() || ch == '-' || ch == '_') { break ch; }
        };
        let i = c.rng.below(t.len() + 1);
        t.insert(i, ch);
        let t: String = t.into_iter().collect();
        c.input(format!("{t:?}"));
        let o = c.call("Bexter", || bview(&Bexter::new_with_bext(&t)?));
        c.refuse("foreign-refused", "", &o);
        let o = c.call("Pather", || view(&Pather::new_with_bext(&format!("-{t}"))?));
        c.refuse("foreign-refused", "path", &o);
    });
}
fn bext_case(c: &mut Case, t: String) {
    c.input(t.clone());
    let p = text_prim(&t);
    let dropped = t.starts_with('A') && t.len() % 4 == 0;
    let want = if dropped { t[1..].to_string() } else { t.clone() };
    let w = BView { v: View::of(&p), bext: want };
    c.seen("code, length class", &format!("{} {} {dropped}", p.code, t.len() % 12));
    let o = c.call("Bexter", || bview(&Bexter::new_with_bext(&t)?));
    if dropped { c.judge("leading-A") }
    c.must_eq("text", if dropped { "leading A" } else { "" }, o, &w);
    let code = *c.rng.pick(&["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"]);
    let o = c.call("Bexter", || bview(&Bexter::new(Some(&t), Some(code), None, None, None, None)?));
    let wg = BView { v: View::of(&construct(code, &p.raw).unwrap()), bext: w.bext.clone() };
    c.must_eq("text", "code given", o, &wg);
    let o = c.call("Bexter", || bview(&Bexter::new_with_raw(&p.raw, None)?));
    c.must_eq("text-forms", "raw", o, &w);
    let o = c.call("Bexter", || bview(&Bexter::new_with_raw(&p.raw, Some(&p.code))?));
    c.must_eq("text-forms", "raw and code", o, &w);
    let o = c.call("Bexter", || bview(&Bexter::new_with_qb64(&p.text)?));
    c.must_eq("text-forms", "text", o, &w);
    let o = c.call("Bexter", || bview(&Bexter::new_with_qb64b(p.text.as_bytes())?));
    c.must_eq("text-forms", "text bytes", o, &w);
    let b = p.bin();
    let o = c.call("Bexter", || bview(&Bexter::new_with_qb2(&b)?));
    c.must_eq("text-forms", "binary", o, &w);
    let o = c.call("Pather", || { let x = Pather::new_with_bext(&t)?; Ok(BView { v: view(&x)?, bext: x.bext()? }) });
    c.must_eq("text", "path text", o, &w);
}

// ---------------------------------------------------------------- C20
fn component(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.below(12).to_string(),
        1 => r.pick(&["a", "b", "ab", "abc", "A", "AA", "B_", "_", "a0", "0a", "00", "01", "v", "d", "i", "e1", "0x1"]).to_string(),
        2 => { let n = r.range(1, 30); gen::b64n(r, n).replace('-', "_") }
        _ => r.pick(&["a", "b", "c", "aa", "bb", "ab"]).to_string(),
    }
}
fn components(r: &mut Rng) -> Vec<String> {
    if r.chance(1, 60) {
        let n = if r.chance(1, 6) { *r.pick(&[4094usize, 4095, 4096, 6000]) } else { gen::size(r) };
        let flat = r.bool();
        return (0..n).map(|i| if flat { (i % 10).to_string() } else { component(r) }).collect();
    }
    let n = match r.below(8) { 0 => 0, 1 => r.range(5, 30), _ => r.range(1, 5) };
    (0..n).map(|_| component(r)).collect()
}
fn comps_value(r: &mut Rng, v: &[String]) -> J {
    J::Array(v.iter().map(|x| if let (Ok(n), true) = (x.parse::<i64>(), r.bool()) { if n.to_string() == *x { json!(n) } else { json!(x) } } else { json!(x) }).collect())
}
fn path_text(v: &[String]) -> String {
    format!("-{}", v.join("-"))
}
fn strs(v: &[String]) -> String {
    json!(v).to_string()
}
fn is_pos(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
/// follow components through a document; None when a component is missing or meets a scalar
fn walk<'a>(v: &'a J, p: &[String]) -> Option<&'a J> {
    let mut at = v;
    for s in p {
        at = match at {
            J::Object(m) => if is_pos(s) { m.values().nth(s.parse().ok()?)? } else { m.get(s.as_str())? },
            J::Array(a) => { if !is_pos(s) { return None; } a.get(s.parse::<usize>().ok()?)? }
            _ => return None,
        };
    }
    Some(at)
}
/// a document whose names can be path components
fn path_doc(r: &mut Rng, depth: usize) -> J {
    if depth == 0 || r.chance(1, 5) { return gen::scalar(r); }
    let n = match r.below(6) { _ if r.chance(1, 30) => gen::size(r), 0 => 0, 1 => r.range(5, 13), _ => r.range(1, 4) };
    if n > 14 {
        // long lists: entries told apart by their position
        let far = r.below(n);
        let deep = path_doc(r, depth - 1);
        if r.bool() {
            return J::Array((0..n).map(|i| if i == far { deep.clone() } else { json!(format!("e{i}")) }).collect());
        }
        let plain = r.bool();
        return J::Object((0..n).map(|i| (if plain { format!("k{i}") } else { format!("{i}_") }, if i == far { deep.clone() } else { json!(format!("e{i}")) })).collect());
    }
    if r.bool() {
        J::Array((0..n).map(|_| path_doc(r, depth - 1)).collect())
    } else {
        let mut m = serde_json::Map::new();
        for _ in 0..n { let k = component(r); m.insert(k, path_doc(r, depth - 1)); }
        J::Object(m)
    }
}
pub fn c20(run: &Run) {
    run.require(&["built", "components", "forms", "resolved", "unresolved-refused", "root", "strip", "strip-absent", "strip-after-root", "starts-with", "not-starts-with", "bad-component-refused", "not-a-path-refused", "tail", "tail-refused"]);
    run.section("component lists", 6000, |c| {
        let v = components(&mut c.rng);
        let j = comps_value(&mut c.rng, &v);
        c.input(j.to_string());
        let t = path_text(&v);
        let p = text_prim(&t);
        let want = (View::of(&p), t.clone(), strs(&v));
        let look = |x: &Pather| -> anyhow::Result<(View, String, String)> { Ok((view(x)?, x.bext()?, x.path()?.to_json()?)) };
        let o = c.call("Pather", || look(&Pather::new_with_path(&gen::keride(&j))?));
        c.must_eq("built", "list", o, &want);
        let o = c.call("Pather", || look(&Pather::new_with_bext(&t)?));
        c.must_eq("components", "text", o, &want);
        let o = c.call("Pather", || look(&Pather::new_with_raw(&p.raw, Some(&p.code))?));
        c.must_eq("forms", "raw", o, &want);
        let o = c.call("Pather", || look(&Pather::new_with_qb64(&p.text)?));
        c.must_eq("forms", "text", o, &want);
        let o = c.call("Pather", || look(&Pather::new_with_qb64b(p.text.as_bytes())?));
        c.must_eq("forms", "text bytes", o, &want);
        let b = p.bin();
        let o = c.call("Pather", || look(&Pather::new_with_qb2(&b)?));
        c.must_eq("forms", "binary", o, &want);
    });
    run.section("resolution", 12000, |c| {
        let d = c.rng.range(1, 5);
        let doc = loop { let d = path_doc(&mut c.rng, d); if d.is_object() || d.is_array() || c.rng.chance(1, 10) { break d; } };
        // mostly follow what is there
        let mut v = vec![];
        let mut at = &doc;
        loop {
            if c.rng.chance(1, 6) { break; }
            if c.rng.chance(1, 12) { v.push(component(&mut c.rng)); break; }
            match at {
                J::Object(m) if !m.is_empty() => {
                    let i = if m.len() > 14 && c.rng.bool() { m.values().position(|x| x.is_array() || x.is_object()).unwrap_or(m.len() - 1) } else { c.rng.below(m.len()) };
                    let k = m.keys().nth(i).unwrap();
                    if c.rng.bool() || is_pos(k) || k.contains('-') { v.push(i.to_string()); at = m.values().nth(i).unwrap(); } else { v.push(k.clone()); at = &m[k]; }
                }
                J::Array(a) if !a.is_empty() => { let i = if a.len() > 14 && c.rng.bool() { a.iter().position(|x| x.is_array() || x.is_object()).unwrap_or(a.len() - 1) } else { c.rng.below(a.len()) }; v.push(i.to_string()); at = &a[i]; }
                J::Object(_) | J::Array(_) => { v.push(component(&mut c.rng)); break; }
                _ => { if c.rng.chance(1, 4) { v.push(component(&mut c.rng)); } break; }
            }
        }
        if c.rng.chance(1, 20) { v.push(["0".to_string(), "1".into(), "a".into(), "length".into()][c.rng.below(4)].clone()) }
        // positions with leading zeros are the same positions
        if c.rng.chance(1, 8) { let z = "0".repeat(c.rng.range(1, 4)); if let Some(x) = v.iter_mut().find(|x| is_pos(x)) { x.insert_str(0, &z) } }
        if v.iter().any(|x| is_pos(x) && x.len() > 15) { return }
        c.input(format!("{} in {doc}", path_text(&v)));
        let want = walk(&doc, &v).cloned();
        let kd = gen::keride(&doc);
        let before = kd.clone();
        let o = c.call("Pather.resolve", || Ok(Pather::new_with_path(&gen::keride(&json!(v)))?.resolve(&kd)?.to_json()?));
        match &want {
            Some(x) => { let s = x.to_string(); c.must_eq("resolved", "", o, &s); }
            None => { c.refuse("unresolved-refused", "", &o); }
        }
        let same = before == kd;
        c.check("resolved", "document untouched", same, || "the document changed".into());
        c.seen("outcome and depth", &format!("{} {}", want.is_some(), v.len()));
        // tail of the same path in a message holding the document
        if c.rng.chance(1, 2) {
            tail_case(c, &doc, &v);
        }
    });
    run.section("prefixes", 12000, |c| {
        let root = components(&mut c.rng);
        let rel = match c.rng.below(4) { 0 => root.clone(), 1 => { let mut x = root.clone(); x.extend(components(&mut c.rng)); x } _ => components(&mut c.rng) };
        c.input(format!("root {} path {}", path_text(&root), path_text(&rel)));
        let mk = |v: &[String]| Pather::new_with_bext(&path_text(v));
        let o = c.call("Pather", || Ok((mk(&root)?, mk(&rel)?)));
        let Some((pr, pp)) = c.must("built", "text", o) else { return };
        let cat: Vec<String> = root.iter().chain(rel.iter()).cloned().collect();
        let o = c.call("Pather.root", || pp.root(&pr));
        let Some(full) = c.must("root", "", o) else { return };
        let o = c.call("Pather.path", || full.path()?.to_json());
        c.must_eq("root", "components", o, &strs(&cat));
        let o = c.call("Pather.strip", || full.strip(&pr)?.path()?.to_json());
        c.must_eq("strip-after-root", "", o, &strs(&rel));
        // strip and starts-with against any other list
        let other: Vec<String> = match c.rng.below(6) {
            0 => root.clone(),
            1 => rel.clone(),
            2 => cat[..c.rng.below(cat.len() + 1)].to_vec(),
            3 => { let mut x = cat[..c.rng.below(cat.len() + 1)].to_vec(); if let Some(l) = x.last_mut() { if c.rng.bool() && l.len() > 1 { l.pop(); } else { l.push('a') } } x }
            4 => { let mut x = cat.clone(); x.push(component(&mut c.rng)); x }
            _ => components(&mut c.rng),
        };
        let o = c.call("Pather", || mk(&other));
        let Some(po) = c.must("built", "text", o) else { return };
        let has = cat.starts_with(&other);
        let o = c.call("Pather.starts_with", || full.starts_with(&po));
        c.must_eq(if has { "starts-with" } else { "not-starts-with" }, "", o, &has);
        let want = if has { cat[other.len()..].to_vec() } else { cat.clone() };
        let o = c.call("Pather.strip", || { let x = full.strip(&po)?; Ok((x.path()?.to_json()?, x.qb64()?)) });
        c.must_eq(if has { "strip" } else { "strip-absent" }, "", o, &(strs(&want), text_prim(&path_text(&want)).text));
        let o = c.call("Pather.starts_with", || full.starts_with(&full));
        c.must_eq("starts-with", "itself", o, &true);
        let o = c.call("Pather", || Pather::new_with_path(&gen::keride(&json!([]))));
        if let Some(e) = c.must("built", "empty", o) {
            let o = c.call("Pather.starts_with", || full.starts_with(&e));
            c.must_eq("starts-with", "empty", o, &true);
        }
        // composition over three lists is associative
        let o = c.call("Pather.root", || Ok((pp.root(&pr)?.root(&po)?.bext()?, pp.root(&pr.root(&po)?)?.bext()?)));
        let t = path_text(&[other.clone(), cat.clone()].concat());
        c.must_eq("root", "associative", o, &(t.clone(), t));
    });
    run.section("refused components", 5000, |c| {
        let mut v: Vec<J> = components(&mut c.rng).into_iter().map(|x| json!(x)).collect();
        let bad = match c.rng.below(8) {
            0 => json!(""),
            1 => json!(format!("{}-{}", component(&mut c.rng), component(&mut c.rng))),
            2 => json!(*c.rng.pick(&["-", "--", "-a", "a-", "a b", "é", "a.b", "a/b", "a=", "+", "\n", "a\n"])),
            3 => json!(-(c.rng.range(1, 1000) as i64)),
            4 => json!(1.5),
            5 => J::Null,
            6 => json!(true),
            _ => json!([["a"]]),
        };
        let i = c.rng.below(v.len() + 1);
        v.insert(i, bad);
        let j = J::Array(v);
        c.input(j.to_string());
        let o = c.call("Pather", || view(&Pather::new_with_path(&gen::keride(&j))?));
        c.refuse("bad-component-refused", "", &o);
        let k = c.rng.pick(&[json!("a"), json!({"a": 1}), json!(3), J::Null]).clone();
        let o = c.call("Pather", || view(&Pather::new_with_path(&gen::keride(&k))?));
        c.refuse("bad-component-refused", "no list", &o);
        // text that is no path has no component list
        let t = loop { let t = gen::b64(&mut c.rng, 12); if !t.starts_with('-') { break t; } };
        let o = c.call("Pather.path", || Pather::new_with_bext(&t)?.path()?.to_json());
        // the leading A rule may uncover a separator
        if !(t.starts_with("A-") && t.len() % 4 == 0) { c.refuse("not-a-path-refused", "path", &o); }
        let o = c.call("Pather.resolve", || Pather::new_with_bext(&t)?.resolve(&gen::keride(&json!({"a": 1})))?.to_json());
        if !(t.starts_with("A-") && t.len() % 4 == 0) { c.refuse("not-a-path-refused", "resolve", &o); }
    });
}
fn tail_case(c: &mut Case, doc: &J, v: &[String]) {
    let mut full = serde_json::Map::new();
    full.insert("v".into(), json!("KERI10JSON000000_"));
    full.insert("t".into(), json!("exn"));
    full.insert("d".into(), json!(""));
    full.insert("body".into(), doc.clone());
    full.insert("said".into(), json!(qualify("E", &c.rng.bytes(32))));
    full.insert("n".into(), json!(5));
    let full = J::Object(full);
    let o = c.call("Saider::saidify", || Saider::saidify(&gen::keride(&full), None, None, None, None));
    let Some((_, ked)) = o.ok() else { return };
    let o = c.call("Serder", || Serder::new_with_ked(&ked, None, None));
    let Some(s) = o.ok() else { return };
    // the message's own document, without parsing floating-point numbers a second time
    let (Ok(vs), Ok(d)) = (s.ked()["v"].to_string(), s.ked()["d"].to_string()) else { return };
    let mut kj = full.clone();
    kj["v"] = json!(vs);
    kj["d"] = json!(d);
    let mut p = vec!["body".to_string()];
    p.extend(v.iter().cloned());
    for p in [p, vec!["said".to_string()], vec!["4".into()], vec!["d".into()], vec!["n".into()], vec![], vec!["nope".into()]] {
        let got = c.call("Pather.tail", || Pather::new_with_bext(&path_text(&p))?.tail(&s));
        match walk(&kj, &p) {
            Some(J::String(t)) => {
                let is = decode(t.as_bytes()).map(|x| DIGESTS.contains(&x.code.as_str()) && x.text.len() == t.len()).unwrap_or(false);
                if is { c.must_eq("tail", "identifier", got, t); } else if decode(t.as_bytes()).is_none() { c.refuse("tail-refused", "text", &got); }
            }
            Some(x @ (J::Array(_) | J::Object(_))) => { let t = x.to_string(); c.must_eq("tail", "container", got, &t); }
            Some(_) => { c.refuse("tail-refused", "scalar", &got); }
            None => { c.refuse("tail-refused", "absent", &got); }
        }
    }
}

// ---------------------------------------------------------------- C21
pub fn c21(run: &Run) {
    run.require(&["serialized", "reload-equal", "display", "extract-own", "extract-other-refused", "integer-range", "replace", "insert", "index-read", "field-order", "conversions", "inequality"]);
    run.section("documents", 12000, |c| {
        let d = c.rng.range(0, 6);
        let j0 = gen::value(&mut c.rng, d);
        let text = gen::spaced(&mut c.rng, &j0);
        // what the JSON library itself reads
        let j: J = match serde_json::from_str(&text) { Ok(j) => j, Err(_) => return };
        c.input(j.to_string());
        let o = c.val("Value::from", || Value::from(&j));
        let Some(v) = c.must("serialized", "load", o) else { return };
        let want = j.to_string();
        let o = c.call("Value.to_json", || v.to_json());
        c.must_eq("serialized", "", o, &want);
        let o = c.val("Value display", || format!("{v}"));
        c.must_eq("display", "", o, &want);
        // reload, where the JSON library's own text is stable
        let again: J = serde_json::from_str(&want).unwrap();
        if again == j {
            let o = c.call("Value.to_json", || Ok(Value::from(&serde_json::from_str::<J>(&v.to_json()?)?)));
            if let Some(w) = c.must("reload-equal", "load", o) {
                let same = v == w && w == v;
                c.check("reload-equal", "", same, || format!("{w:?} differs from {v:?}"));
            }
        }
        deep(c, &v, &j, 0);
        // a different document is a different value
        let mut k = j.clone();
        let pl = gen::places(&k);
        let p = c.rng.pick(&pl).clone();
        let slot = gen::at_mut(&mut k, &p);
        let new = gen::value(&mut c.rng, 1);
        if new.to_string() != slot.to_string() && !same_number(&new, slot) {
            *slot = new;
            let w = Value::from(&k);
            let ne = v != w;
            c.check("inequality", "", ne, || format!("{k} equals {j}"));
        }
        c.seen("shape", &shape(&j));
    });
    run.section("replacement", 8000, |c| {
        let d = c.rng.range(1, 5);
        let j = loop { let j = gen::value(&mut c.rng, d); if j.is_object() || j.is_array() { break j; } };
        let mut pl: Vec<_> = gen::places(&j).into_iter().filter(|p| !p.is_empty()).collect();
        if pl.is_empty() { pl.push(vec![gen::Step::Name("new".into())]); if j.is_array() { return } }
        let p = c.rng.pick(&pl).clone();
        let new = gen::value(&mut c.rng, 2);
        c.input(format!("{p:?} := {new} in {j}"));
        let mut want = j.clone();
        *gen::at_mut(&mut want, &p) = new.clone();
        let mut v = Value::from(&j);
        let kept = v.clone();
        let byname = c.rng.bool();
        let o = c.val("Value index_mut", || {
            let mut at = &mut v;
            let mut jat = &j;
            for s in &p {
                match s {
                    gen::Step::Pos(i) => { at = &mut at[*i]; jat = &jat[*i]; }
                    gen::Step::Name(k) => {
                        let pos = jat.as_object().and_then(|m| m.keys().position(|x| x == k));
                        at = match pos { Some(i) if !byname => &mut at[i], _ => &mut at[k.as_str()] };
                        jat = &jat[k.as_str()];
                    }
                }
            }
            *at = Value::from(&new);
            v.clone()
        });
        let Some(v) = c.must("replace", "call", o) else { return };
        let o = c.call("Value.to_json", || v.to_json());
        c.must_eq("replace", "", o, &want.to_string());
        let o = c.call("Value.to_json", || kept.to_json());
        c.must_eq("replace", "clone untouched", o, &j.to_string());
        // a new name is appended
        if j.is_object() {
            let mut k = gen::text(&mut c.rng);
            while j.get(&k).is_some() { k.push('x') }
            let mut want = j.clone();
            want[k.as_str()] = new.clone();
            let o = c.call("Value index_mut", || { let mut v = Value::from(&j); v[k.as_str()] = Value::from(&new); v.to_json() });
            c.must_eq("insert", "", o, &want.to_string());
        }
    });
    run.section("integers", 6000, |c| {
        let i = match c.rng.below(3) { 0 => c.rng.next() as i64 as i128, 1 => c.rng.next() as i128, _ => { let b = 1i128 << c.rng.below(64); (if c.rng.bool() { b } else { -b }) + c.rng.below(3) as i128 - 1 } };
        let i = i.clamp(i64::MIN as i128, u64::MAX as i128);
        c.input(i.to_string());
        let o = c.call("Value", || {
            let v = Value::from(&serde_json::from_str::<J>(&i.to_string())?);
            Ok((v.to_json()?, v.to_i64().ok(), v.to_f64().is_ok(), i64::try_from(&v).ok()))
        });
        let n = i64::try_from(i).ok();
        c.must_eq("integer-range", "", o, &(i.to_string(), n, false, n));
        if let Some(n) = n {
            let o = c.call("Value::from", || {
                let mut s = vec![Value::from(n).to_json()?];
                if let Ok(x) = i8::try_from(n) { s.push(Value::from(x).to_json()?) }
                if let Ok(x) = i16::try_from(n) { s.push(Value::from(x).to_json()?) }
                if let Ok(x) = i32::try_from(n) { s.push(Value::from(x).to_json()?) }
                if let Ok(x) = u8::try_from(n) { s.push(Value::from(x).to_json()?) }
                if let Ok(x) = u16::try_from(n) { s.push(Value::from(x).to_json()?) }
                if let Ok(x) = u32::try_from(n) { s.push(Value::from(x).to_json()?) }
                Ok(s.iter().all(|x| *x == n.to_string()))
            });
            c.must_eq("conversions", "integers", o, &true);
        }
        let f = f64::from_bits(c.rng.next());
        if f.is_finite() {
            let o = c.call("Value::from", || { let v = Value::from(f); Ok((v.to_json()?, v.to_f64()?.to_bits(), v.to_i64().is_ok(), f64::try_from(&v)?.to_bits())) });
            c.must_eq("conversions", "float", o, &(json!(f).to_string(), f.to_bits(), false, f.to_bits()));
            let g = f as f32;
            if g.is_finite() {
                let o = c.call("Value::from", || Value::from(g).to_json());
                c.must_eq("conversions", "float 32", o, &json!(g as f64).to_string());
            }
        }
    });
    run.section("collections", 1500, |c| {
        let doc = gen::document(&mut c.rng);
        c.input(doc.to_string());
        let m = doc.as_object().unwrap();
        let o = c.call("Value::from", || {
            let im: indexmap::IndexMap<String, Value> = m.iter().map(|(k, v)| (k.clone(), Value::from(v))).collect();
            let hm: std::collections::HashMap<String, Value> = m.iter().map(|(k, v)| (k.clone(), Value::from(v))).collect();
            let arr: Vec<Value> = m.values().map(Value::from).collect();
            let h = Value::from(&hm).to_map()?;
            let same = h.len() == m.len() && m.iter().all(|(k, v)| h.get(k).map(|x| *x == Value::from(v)).unwrap_or(false));
            Ok((Value::from(&im).to_json()?, Value::from(arr.as_slice()).to_json()?, same))
        });
        let w = (doc.to_string(), J::Array(m.values().cloned().collect()).to_string(), true);
        c.must_eq("conversions", "collections", o, &w);
        let s = gen::text(&mut c.rng);
        let o = c.call("Value::from", || Ok((Value::from(&s).to_json()?, Value::from(s.as_str()).to_string()?)));
        c.must_eq("conversions", "text", o, &(json!(s).to_string(), s.clone()));
        let o = c.call("Value.to_map", || Ok(Value::from(&doc).to_map()?.keys().cloned().collect::<Vec<_>>()));
        let w: Vec<String> = m.keys().cloned().collect();
        c.must_eq("field-order", "", o, &w);
    });
}
fn same_number(a: &J, b: &J) -> bool {
    // 0.0 and -0.0 are equal values with different texts
    matches!((a.as_f64(), b.as_f64()), (Some(x), Some(y)) if x == y)
}
fn shape(j: &J) -> String {
    match j {
        J::Array(a) => format!("[{}]", a.iter().map(shape).collect::<String>()),
        J::Object(o) => format!("{{{}}}", o.values().map(shape).collect::<String>()),
        J::Null => "n".into(), J::Bool(_) => "b".into(), J::Number(n) => if n.is_f64() { "f".into() } else { "i".into() }, J::String(_) => "s".into(),
    }
}
fn deep(c: &mut Case, v: &Value, j: &J, depth: usize) {
    // extraction: exactly the value's own type
    let kind = match j { J::Null => 0, J::Bool(_) => 1, J::Number(n) => if n.is_f64() { 3 } else { 2 }, J::String(_) => 4, J::Array(_) => 5, J::Object(_) => 6 };
    let o = c.val("Value extraction", || {
        [v.to_bool().is_ok(), v.to_i64().is_ok(), v.to_f64().is_ok(), v.to_string().is_ok(), v.to_vec().is_ok(), v.to_map().is_ok()]
    });
    let fits = j.as_i64().is_some();
    let want = [kind == 1, kind == 2 && fits, kind == 3, kind == 4, kind == 5, kind == 6];
    c.judge("extract-other-refused");
    c.must_eq("extract-own", "kinds", o, &want);
    let o = c.val("Value conversion", || {
        [bool::try_from(v).is_ok(), String::try_from(v).is_ok(), Vec::<Value>::try_from(v).is_ok(), indexmap::IndexMap::<String, Value>::try_from(v).is_ok(),
         i64::try_from(v).is_ok() && kind != 3 && kind != 2, f64::try_from(v).is_ok() && kind != 3 && kind != 2]
    });
    c.must_eq("extract-own", "conversion kinds", o, &[kind == 1, kind == 4, kind == 5, kind == 6, false, false]);
    match j {
        J::Bool(b) => { let o = c.call("Value.to_bool", || Ok((v.to_bool()?, bool::try_from(v)?))); c.must_eq("extract-own", "bool", o, &(*b, *b)); }
        J::Number(n) if n.is_f64() => { let o = c.call("Value.to_f64", || Ok((v.to_f64()?.to_bits(), f64::try_from(v)?.to_bits()))); let b = n.as_f64().unwrap().to_bits(); c.must_eq("extract-own", "float", o, &(b, b)); }
        J::Number(n) => if let Some(i) = n.as_i64() { let o = c.call("Value.to_i64", || Ok((v.to_i64()?, i64::try_from(v)?))); c.must_eq("extract-own", "integer", o, &(i, i)); },
        J::String(s) => { let o = c.call("Value.to_string", || Ok((v.to_string()?, String::try_from(v)?))); c.must_eq("extract-own", "text", o, &(s.clone(), s.clone())); }
        J::Array(a) => {
            let o = c.call("Value.to_vec", || Ok((v.to_vec()?, Vec::<Value>::try_from(v)?)));
            if let Some((x, y)) = c.must("extract-own", "array", o) {
                c.check("extract-own", "array length", x.len() == a.len() && x == y, || format!("{} of {}", x.len(), a.len()));
                for (i, e) in a.iter().enumerate() {
                    let o = c.val("Value index", || v[i].clone());
                    let ok = o.as_ref() == x.get(i);
                    c.check("index-read", "array", ok, || format!("entry {i}"));
                    if depth < 3 { if let Some(q) = x.get(i) { deep(c, q, e, depth + 1) } }
                }
            }
        }
        J::Object(m) => {
            let o = c.call("Value.to_map", || Ok((v.to_map()?, indexmap::IndexMap::<String, Value>::try_from(v)?)));
            if let Some((x, y)) = c.must("extract-own", "map", o) {
                let order = x.keys().eq(m.keys()) && y.keys().eq(m.keys());
                c.check("field-order", "map", order, || format!("{:?}", x.keys().collect::<Vec<_>>()));
                for (i, (k, e)) in m.iter().enumerate() {
                    let o = c.val("Value index", || (v[k.as_str()].clone(), v[i].clone()));
                    if let (Some((p, q)), Some(z)) = (o.ok(), x.get(k)) {
                        c.check("index-read", "map", p == *z && q == *z, || format!("entry {k}"));
                        if depth < 3 { deep(c, z, e, depth + 1) }
                    }
                }
            }
        }
        _ => {}
    }
}
