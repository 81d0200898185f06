//! C01..C06, C26: primitives, indexed signatures, counters, streams, type confinement.
use crate::fw::*;
use crate::gen;
use crate::lib_api::*;
use crate::model::*;
use keride::cesr::*;

/// payload with interesting content
pub fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = r.bytes(n);
            if n > 0 {
                v[0] = 0
            }
            v
        }
        3 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = r.below(n);
                v[i] = 1 << r.below(8);
            }
            v
        }
        _ => r.bytes(n),
    }
}
pub fn var_len(r: &mut Rng) -> usize {
    match r.below(12) {
        0..=4 => r.below(40),
        5 | 6 => r.range(40, 600),
        7 | 8 => r.range(4094 * 3 - 2, 4096 * 3 + 4),
        9 => 3 * 64 + r.below(7) - 3,
        10 => r.range(600, 12000),
        _ => r.range(12280, 20000),
    }
}
/// a random valid (code, raw) pair; raw of exact size
pub fn any_prim(r: &mut Rng) -> (&'static MC, Vec<u8>) {
    let d = r.pick(MATTER);
    let n = if d.variable() { var_len(r).min(if r.chance(9, 10) { 300 } else { 20000 }) } else { d.rs() };
    (d, payload(r, n))
}
const FOREIGN: &[char] = &['=', '+', '/', ' ', '\n', '#', '.', 'é', '€', '😀', '\0', '~', '"'];

fn routes(c: &mut Case, p: &Prim, key: &str) {
    let want = View::of(p);
    let (t, b) = (p.text.clone(), p.bin());
    let o = c.call("Matter::new_with_qb64", || view(&<TM as Matter>::new_with_qb64(&t)?));
    c.must_eq("decode-text", key, o, &want);
    let o = c.call("Matter::new_with_qb64b", || view(&<TM as Matter>::new_with_qb64b(t.as_bytes())?));
    c.must_eq("decode-text-bytes", key, o, &want);
    let o = c.call("Matter::new_with_qb2", || view(&<TM as Matter>::new_with_qb2(&b)?));
    c.must_eq("decode-binary", key, o, &want);
    let o = c.call("Matter::new(qb64)", || view(&<TM as Matter>::new(None, None, None, Some(&t), None)?));
    c.must_eq("decode-text", key, o, &want);
    let o = c.call("Matter::new(qb64b)", || view(&<TM as Matter>::new(None, None, Some(t.as_bytes()), None, None)?));
    c.must_eq("decode-text-bytes", key, o, &want);
    let o = c.call("Matter::new(qb2)", || view(&<TM as Matter>::new(None, None, None, None, Some(&b))?));
    c.must_eq("decode-binary", key, o, &want);
}
fn c01_case(c: &mut Case, code: &'static str, raw: Vec<u8>, extra: usize) {
    let d = mc(code).unwrap();
    let mut given = raw.clone();
    if !d.variable() {
        given.extend(c.rng.bytes(extra));
    }
    c.input(format!("code={code} len={} raw={}", given.len(), hex(&given[..given.len().min(48)])));
    c.seen("code×length-class", &format!("{code}/{}", raw.len().min(70).max(raw.len() % 3)));
    let p = construct(code, &given).expect("model");
    let want = View::of(&p);
    let o = c.call("Matter::new_with_code_and_raw", || view(&<TM as Matter>::new_with_code_and_raw(code, &given)?));
    c.must_eq("construct", code, o, &want);
    let o = c.call("Matter::new(code,raw)", || view(&<TM as Matter>::new(Some(code), Some(&given), None, None, None)?));
    c.must_eq("construct", code, o, &want);
    routes(c, &p, code);
    // typed primitives that admit the code, and every route into them
    for ty in TYPES.iter().filter(|t| t.codes.contains(&code)) {
        if ty.name == "Signer" && !valid_seed(code, &p.raw) {
            continue;
        }
        let k = format!("{}/{code}", ty.name);
        let o = c.call("typed(raw)", || (ty.raw)(code, &given));
        c.must_eq("typed-construct", &k, o, &want);
        let o = c.call("typed(qb64)", || (ty.qb64)(&p.text));
        c.must_eq("typed-decode", &k, o, &want);
        let o = c.call("typed(qb64b)", || (ty.qb64b)(p.text.as_bytes()));
        c.must_eq("typed-decode", &k, o, &want);
        let o = c.call("typed(qb2)", || (ty.qb2)(&p.bin()));
        c.must_eq("typed-decode", &k, o, &want);
    }
}
pub fn valid_seed(code: &str, raw: &[u8]) -> bool {
    match code {
        "A" => raw.len() == 32,
        "J" => k256::ecdsa::SigningKey::from_slice(raw).is_ok(),
        "Q" => p256::ecdsa::SigningKey::from_slice(raw).is_ok(),
        _ => false,
    }
}
pub fn c01(run: &Run) {
    run.require(&["construct", "decode-text", "decode-text-bytes", "decode-binary", "typed-construct", "typed-decode", "shortage"]);
    let nfix = MATTER.iter().filter(|m| !m.variable()).count() as u64;
    run.section("fixed codes", nfix * 60, |c| {
        let fixed: Vec<&MC> = MATTER.iter().filter(|m| !m.variable()).collect();
        let d = fixed[(c.idx % nfix) as usize];
        let raw = payload(&mut c.rng, d.rs());
        let extra = if c.rng.bool() { 0 } else { c.rng.range(1, 40) };
        c01_case(c, d.code, raw, extra);
    });
    run.enumerate("fixed codes, every short length", nfix, |c| {
        let fixed: Vec<&MC> = MATTER.iter().filter(|m| !m.variable()).collect();
        let d = fixed[c.idx as usize];
        c.input(d.code);
        for n in 0..d.rs() {
            let raw = vec![7u8; n];
            let o = c.call("Matter::new_with_code_and_raw", || view(&<TM as Matter>::new_with_code_and_raw(d.code, &raw)?));
            c.refuse("shortage", d.code, &o);
        }
        let o = c.call("Matter::new(raw)", || view(&<TM as Matter>::new(None, Some(&[1, 2, 3]), None, None, None)?));
        c.refuse("shortage", "no code", &o);
        let o = c.call("Matter::new()", || view(&<TM as Matter>::new(Some(d.code), None, None, None, None)?));
        c.refuse("shortage", "code only", &o);
        let o = c.call("Matter::new(empty code)", || view(&<TM as Matter>::new_with_code_and_raw("", &[1, 2, 3])?));
        c.refuse("shortage", "empty code", &o);
    });
    let vars: Vec<&'static str> = MATTER.iter().filter(|m| m.variable()).map(|m| m.code).collect();
    // every length up to 130 and around every size-field boundary, for every variable code
    let mut lens: Vec<usize> = (0..=130).collect();
    lens.extend(189..=196);
    lens.extend(4095 * 3 - 4..=4096 * 3 + 4);
    lens.extend([4100 * 3, 20000, 65535, 65536, 65537]);
    let (vars, lens) = (&vars, &lens);
    run.enumerate("variable codes, boundary lengths", (vars.len() * lens.len()) as u64, |c| {
        let code = vars[c.idx as usize % vars.len()];
        let n = lens[c.idx as usize / vars.len()];
        let raw = payload(&mut c.rng, n);
        c01_case(c, code, raw, 0);
    });
    run.section("variable codes, random lengths", 1500, |c| {
        let code = *c.rng.pick(vars);
        let n = if c.rng.chance(1, 40) { gen_large(&mut c.rng) } else { var_len(&mut c.rng) };
        let raw = payload(&mut c.rng, n);
        c01_case(c, code, raw, 0);
    });
    {
        run.section_exact("very large payloads", if run.tier == Tier::Thorough { 48 } else { 12 }, 4, |c| {
            let code = vars[c.idx as usize % vars.len()];
            let n = *c.rng.pick(&[64 * 64 * 64 * 3 - 1, 64 * 64 * 64 * 3, 64 * 64 * 64 * 3 + 1, 1 << 20]);
            let raw = c.rng.bytes(n);
            c01_case(c, code, raw, 0);
        });
    }
    // the largest size that can be encoded, and what is beyond; one at a time, they are large
    run.section_exact("the largest payloads", 6, 2, |c| {
        let code = if c.idx < 3 { *c.rng.pick(&["4B", "5B", "6B", "4A", "5A", "6A"]) } else { *c.rng.pick(&["7AAB", "8AAB", "9AAB", "7AAA", "8AAA", "9AAA"]) };
        let most = 3 * ((1usize << 24) - 1);
        let n = [most, most - 1, most - 2][c.idx as usize % 3];
        c.input(format!("{code} with {n} bytes"));
        let mut raw: Vec<u8> = (0..most + 3).map(|i| (i >> 11) as u8 ^ i as u8).collect();
        let beyond = &raw[..most + 1 + c.idx as usize % 3];
        let o = c.call("Matter::new_with_code_and_raw", || view(&<TM as Matter>::new_with_code_and_raw(code, beyond)?).map(|_| ()));
        c.refuse("shortage", "too large", &o);
        raw.truncate(n);
        let o = c.call("Matter::new_with_code_and_raw", || { let m = <TM as Matter>::new_with_code_and_raw(code, &raw)?; Ok((m.code(), m.size() as usize, m.full_size()?, m.qb64()?, m)) });
        let Some((mc, ms, fs, text, m)) = c.must("construct", "largest", o) else { return };
        let lead = most - n;
        let wc = format!("{}AA{}", ["7", "8", "9"][lead], &code[code.len() - 1..]);
        c.eq("construct", "largest", &(mc, ms, fs, text.len()), &(wc.clone(), (1 << 24) - 1, 8 + 4 * ((1 << 24) - 1), 8 + 4 * ((1 << 24) - 1)));
        let mut lr = vec![0u8; lead];
        lr.extend_from_slice(&raw);
        c.check("construct", "largest", text[..8] == format!("{wc}____") && text[8..] == b64e(&lr), || "another text".into());
        drop(lr);
        if c.idx % 2 == 0 {
            drop(m);
            let o = c.call("Matter::new_with_qb64", || { let m = <TM as Matter>::new_with_qb64(&text)?; Ok((m.code(), m.size() as usize, m.raw() == raw)) });
            c.must_eq("decode-text", "largest", o, &(wc, (1 << 24) - 1, true));
        } else {
            drop(text);
            let o = c.call("Matter::new_with_qb2", || { let b = m.qb2()?; drop(m); let m = <TM as Matter>::new_with_qb2(&b)?; Ok((m.code(), m.size() as usize, m.raw() == raw)) });
            c.must_eq("decode-binary", "largest", o, &(wc, (1 << 24) - 1, true));
        }
    });
}

// ------------------------------------------------------------------ C02
fn c02_text(c: &mut Case, t: &str) {
    c.input(t.to_string());
    let want = decode(t.as_bytes());
    let key = t.chars().take(1).collect::<String>();
    let o = c.call("Matter::new_with_qb64", || view(&<TM as Matter>::new_with_qb64(t)?));
    judge_decode(c, &key, "text", &want, o);
    let o = c.call("Matter::new_with_qb64b", || view(&<TM as Matter>::new_with_qb64b(t.as_bytes())?));
    judge_decode(c, &key, "text-bytes", &want, o);
}
fn c02_bytes(c: &mut Case, b: &[u8]) {
    c.input(format!("qb2 {}", hex(&b[..b.len().min(120)])));
    let want = decode_bin(b);
    let key = want.as_ref().map(|w| w.code.clone()).unwrap_or_default();
    let o = c.call("Matter::new_with_qb2", || view(&<TM as Matter>::new_with_qb2(b)?));
    judge_decode(c, &key, "binary", &want, o);
}
/// the same strictness through a typed primitive's own routes
fn c02_typed(c: &mut Case, ty: &Ty, t: &str, b: &[u8]) {
    c.input(format!("{} {t} {}", ty.name, hex(&b[..b.len().min(120)])));
    let fit = |p: &Prim| ty.codes.contains(&p.code.as_str()) && (ty.name != "Signer" || valid_seed(&p.code, &p.raw));
    let want = decode(t.as_bytes()).filter(fit);
    let o = c.call("typed(qb64)", || (ty.qb64)(t));
    judge_decode(c, ty.name, "typed text", &want, o);
    let o = c.call("typed(qb64b)", || (ty.qb64b)(t.as_bytes()));
    judge_decode(c, ty.name, "typed text-bytes", &want, o);
    let want = decode_bin(b).filter(fit);
    let o = c.call("typed(qb2)", || (ty.qb2)(b));
    judge_decode(c, ty.name, "typed binary", &want, o);
}
fn judge_decode(c: &mut Case, key: &str, dom: &'static str, want: &Option<Prim>, o: Obs<View>) {
    let k = format!("{dom}/{key}");
    match want {
        Some(p) => {
            c.seen("accepted codes", &format!("{dom}{}", p.code));
            c.must_eq("accepts-canonical", &k, o, &View::of(p));
        }
        None => {
            c.refuse("refuses-non-canonical", &k, &o);
        }
    }
}
pub fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            break;
        }
        // positions near the code and at the end matter most
        let i = match r.below(4) {
            0 => r.below(v.len().min(10)),
            1 => v.len() - 1 - r.below(v.len().min(4)),
            _ => r.below(v.len()),
        };
        match r.below(9) {
            0 | 1 | 2 => v[i] = B64[r.below(64)] as char,
            3 => v[i] = *r.pick(FOREIGN),
            4 => v.truncate(i),
            5 => {
                v.insert(i, B64[r.below(64)] as char);
            }
            6 => {
                v.remove(i);
            }
            7 => {
                // base64 padding at the end
                let n = v.len();
                for k in 0..r.range(1, 2).min(n) {
                    v[n - 1 - k] = '=';
                }
            }
            _ => {
                for _ in 0..r.range(1, 8) {
                    v.push(if r.chance(1, 4) { *r.pick(FOREIGN) } else { B64[r.below(64)] as char });
                }
            }
        }
    }
    v.into_iter().collect()
}
pub fn mutate_bytes(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            break;
        }
        let i = if r.bool() { r.below(v.len().min(8)) } else { r.below(v.len()) };
        match r.below(6) {
            0 | 1 => v[i] ^= 1 << r.below(8),
            2 => v[i] = r.byte(),
            3 => v.truncate(i),
            4 => {
                v.remove(i);
            }
            _ => {
                let n = r.range(1, 5);
                v.extend(r.bytes(n))
            }
        }
    }
    v
}
pub fn c02(run: &Run) {
    run.require(&["accepts-canonical", "refuses-non-canonical"]);
    run.section("canonical with trailing material", 3000, |c| {
        let (d, raw) = any_prim(&mut c.rng);
        let p = construct(d.code, &raw).unwrap();
        let mut t = p.text.clone();
        for _ in 0..c.rng.below(9) {
            t.push(if c.rng.chance(1, 5) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
        }
        c02_text(c, &t);
        let mut b = p.bin();
        let n = c.rng.below(7);
        b.extend(c.rng.bytes(n));
        c02_bytes(c, &b);
    });
    run.section("typed primitives with trailing material, and mutated", 30000, |c| {
        let ty = &TYPES[c.idx as usize % TYPES.len()];
        let d = mc(*c.rng.pick(ty.codes)).unwrap();
        let n = if d.variable() { var_len(&mut c.rng).min(300) } else { d.rs() };
        let raw = payload(&mut c.rng, n);
        let p = construct(d.code, &raw).unwrap();
        let (mut t, mut b) = (p.text.clone(), p.bin());
        if c.rng.bool() {
            for _ in 0..c.rng.below(60) {
                t.push(if c.rng.chance(1, 5) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
            }
            if c.rng.chance(1, 3) { t.push_str(&p.text); }
            let n = c.rng.below(50);
            b.extend(c.rng.bytes(n));
        } else {
            t = mutate_text(&mut c.rng, &t);
            b = mutate_bytes(&mut c.rng, &b);
        }
        c02_typed(c, ty, &t, &b);
    });
    run.section("mutated text", 40000, |c| {
        let (d, raw) = any_prim(&mut c.rng);
        let t = construct(d.code, &raw).unwrap().text;
        let t = mutate_text(&mut c.rng, &t);
        c02_text(c, &t);
    });
    run.section("mutated binary", 40000, |c| {
        let (d, raw) = any_prim(&mut c.rng);
        let b = construct(d.code, &raw).unwrap().bin();
        let b = mutate_bytes(&mut c.rng, &b);
        c02_bytes(c, &b);
    });
    // for every code: every value of the first payload character and byte (pad and lead bits), every truncation
    run.section("pad bits, lead bytes and truncations of every code", MATTER.len() as u64 * 4, |c| {
        let d = &MATTER[c.idx as usize % MATTER.len()];
        let n = if d.variable() { c.rng.below(20) } else { d.rs() };
        let raw = payload(&mut c.rng, n);
        let p = construct(d.code, &raw).unwrap();
        let t = p.text.clone();
        for cs in [1usize, 2, 4, 5, 6, 8, 9, 10] {
            if cs >= t.len() {
                continue;
            }
            for k in 0..64 {
                let mut v = t.clone().into_bytes();
                v[cs] = B64[k];
                c02_text(c, std::str::from_utf8(&v).unwrap());
                c02_bytes(c, &b64d(&v).unwrap());
            }
        }
        for n in 0..t.len() {
            c02_text(c, &t[..n]);
        }
        let b = p.bin();
        for n in 0..b.len() {
            c02_bytes(c, &b[..n]);
        }
        for k in 1..=3 {
            if t.len() > k {
                let s = format!("{}{}", &t[..t.len() - k], "=".repeat(k));
                c02_text(c, &s);
            }
        }
        for i in 0..t.len().min(48) {
            for f in ['=', '+', 'é', '.'] {
                let mut v: Vec<char> = t.chars().collect();
                v[i] = f;
                let s: String = v.into_iter().collect();
                c02_text(c, &s);
            }
        }
    });
    run.enumerate("every short number primitive", 64 * 64, |c| {
        let i = c.idx as usize;
        for k in 0..64 {
            let t = format!("M{}{}{}", B64[i / 64] as char, B64[i % 64] as char, B64[k] as char);
            c02_text(c, &t);
            c02_bytes(c, &b64d(t.as_bytes()).unwrap());
        }
    });
    run.enumerate("every string of up to three characters", 76, |c| {
        let mut abc: Vec<char> = B64.iter().map(|b| *b as char).collect();
        abc.extend(['=', '+', '/', ' ', '#', 'é', '€', '😀', '\0', '.', '"', '\n']);
        let a = abc[c.idx as usize];
        c02_text(c, &a.to_string());
        for b in abc.clone() {
            c02_text(c, &format!("{a}{b}"));
            for d in abc.clone() {
                c02_text(c, &format!("{a}{b}{d}"));
            }
        }
    });
    run.section("size fields of variable codes", 4000, |c| {
        let vars: Vec<&MC> = MATTER.iter().filter(|m| m.variable()).collect();
        let d = *c.rng.pick(&vars);
        let n = c.rng.below(30);
        let size = if c.rng.bool() { c.rng.below(12) } else { c.rng.next() as usize & (64usize.pow(d.ss as u32) - 1) };
        let mut body: String = (0..n * 4).map(|_| B64[c.rng.below(64)] as char).collect();
        if c.rng.bool() && !body.is_empty() {
            body = format!("AAA{}", &body[3..]);
        }
        let t = format!("{}{}{}", d.code, int_b64(size as u64, d.ss).unwrap(), body);
        c02_text(c, &t);
        let b = b64d(t.as_bytes()).unwrap();
        c02_bytes(c, &b);
    });
    run.section("arbitrary text", 40000, |c| {
        let n = c.rng.below(60);
        let mut t = String::new();
        if c.rng.chance(3, 4) {
            t.push_str(c.rng.pick(MATTER).code);
        }
        for _ in 0..n {
            t.push(if c.rng.chance(1, 40) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
        }
        c02_text(c, &t);
    });
    run.section("arbitrary bytes", 40000, |c| {
        let n = c.rng.below(60);
        let b = c.rng.bytes(n);
        c02_bytes(c, &b);
        // invalid UTF-8 as text bytes must never be accepted as something it is not
        let o = c.call("Matter::new_with_qb64b", || view(&<TM as Matter>::new_with_qb64b(&b)?));
        if let Obs::Ok(v) = o {
            let w = decode(&b).map(|p| View::of(&p));
            c.check("accepts-canonical", "raw bytes", w.as_ref() == Some(&v), || format!("{v:?} from {}", hex(&b)));
        }
    });
    if run.tier == Tier::Thorough {
        run.enumerate("every 3-byte binary", 65536, |c| {
            for k in 0..256 {
                let b = [(c.idx >> 8) as u8, c.idx as u8, k as u8];
                c02_bytes(c, &b);
            }
        });
    }
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Debug)]
enum El {
    M(Prim),
    I(ISig),
    C(String, u32, String),
}
impl El {
    fn text(&self) -> &str {
        match self {
            El::M(p) => &p.text,
            El::I(p) => &p.text,
            El::C(_, _, t) => t,
        }
    }
}
pub fn any_isig(r: &mut Rng) -> ISig {
    loop {
        let d = r.pick(INDEXER);
        let index = match r.below(4) {
            0 => r.below(4) as u64,
            1 => d.imax(),
            2 => r.next() % (d.imax() + 1),
            _ => (63 + r.below(3) as u64).min(d.imax()),
        };
        let index = if d.fs == 0 { index.min(200) } else { index } as u32;
        let ondex = if d.current_only() || r.bool() {
            None
        } else if d.os == 0 {
            Some(index)
        } else {
            Some((r.next() % (d.omax() + 1)) as u32)
        };
        let n = d.rs(index as u64);
        let raw = payload(r, n);
        if let Some(s) = iconstruct(d.code, &raw, index, ondex) {
            return s;
        }
    }
}
pub fn any_counter(r: &mut Rng) -> (&'static CC, u32) {
    let d = r.pick(COUNTER);
    let n = match r.below(4) {
        0 => r.below(3) as u64,
        1 => d.max() - r.below(2) as u64,
        2 => [63, 64, 65, 4095][r.below(4)],
        _ => r.next() % (d.max() + 1),
    };
    (d, n.min(d.max()) as u32)
}
/// every 32-bit number where a width, a digit or a sign turns over
pub fn notable() -> Vec<u32> {
    let mut v: Vec<u64> = (0..300).collect();
    for k in 3..=32 { for d in [-2i64, -1, 0, 1, 2] { v.push(((1i64 << k) + d) as u64); } }
    for k in 1..=5u32 { for a in 1..64u64 { for d in [-1i64, 0, 1] { v.push((a as i64 * 64i64.pow(k) + d) as u64); } } }
    for k in 1..=9u32 { for d in [-1i64, 0, 1] { v.push((10i64.pow(k) + d) as u64); } }
    v.retain(|x| *x <= u32::MAX as u64);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u32).collect()
}
/// payload lengths on a logarithmic scale up to a quarter of a million bytes
fn gen_large(r: &mut Rng) -> usize {
    let e = r.range(8, 18);
    r.range(1 << (e - 1), 1 << e)
}
pub fn c03(run: &Run) {
    run.require(&["stream-text", "stream-text-bytes", "stream-binary", "alignment", "conversion"]);
    run.section("streams", 4000, |c| {
        let n = if c.rng.chance(1, 50) { c.rng.range(200, 1200) } else { c.rng.range(1, 24) };
        let mut els = vec![];
        for _ in 0..n {
            // now and then one that was there already
            if !els.is_empty() && c.rng.chance(1, 12) {
                let e: &El = if c.rng.bool() { els.last().unwrap() } else { c.rng.pick(&els) };
                let e = e.clone();
                els.push(e);
                continue;
            }
            els.push(match c.rng.below(5) {
                0 | 1 => {
                    let (d, mut raw) = any_prim(&mut c.rng);
                    if d.variable() {
                        if n < 40 && c.rng.chance(1, 60) { let k = gen_large(&mut c.rng); raw = c.rng.bytes(k); } else { raw.truncate(700); }
                    }
                    El::M(construct(d.code, &raw).unwrap())
                }
                2 | 3 => El::I(any_isig(&mut c.rng)),
                _ => {
                    let (d, k) = any_counter(&mut c.rng);
                    El::C(d.code.into(), k, cencode(d.code, k as u64).unwrap())
                }
            });
        }
        c.input(els.iter().map(|e| e.text().chars().take(9).collect::<String>()).collect::<Vec<_>>().join("|"));
        // the library's own encodings of the elements
        let (mut text, mut bin) = (String::new(), Vec::new());
        for e in &els {
            let o = match e {
                El::M(p) => c.call("Matter::new(code,raw)", || {
                    let m = <TM as Matter>::new(Some(&p.code), Some(&p.raw), None, None, None)?;
                    Ok((m.qb64()?, m.qb2()?))
                }),
                El::I(p) => c.call("Indexer::new(code,raw)", || {
                    let od = if CURRENT_ONLY.contains(&p.code.as_str()) { None } else { Some(p.ondex) };
                    let od = if p.code == "0z" { None } else { od };
                    let m = <TI as Indexer>::new(Some(p.index), od, Some(&p.code), Some(&p.raw), None, None, None)?;
                    Ok((m.qb64()?, m.qb2()?))
                }),
                El::C(code, n, _) => c.call("Counter::new(code,count)", || {
                    let m = Counter::new_with_code_and_count(code, *n)?;
                    Ok((m.qb64()?, m.qb2()?))
                }),
            };
            let k = e.text().chars().take(2).collect::<String>();
            let Some((t, b)) = c.must("alignment", &k, o) else { return };
            c.check("alignment", &k, t.len() % 4 == 0 && b.len() % 3 == 0, || format!("{t} / {}", hex(&b)));
            c.check("conversion", &k, b64d(t.as_bytes()).as_deref() == Some(&b[..]), || format!("{t} vs {}", hex(&b)));
            text.push_str(&t);
            bin.extend(b);
        }
        c.check("conversion", "whole text to binary", b64d(text.as_bytes()).as_deref() == Some(&bin[..]), || text.clone());
        c.check("conversion", "whole binary to text", bin.len() % 3 == 0 && b64e(&bin) == text, || text.clone());
        // sequential parse, each element must report exactly its own length
        let mut at = 0;
        for e in &els {
            let k = format!("{}", e.text().chars().take(2).collect::<String>());
            let s = &text[at..];
            let o = match e {
                El::M(_) => c.call("Matter::new_with_qb64", || {
                    let m = <TM as Matter>::new_with_qb64(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw())), m.full_size()?))
                }),
                El::I(_) => c.call("Indexer::new_with_qb64", || {
                    let m = <TI as Indexer>::new_with_qb64(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw(), m.index(), m.ondex())), m.full_size()?))
                }),
                El::C(..) => c.call("Counter::new_with_qb64", || {
                    let m = Counter::new_with_qb64(s)?;
                    Ok((format!("{:?}", (m.code(), m.count())), m.full_size()?))
                }),
            };
            let want = (elview(e), e.text().len());
            if !c.must_eq("stream-text", &k, o, &want) {
                break;
            }
            at += want.1;
        }
        // the same from text bytes
        let mut at = 0;
        for e in &els {
            let k = format!("{}", e.text().chars().take(2).collect::<String>());
            let s = &text.as_bytes()[at..];
            let o = match e {
                El::M(_) => c.call("Matter::new_with_qb64b", || {
                    let m = <TM as Matter>::new_with_qb64b(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw())), m.full_size()?))
                }),
                El::I(_) => c.call("Indexer::new_with_qb64b", || {
                    let m = <TI as Indexer>::new_with_qb64b(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw(), m.index(), m.ondex())), m.full_size()?))
                }),
                El::C(..) => c.call("Counter::new_with_qb64b", || {
                    let m = Counter::new_with_qb64b(s)?;
                    Ok((format!("{:?}", (m.code(), m.count())), m.full_size()?))
                }),
            };
            let want = (elview(e), e.text().len());
            if !c.must_eq("stream-text-bytes", &k, o, &want) {
                break;
            }
            at += want.1;
        }
        let mut at = 0;
        for e in &els {
            let k = format!("{}", e.text().chars().take(2).collect::<String>());
            let s = &bin[at..];
            let o = match e {
                El::M(_) => c.call("Matter::new_with_qb2", || {
                    let m = <TM as Matter>::new_with_qb2(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw())), m.full_size()? / 4 * 3))
                }),
                El::I(_) => c.call("Indexer::new_with_qb2", || {
                    let m = <TI as Indexer>::new_with_qb2(s)?;
                    Ok((format!("{:?}", (m.code(), m.raw(), m.index(), m.ondex())), m.full_size()? / 4 * 3))
                }),
                El::C(..) => c.call("Counter::new_with_qb2", || {
                    let m = Counter::new_with_qb2(s)?;
                    Ok((format!("{:?}", (m.code(), m.count())), m.full_size()? / 4 * 3))
                }),
            };
            let want = (elview(e), e.text().len() / 4 * 3);
            if !c.must_eq("stream-binary", &k, o, &want) {
                break;
            }
            at += want.1;
        }
    });
    let total = MATTER.len() + INDEXER.len() + COUNTER.len();
    run.enumerate("alignment of every table entry", total as u64, |c| {
        let i = c.idx as usize;
        for n in 0..20usize {
            let (k, o) = if i < MATTER.len() {
                let d = &MATTER[i];
                let raw = vec![n as u8 * 11; if d.variable() { n } else { d.rs() }];
                (d.code, c.call("Matter::new(code,raw)", || {
                    let m = <TM as Matter>::new(Some(d.code), Some(&raw), None, None, None)?;
                    Ok((m.qb64()?, m.qb2()?, m.full_size()?))
                }))
            } else if i < MATTER.len() + INDEXER.len() {
                let d = &INDEXER[i - MATTER.len()];
                let raw = vec![n as u8 * 11; d.rs(n as u64)];
                (d.code, c.call("Indexer::new(code,raw)", || {
                    let m = <TI as Indexer>::new(Some(n as u32), None, Some(d.code), Some(&raw), None, None, None)?;
                    Ok((m.qb64()?, m.qb2()?, m.full_size()?))
                }))
            } else {
                let d = &COUNTER[i - MATTER.len() - INDEXER.len()];
                (d.code, c.call("Counter::new(code,count)", || {
                    let m = Counter::new_with_code_and_count(d.code, n as u32)?;
                    Ok((m.qb64()?, m.qb2()?, m.full_size()?))
                }))
            };
            c.input(k);
            let Some((t, b, fs)) = c.must("alignment", k, o) else { continue };
            c.check("alignment", k, t.len() % 4 == 0 && b.len() % 3 == 0 && t.len() == fs, || format!("{t} {} {fs}", b.len()));
            c.check("conversion", k, b64d(t.as_bytes()).as_deref() == Some(&b[..]), || format!("{t} vs {}", hex(&b)));
        }
    });
}
fn elview(e: &El) -> String {
    match e {
        El::M(p) => format!("{:?}", (p.code.clone(), p.raw.clone())),
        El::I(p) => {
            let o = idecode(p.text.as_bytes()).map(|d| d.ondex).unwrap_or(p.ondex);
            format!("{:?}", (p.code.clone(), p.raw.clone(), p.index, o))
        }
        El::C(code, n, _) => format!("{:?}", (code.clone(), *n)),
    }
}

// ------------------------------------------------------------------ C04
fn c04_good(c: &mut Case, d: &IC, raw: &[u8], index: u32, ondex: Option<u32>, want: &ISig) {
    let key = d.code;
    let mut w = IView::of(want);
    let o = c.call("Indexer::new(code,raw)", || {
        iview(&<TI as Indexer>::new(Some(index), ondex, Some(d.code), Some(raw), None, None, None)?)
    });
    // the variable-length test code carries its length, not an index: its other index is unspecified
    let norm = |mut v: IView| {
        if v.code == "0z" {
            v.ondex = 0
        }
        v
    };
    w = norm(w);
    let o = match o {
        Obs::Ok(v) => Obs::Ok(norm(v)),
        x => x,
    };
    c.must_eq("construct", key, o, &w);
    let (t, b) = (want.text.clone(), want.bin());
    let mut wd = IView::of(&idecode(t.as_bytes()).unwrap());
    wd = norm(wd);
    for (rule, o) in [
        ("decode-text", c.call("Indexer::new_with_qb64", || iview(&<TI as Indexer>::new_with_qb64(&t)?))),
        ("decode-text-bytes", c.call("Indexer::new_with_qb64b", || iview(&<TI as Indexer>::new_with_qb64b(t.as_bytes())?))),
        ("decode-binary", c.call("Indexer::new_with_qb2", || iview(&<TI as Indexer>::new_with_qb2(&b)?))),
        ("decode-text", c.call("Indexer::new(qb64)", || iview(&<TI as Indexer>::new(None, None, None, None, None, Some(&t), None)?))),
        ("decode-text-bytes", c.call("Indexer::new(qb64b)", || iview(&<TI as Indexer>::new(None, None, None, None, Some(t.as_bytes()), None, None)?))),
        ("decode-binary", c.call("Indexer::new(qb2)", || iview(&<TI as Indexer>::new(None, None, None, None, None, None, Some(&b))?))),
    ] {
        let o = match o {
            Obs::Ok(v) => Obs::Ok(norm(v)),
            x => x,
        };
        c.must_eq(rule, key, o, &wd);
    }
    if d.code != "0z" {
        c.check("index-preserved", key, wd.index == index && (d.current_only() || wd.ondex == w.ondex), || {
            format!("model disagreement {wd:?} {w:?}")
        });
    }
    if SIGER_CODES.contains(&d.code) {
        let o = c.call("Siger::new(raw)", || iview(&Siger::new_with_raw(raw, None, Some(index), ondex, Some(d.code))?));
        c.must_eq("typed-construct", key, o, &w);
        let o = c.call("Siger::new_with_qb64", || iview(&Siger::new_with_qb64(&t, None)?));
        c.must_eq("typed-decode", key, o, &wd);
        let o = c.call("Siger::new_with_qb64b", || iview(&Siger::new_with_qb64b(t.as_bytes(), None)?));
        c.must_eq("typed-decode", key, o, &wd);
        let o = c.call("Siger::new_with_qb2", || iview(&Siger::new_with_qb2(&b, None)?));
        c.must_eq("typed-decode", key, o, &wd);
    }
}
pub fn c04(run: &Run) {
    run.require(&["construct", "decode-text", "decode-text-bytes", "decode-binary", "refuses-out-of-range", "typed-construct"]);
    run.section("index pairs", 12000, |c| {
        let d = &INDEXER[c.idx as usize % INDEXER.len()];
        let edge = |r: &mut Rng, max: u64| -> u32 {
            match r.below(7) {
                0 => 0,
                1 => max as u32,
                2 => (max + 1) as u32,
                3 => [1u32, 62, 63, 64, 65, 4095, 4096, 262143, 262144, u32::MAX][r.below(10)],
                4 => (max as u32).saturating_sub(r.below(3) as u32),
                _ => (r.next() % (max + 1)) as u32,
            }
        };
        let mut index = edge(&mut c.rng, d.imax());
        if d.fs == 0 && index as u64 <= d.imax() && c.rng.chance(3, 4) {
            index = index.min(80);
        }
        let ondex = match c.rng.below(5) {
            0 | 1 => None,
            2 => Some(index),
            3 => Some(index.wrapping_add(1)),
            _ => Some(edge(&mut c.rng, if d.os == 0 { d.imax() } else { d.omax() })),
        };
        let need = if index as u64 <= d.imax() { d.rs(index as u64) } else { 64 };
        let n = match c.rng.below(10) {
            0 => c.rng.below(need.max(1)),
            1 => need + c.rng.range(1, 9),
            _ => need,
        };
        let raw = payload(&mut c.rng, n);
        c.input(format!("code={} index={index} ondex={ondex:?} len={n} raw={}", d.code, hex(&raw[..n.min(24)])));
        match iconstruct(d.code, &raw, index, ondex) {
            Some(w) => {
                c.seen("accepted code/index", &format!("{}/{index}/{ondex:?}", d.code));
                c04_good(c, d, &raw, index, ondex, &w);
            }
            None => {
                c.seen("refused code/index", &format!("{}/{index}/{ondex:?}", d.code));
                let o = c.call("Indexer::new(code,raw)", || {
                    iview(&<TI as Indexer>::new(Some(index), ondex, Some(d.code), Some(&raw), None, None, None)?)
                });
                c.refuse("refuses-out-of-range", d.code, &o);
            }
        }
    });
    run.enumerate("every index of the small codes", INDEXER.len() as u64, |c| {
        let d = &INDEXER[c.idx as usize];
        let top = d.imax().min(if d.fs == 0 { 140 } else { 4100 }) as u32;
        c.input(d.code);
        for index in 0..=top {
            let raw = vec![0xa5; d.rs(index as u64)];
            let ods: Vec<Option<u32>> = if d.os == 0 || d.current_only() {
                vec![None]
            } else {
                vec![None, Some(0), Some(d.omax() as u32), Some(index.min(d.omax() as u32)), Some((index ^ 1).min(d.omax() as u32))]
            };
            for o in ods {
                if let Some(w) = iconstruct(d.code, &raw, index, o) {
                    c04_good(c, d, &raw, index, o, &w);
                }
            }
        }
    });
    let marks = notable();
    run.enumerate("notable indices of every code", INDEXER.len() as u64, |c| {
        let d = &INDEXER[c.idx as usize];
        c.input(format!("{} notable", d.code));
        for (k, n) in marks.iter().enumerate() {
            let raw = vec![0x5a; if d.fs == 0 { (*n as usize).min(4100) * 3 } else { d.rs(0) }];
            let other = marks[(k * 7 + 3) % marks.len()] % (d.omax() as u32 + 1);
            for (i, o) in [(*n, None), (*n, Some(*n)), (1, Some(*n)), (*n, Some(0)), (*n, Some(other)), (other, Some(*n))] {
                let raw = if d.fs == 0 && i != *n { vec![0x5a; (i as usize).min(4100) * 3] } else { raw.clone() };
                match iconstruct(d.code, &raw, i, o) {
                    Some(w) => c04_good(c, d, &raw, i, o, &w),
                    None => {
                        let o = c.call("Indexer::new(code,raw)", || iview(&<TI as Indexer>::new(Some(i), o, Some(d.code), Some(&raw), None, None, None)?));
                        c.refuse("refuses-out-of-range", d.code, &o);
                    }
                }
            }
        }
    });
    run.enumerate("missing arguments", 1, |c| {
        let o = c.call("Indexer::new(raw)", || iview(&<TI as Indexer>::new(None, None, None, Some(&[0; 64]), None, None, None)?));
        c.refuse("refuses-out-of-range", "no code", &o);
        let o = c.call("Indexer::new()", || iview(&<TI as Indexer>::new(None, None, Some("A"), None, None, None, None)?));
        c.refuse("refuses-out-of-range", "no material", &o);
        let o = c.call("Indexer::new(empty)", || iview(&<TI as Indexer>::new(None, None, Some(""), Some(&[0; 64]), None, None, None)?));
        c.refuse("refuses-out-of-range", "empty code", &o);
        let o = c.call("Indexer::new(unknown)", || iview(&<TI as Indexer>::new(None, None, Some("9Z"), Some(&[0; 64]), None, None, None)?));
        c.refuse("refuses-out-of-range", "unknown code", &o);
    });
}

// ------------------------------------------------------------------ C05
fn judge_idec(c: &mut Case, key: &str, dom: &'static str, want: &Option<ISig>, o: Obs<IView>) {
    let k = format!("{dom}/{key}");
    match want {
        Some(p) => {
            c.seen("accepted codes", &format!("{dom}{}", p.code));
            let mut w = IView::of(p);
            if p.code == "0z" {
                if let Some(v) = o.as_ref() {
                    w.ondex = v.ondex;
                }
            }
            c.must_eq("accepts-canonical", &k, o, &w);
        }
        None => {
            c.refuse("refuses-non-canonical", &k, &o);
        }
    }
}
fn c05_text(c: &mut Case, t: &str) {
    c.input(t.to_string());
    let want = idecode(t.as_bytes());
    let key = t.chars().take(1).collect::<String>();
    let o = c.call("Indexer::new_with_qb64", || iview(&<TI as Indexer>::new_with_qb64(t)?));
    judge_idec(c, &key, "text", &want, o);
    let o = c.call("Indexer::new_with_qb64b", || iview(&<TI as Indexer>::new_with_qb64b(t.as_bytes())?));
    judge_idec(c, &key, "text-bytes", &want, o);
}
fn c05_bytes(c: &mut Case, b: &[u8]) {
    c.input(format!("qb2 {}", hex(&b[..b.len().min(160)])));
    let want = idecode_bin(b);
    let key = want.as_ref().map(|w| w.code.clone()).unwrap_or_default();
    let o = c.call("Indexer::new_with_qb2", || iview(&<TI as Indexer>::new_with_qb2(b)?));
    judge_idec(c, &key, "binary", &want, o);
}
/// the same strictness through the indexed signature type
fn c05_siger(c: &mut Case, t: &str, b: &[u8]) {
    c.input(format!("Siger {t} {}", hex(&b[..b.len().min(160)])));
    let fit = |p: &ISig| SIGER_CODES.contains(&p.code.as_str());
    let want = idecode(t.as_bytes()).filter(fit);
    let o = c.call("Siger(qb64)", || iview(&Siger::new_with_qb64(t, None)?));
    judge_idec(c, "Siger", "typed text", &want, o);
    let o = c.call("Siger(qb64b)", || iview(&Siger::new_with_qb64b(t.as_bytes(), None)?));
    judge_idec(c, "Siger", "typed text-bytes", &want, o);
    let want = idecode_bin(b).filter(fit);
    let o = c.call("Siger(qb2)", || iview(&Siger::new_with_qb2(b, None)?));
    judge_idec(c, "Siger", "typed binary", &want, o);
}
pub fn c05(run: &Run) {
    run.require(&["accepts-canonical", "refuses-non-canonical"]);
    run.section("indexed signature type with trailing material, and mutated", 20000, |c| {
        let p = any_isig(&mut c.rng);
        let (mut t, mut b) = (p.text.clone(), p.bin());
        if c.rng.bool() {
            for _ in 0..c.rng.below(60) {
                t.push(if c.rng.chance(1, 5) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
            }
            if c.rng.chance(1, 3) { t.push_str(&p.text); }
            let n = c.rng.below(50);
            b.extend(c.rng.bytes(n));
        } else {
            t = mutate_text(&mut c.rng, &t);
            b = mutate_bytes(&mut c.rng, &b);
        }
        c05_siger(c, &t, &b);
    });
    run.section("canonical with trailing material", 3000, |c| {
        let s = any_isig(&mut c.rng);
        let mut t = s.text.clone();
        for _ in 0..c.rng.below(9) {
            t.push(if c.rng.chance(1, 5) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
        }
        c05_text(c, &t);
        let mut b = s.bin();
        let n = c.rng.below(7);
        b.extend(c.rng.bytes(n));
        c05_bytes(c, &b);
    });
    run.section("mutated text", 40000, |c| {
        let t = any_isig(&mut c.rng).text;
        let t = mutate_text(&mut c.rng, &t);
        c05_text(c, &t);
    });
    run.section("mutated binary", 40000, |c| {
        let b = any_isig(&mut c.rng).bin();
        let b = mutate_bytes(&mut c.rng, &b);
        c05_bytes(c, &b);
    });
    run.section("pad bits, lead bytes, indices and truncations of every code", INDEXER.len() as u64 * 4, |c| {
        let d = &INDEXER[c.idx as usize % INDEXER.len()];
        let index = (c.rng.next() % (d.imax() + 1)).min(if d.fs == 0 { 9 } else { u64::MAX });
        let n = d.rs(index);
        let raw = payload(&mut c.rng, n);
        let p = iconstruct(d.code, &raw, index as u32, None).or_else(|| iconstruct(d.code, &raw, 1, None));
        let Some(p) = p else { return };
        let t = p.text.clone();
        for pos in 0..12.min(t.len()) {
            for k in 0..64 {
                let mut v = t.clone().into_bytes();
                v[pos] = B64[k];
                c05_text(c, std::str::from_utf8(&v).unwrap());
                c05_bytes(c, &b64d(&v).unwrap());
            }
        }
        for n in 0..t.len() {
            c05_text(c, &t[..n]);
        }
        let b = p.bin();
        for n in 0..b.len() {
            c05_bytes(c, &b[..n]);
        }
        for k in 1..=3 {
            if t.len() > k {
                let s = format!("{}{}", &t[..t.len() - k], "=".repeat(k));
                c05_text(c, &s);
            }
        }
        for i in 0..t.len() {
            for f in ['=', '+', 'é', '.'] {
                let mut v: Vec<char> = t.chars().collect();
                v[i] = f;
                let s: String = v.into_iter().collect();
                c05_text(c, &s);
            }
        }
    });
    run.enumerate("every string of up to three characters", 76, |c| {
        let mut abc: Vec<char> = B64.iter().map(|b| *b as char).collect();
        abc.extend(['=', '+', '/', ' ', '#', 'é', '€', '😀', '\0', '.', '"', '\n']);
        let a = abc[c.idx as usize];
        c05_text(c, &a.to_string());
        for b in abc.clone() {
            c05_text(c, &format!("{a}{b}"));
            for d in abc.clone() {
                c05_text(c, &format!("{a}{b}{d}"));
            }
        }
    });
    run.section("arbitrary text", 40000, |c| {
        let n = c.rng.below(170);
        let mut t = String::new();
        if c.rng.chance(3, 4) {
            t.push_str(c.rng.pick(INDEXER).code);
        }
        for _ in 0..n {
            t.push(if c.rng.chance(1, 60) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
        }
        c05_text(c, &t);
    });
    run.section("arbitrary bytes", 40000, |c| {
        let n = c.rng.below(130);
        let mut b = c.rng.bytes(n);
        if c.rng.bool() && n > 0 {
            // bias to two-character codes
            b[0] = 0xd0 | (b[0] & 0x0f);
        }
        c05_bytes(c, &b);
    });
}

// ------------------------------------------------------------------ C06
pub fn c06(run: &Run) {
    run.require(&["construct", "decode", "refuses-out-of-range", "refuses-malformed", "semver", "semver-refused"]);
    let good = |c: &mut Case, d: &CC, n: u64| {
        let t = cencode(d.code, n).unwrap();
        let b = b64d(t.as_bytes()).unwrap();
        let v = |k: Counter| -> anyhow::Result<(String, u32, String, Vec<u8>, Vec<u8>, usize, String)> {
            Ok((k.code(), k.count(), k.qb64()?, k.qb64b()?, k.qb2()?, k.full_size()?, k.count_as_b64(0)?))
        };
        let want = (d.code.to_string(), n as u32, t.clone(), t.clone().into_bytes(), b.clone(), t.len(), int_b64(n, d.ss).unwrap());
        let o = c.call("Counter::new_with_code_and_count", || v(Counter::new_with_code_and_count(d.code, n as u32)?));
        c.must_eq("construct", d.code, o, &want);
        let o = c.call("Counter::new(count)", || v(Counter::new(Some(n as u32), None, Some(d.code), None, None, None)?));
        c.must_eq("construct", d.code, o, &want);
        for w in [1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 20] {
            if let Some(s) = int_b64(n, w) {
                let o = c.call("Counter::new(count_b64)", || v(Counter::new(None, Some(&s), Some(d.code), None, None, None)?));
                c.must_eq("construct", d.code, o, &want);
                let o = c.call("Counter::count_as_b64", || Counter::new_with_code_and_count(d.code, n as u32)?.count_as_b64(w));
                c.must_eq("construct", "count_as_b64", o, &s);
            }
        }
        let tail = if c.rng.bool() { "" } else { "AAé" };
        let tt = format!("{t}{tail}");
        let o = c.call("Counter::new_with_qb64", || v(Counter::new_with_qb64(&tt)?));
        c.must_eq("decode", d.code, o, &want);
        let o = c.call("Counter::new_with_qb64b", || v(Counter::new_with_qb64b(tt.as_bytes())?));
        c.must_eq("decode", d.code, o, &want);
        let mut bb = b.clone();
        let k = c.rng.below(5);
        bb.extend(c.rng.bytes(k));
        let o = c.call("Counter::new_with_qb2", || v(Counter::new_with_qb2(&bb)?));
        c.must_eq("decode", d.code, o, &want);
        let o = c.call("Counter::new(qb64)", || v(Counter::new(None, None, None, None, Some(&t), None)?));
        c.must_eq("decode", d.code, o, &want);
        let o = c.call("Counter::new(qb2)", || v(Counter::new(None, None, None, None, None, Some(&b))?));
        c.must_eq("decode", d.code, o, &want);
        let o = c.call("Counter::new(qb64b)", || v(Counter::new(None, None, None, Some(t.as_bytes()), None, None)?));
        c.must_eq("decode", d.code, o, &want);
    };
    run.enumerate("every count of the two-character codes", COUNTER.len() as u64 * 64, |c| {
        let d = &COUNTER[c.idx as usize % COUNTER.len()];
        let hi = c.idx / COUNTER.len() as u64;
        c.input(format!("{} {}", d.code, hi * 64));
        for lo in 0..64 {
            good(c, d, hi * 64 + lo);
        }
    });
    let marks = notable();
    run.enumerate("notable counts of every code", COUNTER.len() as u64, |c| {
        let d = &COUNTER[c.idx as usize];
        c.input(format!("{} notable", d.code));
        for n in &marks {
            if *n as u64 <= d.max() { good(c, d, *n as u64); continue }
            let o = c.call("Counter::new_with_code_and_count", || Counter::new_with_code_and_count(d.code, *n));
            c.refuse("refuses-out-of-range", d.code, &o);
            let o = c.call("Counter::new(count)", || Counter::new(Some(*n), None, Some(d.code), None, None, None));
            c.refuse("refuses-out-of-range", d.code, &o);
            let s = int_b64(*n as u64, 6).unwrap();
            let o = c.call("Counter::new(count_b64)", || Counter::new(None, Some(&s), Some(d.code), None, None, None));
            c.refuse("refuses-out-of-range", d.code, &o);
        }
    });
    run.section("random counts of all codes", 3000, |c| {
        let (d, n) = any_counter(&mut c.rng);
        c.input(format!("{} {n}", d.code));
        good(c, d, n as u64);
    });
    run.section("counts that do not fit", 2000, |c| {
        let d = &COUNTER[c.idx as usize % COUNTER.len()];
        let over = d.max() + 1 + match c.rng.below(4) {
            0 => 0,
            1 => c.rng.below(70) as u64,
            2 => u32::MAX as u64 - d.max() - 1,
            _ => c.rng.next() % (u32::MAX as u64 - d.max()),
        };
        let over = over.min(u32::MAX as u64);
        c.input(format!("{} {over}", d.code));
        let o = c.call("Counter::new_with_code_and_count", || Counter::new_with_code_and_count(d.code, over as u32));
        c.refuse("refuses-out-of-range", d.code, &o);
        let o = c.call("Counter::new(count)", || Counter::new(Some(over as u32), None, Some(d.code), None, None, None));
        c.refuse("refuses-out-of-range", d.code, &o);
        // as base64 text, including counts far beyond 32 bits
        let mut s = String::new();
        for _ in 0..c.rng.range(1, 3) {
            s.push(B64[c.rng.range(1, 63)] as char);
        }
        for _ in 0..d.ss + c.rng.below(9) {
            s.push(B64[c.rng.below(64)] as char);
        }
        let fits = b64_wide(&s).map(|n| n <= d.max() as u128).unwrap_or(false);
        c.input(format!("{} {over} {s}", d.code));
        let o = c.call("Counter::new(count_b64)", || Counter::new(None, Some(&s), Some(d.code), None, None, None));
        if !fits {
            c.refuse("refuses-out-of-range", &format!("{} b64", d.code), &o);
        }
        let bad = format!("{}{}", c.rng.pick(FOREIGN), c.rng.pick(FOREIGN));
        let o = c.call("Counter::new(count_b64)", || Counter::new(None, Some(&bad), Some(d.code), None, None, None));
        c.refuse("refuses-malformed", "count text", &o);
    });
    let judge = |c: &mut Case, t: &str| {
        c.input(t.to_string());
        let want = cdecode(t.as_bytes());
        let o = c.call("Counter::new_with_qb64", || Counter::new_with_qb64(t).map(|k| (k.code(), k.count(), k.full_size().unwrap_or(0))));
        let o2 = c.call("Counter::new_with_qb64b", || Counter::new_with_qb64b(t.as_bytes()).map(|k| (k.code(), k.count(), k.full_size().unwrap_or(0))));
        for o in [o, o2] {
            match &want {
                Some(w) => {
                    c.must_eq("decode", "text", o, w);
                }
                None => {
                    c.refuse("refuses-malformed", "text", &o);
                }
            }
        }
    };
    let judge2 = |c: &mut Case, b: &[u8]| {
        c.input(hex(b));
        let want = cdecode_bin(b);
        let o = c.call("Counter::new_with_qb2", || Counter::new_with_qb2(b).map(|k| (k.code(), k.count(), k.full_size().unwrap_or(0) / 4 * 3)));
        match want {
            Some(w) => {
                c.must_eq("decode", "binary", o, &w);
            }
            None => {
                c.refuse("refuses-malformed", "binary", &o);
            }
        }
    };
    run.section("mutated and arbitrary text", 30000, |c| {
        let (d, n) = any_counter(&mut c.rng);
        let mut t = cencode(d.code, n as u64).unwrap();
        match c.rng.below(3) {
            0 => t = mutate_text(&mut c.rng, &t),
            1 => {
                t = "-".into();
                for _ in 0..c.rng.below(10) {
                    t.push(B64[c.rng.below(64)] as char);
                }
            }
            _ => {
                let k = c.rng.below(t.len() + 1);
                t.truncate(k);
                for _ in 0..c.rng.below(4) {
                    t.push(*c.rng.pick(FOREIGN));
                }
            }
        }
        judge(c, &t);
    });
    run.section("mutated and arbitrary binary", 30000, |c| {
        let (d, n) = any_counter(&mut c.rng);
        let b = b64d(cencode(d.code, n as u64).unwrap().as_bytes()).unwrap();
        let b = if c.rng.bool() {
            mutate_bytes(&mut c.rng, &b)
        } else {
            let k = c.rng.below(9);
            let mut v = c.rng.bytes(k);
            if !v.is_empty() {
                v[0] = 0xf8 | (v[0] & 7);
            }
            v
        };
        judge2(c, &b);
    });
    run.enumerate("every string of up to three characters", 76, |c| {
        let mut abc: Vec<char> = B64.iter().map(|b| *b as char).collect();
        abc.extend(['=', '+', '/', ' ', '#', 'é', '€', '😀', '\0', '.', '"', '\n']);
        let a = abc[c.idx as usize];
        judge(c, &a.to_string());
        for b in abc.clone() {
            judge(c, &format!("{a}{b}"));
            judge(c, &format!("-{a}{b}"));
            for d in abc.clone() {
                judge(c, &format!("-{a}{b}{d}"));
            }
        }
    });
    run.section("unknown codes", 2000, |c| {
        let mut code = String::new();
        if c.rng.chance(2, 3) {
            code.push('-');
        }
        for _ in 0..c.rng.below(5) {
            code.push(if c.rng.chance(1, 6) { *c.rng.pick(FOREIGN) } else { B64[c.rng.below(64)] as char });
        }
        if cc(&code).is_some() {
            return;
        }
        c.input(code.clone());
        let o = c.call("Counter::new_with_code_and_count", || Counter::new_with_code_and_count(&code, 1));
        c.refuse("refuses-malformed", "unknown code", &o);
    });
    run.enumerate("semantic versions", 66, |c| {
        let maj = c.idx as i64;
        for (mi, pa) in (0..66i64).flat_map(|a| (0..66i64).map(move |b| (a, b))) {
            let s = format!("{maj}.{mi}.{pa}");
            let ok = maj < 64 && mi < 64 && pa < 64;
            let o = c.call("Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s));
            let o2 = c.call("Counter::sem_ver_to_b64", || Counter::sem_ver_to_b64(maj as u8, mi as u8, pa as u8));
            for o in [o, o2] {
                if ok {
                    let w = format!("{}{}{}", B64[maj as usize] as char, B64[mi as usize] as char, B64[pa as usize] as char);
                    c.must_eq("semver", "in range", o, &w);
                } else {
                    c.refuse("semver-refused", "out of range", &o);
                }
            }
        }
        c.input(format!("{maj}.*.*"));
    });
    run.enumerate("single numbers of a semantic version", 256, |c| {
        let n = c.idx as u8;
        c.input(format!("{n}"));
        for (k, v) in [(n, 0, 0), (0, n, 0), (0, 0, n), (n, n, n), (1, n, 63), (63, 1, n)].into_iter().enumerate() {
            let w = [v.0, v.1, v.2].iter().map(|x| B64.get(*x as usize).map(|b| *b as char)).collect::<Option<String>>();
            let mut os = vec![c.call("Counter::sem_ver_to_b64", || Counter::sem_ver_to_b64(v.0, v.1, v.2))];
            for s in [format!("{}.{}.{}", v.0, v.1, v.2), format!("0{}.00{}.{}", v.0, v.1, v.2)].into_iter().take(if k < 4 { 2 } else { 1 }) {
                os.push(c.call("Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s)));
            }
            for o in os {
                match &w {
                    Some(w) => { c.must_eq("semver", "in range", o, w); }
                    None => { c.refuse("semver-refused", "out of range", &o); }
                }
            }
        }
    });
    run.enumerate("foreign characters in a semantic version", 3, |c| {
        let base = ["1.2.3", "10.0.63", "4"][c.idx as usize];
        for s in gen::injections(base) {
            // digits and points are judged elsewhere; whether a part may carry a sign that changes nothing is left open
            if s.chars().all(|x| x.is_ascii_digit() || x == '.') { continue }
            if s.split('.').any(|p| p == "-0" || p.strip_prefix('+').is_some_and(|q| q.bytes().all(|b| b.is_ascii_digit()))) { continue }
            c.input(s.clone());
            let o = c.call("Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s));
            c.refuse("semver-refused", "foreign character", &o);
        }
    });
    run.section("malformed versions", 3000, |c| {
        let n = c.rng.range(1, 5);
        let mut parts: Vec<String> = (0..n).map(|_| match c.rng.below(8) {
            0 => String::new(),
            1 => "x".into(),
            2 => "-1".into(),
            3 => "256".into(),
            4 => " 1".into(),
            5 => "99999999999999999999".into(),
            6 => "1é".into(),
            _ => c.rng.below(64).to_string(),
        }).collect();
        if c.rng.chance(1, 4) {
            parts.push("3".into());
        }
        let s = parts.join(".");
        c.input(s.clone());
        // a part that is absent or empty counts as zero
        let nums: Option<Vec<usize>> = if parts.len() > 3 { None } else {
            parts.iter().map(|p| if p.is_empty() { Some(0) } else if p.bytes().all(|b| b.is_ascii_digit()) { p.parse::<usize>().ok().filter(|n| *n < 64) } else { None }).collect()
        };
        let o = c.call("Counter::sem_ver_str_to_b64", || Counter::sem_ver_str_to_b64(&s));
        match nums {
            Some(mut v) => {
                v.resize(3, 0);
                let w: String = v.iter().map(|n| B64[*n] as char).collect();
                c.must_eq("semver", "partial", o, &w);
            }
            None => {
                c.refuse("semver-refused", "malformed", &o);
            }
        }
    });
}
fn b64_wide(s: &str) -> Option<u128> {
    let mut n = 0u128;
    for c in s.bytes() {
        n = n.checked_mul(64)? + sextet(c)? as u128;
    }
    Some(n)
}

// ------------------------------------------------------------------ C26
pub fn c26(run: &Run) {
    run.require(&["accepts-own", "refuses-foreign"]);
    let n = TYPES.len() * MATTER.len();
    run.section("types × codes × routes", n as u64 * 6, |c| {
        let i = c.idx as usize % n;
        let ty = &TYPES[i / MATTER.len()];
        let d = &MATTER[i % MATTER.len()];
        let len = if d.variable() { *c.rng.pick(&[0usize, 1, 2, 3, 4, 30, 12288, 12290]) } else { d.rs() };
        let mut raw = if c.rng.bool() { c.rng.bytes(len) } else { payload(&mut c.rng, len) };
        while ["A", "J", "Q"].contains(&d.code) && !valid_seed(d.code, &raw) {
            raw = c.rng.bytes(len);
        }
        let p = construct(d.code, &raw).unwrap();
        c.input(format!("{} {} {}", ty.name, d.code, hex(&raw[..raw.len().min(32)])));
        c.seen("type×code", &format!("{}/{}", ty.name, p.code));
        let own = ty.codes.contains(&p.code.as_str());
        let key = format!("{}/{}", ty.name, p.code);
        let b = p.bin();
        let obs = [
            ("raw", c.call("typed(raw)", || (ty.raw)(d.code, &raw))),
            ("qb64", c.call("typed(qb64)", || (ty.qb64)(&p.text))),
            ("qb64b", c.call("typed(qb64b)", || (ty.qb64b)(p.text.as_bytes()))),
            ("qb2", c.call("typed(qb2)", || (ty.qb2)(&b))),
            ("new raw", c.call("typed new(raw)", || (ty.gen)(Some(d.code), Some(&raw), None, None, None))),
            ("new qb64", c.call("typed new(qb64)", || (ty.gen)(None, None, None, Some(&p.text), None))),
            ("new qb64b", c.call("typed new(qb64b)", || (ty.gen)(None, None, Some(p.text.as_bytes()), None, None))),
            ("new qb2", c.call("typed new(qb2)", || (ty.gen)(None, None, None, None, Some(&b)))),
        ];
        for (route, o) in obs {
            let k = format!("{key}/{route}");
            if own {
                c.must_eq("accepts-own", &k, o, &View::of(&p));
            } else {
                c.refuse("refuses-foreign", &k, &o);
            }
        }
        // a code argument of the type's own list must not smuggle a foreign encoding in
        if !own {
            let lure = *c.rng.pick(ty.codes);
            let o = c.call("typed new(code,qb64)", || (ty.gen)(Some(lure), None, None, Some(&p.text), None));
            c.refuse("refuses-foreign", &format!("{key}/lured qb64"), &o);
            let o = c.call("typed new(code,qb64b)", || (ty.gen)(Some(lure), None, Some(p.text.as_bytes()), None, None));
            c.refuse("refuses-foreign", &format!("{key}/lured qb64b"), &o);
            let o = c.call("typed new(code,qb2)", || (ty.gen)(Some(lure), None, None, None, Some(&b)));
            c.refuse("refuses-foreign", &format!("{key}/lured qb2"), &o);
            // nor does its own code, nor what comes after it
            let own_code = *c.rng.pick(&[Some(p.code.as_str()), None, Some(lure)]);
            let more = if c.rng.bool() { c.rng.pick(MATTER).code.repeat(3) } else { String::new() };
            let (text, mut bin) = (format!("{}{more}", p.text), b.clone());
            bin.extend(more.bytes());
            let o = c.call("typed new(code,qb64)", || (ty.gen)(own_code, None, None, Some(&text), None));
            c.refuse("refuses-foreign", &format!("{key}/own qb64"), &o);
            let o = c.call("typed new(code,qb64b)", || (ty.gen)(own_code, None, Some(text.as_bytes()), None, None));
            c.refuse("refuses-foreign", &format!("{key}/own qb64b"), &o);
            let o = c.call("typed new(code,qb2)", || (ty.gen)(own_code, None, None, None, Some(&bin)));
            c.refuse("refuses-foreign", &format!("{key}/own qb2"), &o);
        }
    });
    run.section("indexed signatures × codes × routes", INDEXER.len() as u64 * 40, |c| {
        let d = &INDEXER[c.idx as usize % INDEXER.len()];
        let top = if c.rng.bool() { 60 } else { 5000 };
        let index = (c.rng.next() % (d.imax() + 1)).min(if d.fs == 0 { 60 } else { top }) as u32;
        let raw = c.rng.bytes(d.rs(index as u64));
        let Some(p) = iconstruct(d.code, &raw, index, None) else { return };
        c.input(format!("Siger {} {index} {}", d.code, hex(&raw[..raw.len().min(24)])));
        let own = SIGER_CODES.contains(&d.code);
        let b = p.bin();
        let obs = [
            c.call("Siger(raw)", || iview(&Siger::new_with_raw(&raw, None, Some(index), None, Some(d.code))?).map(|v| v.code)),
            c.call("Siger(qb64)", || iview(&Siger::new_with_qb64(&p.text, None)?).map(|v| v.code)),
            c.call("Siger(qb64b)", || iview(&Siger::new_with_qb64b(p.text.as_bytes(), None)?).map(|v| v.code)),
            c.call("Siger(qb2)", || iview(&Siger::new_with_qb2(&b, None)?).map(|v| v.code)),
        ];
        for (i, o) in obs.into_iter().enumerate() {
            let k = format!("Siger/{}/{i}", d.code);
            if own {
                c.must_eq("accepts-own", &k, o, &d.code.to_string());
            } else {
                c.refuse("refuses-foreign", &k, &o);
            }
        }
    });
    // a signature that is given its key must still be of a signature code, and keeps the key it was given
    run.section("signatures with their keys", MATTER.len() as u64 * 60, |c| {
        let d = &MATTER[c.idx as usize % MATTER.len()];
        let len = if d.variable() { *c.rng.pick(&[0usize, 1, 2, 3, 64, 65]) } else { d.rs() };
        let raw = c.rng.bytes(len);
        let p = construct(d.code, &raw).unwrap();
        let kinds: Vec<_> = MATTER.iter().filter(|k| KEYS.contains(&k.code)).collect();
        let k = *c.rng.pick(&kinds);
        let kraw = c.rng.bytes(k.rs());
        let key = construct(k.code, &kraw).unwrap();
        c.input(format!("Cigar {} {} with key {}", p.code, hex(&raw[..raw.len().min(32)]), key.text));
        let Obs::Ok(v) = c.call("Verfer::new", || Verfer::new(None, None, None, Some(&key.text), None)) else { return };
        let (v, b) = (&v, p.bin());
        let own = SIGS.contains(&p.code.as_str());
        let view = |g: Cigar| -> anyhow::Result<String> { Ok(format!("{} {}", g.qb64()?, g.verfer().qb64()?)) };
        let obs = [
            ("raw", c.call("Cigar(raw, key)", || view(Cigar::new_with_raw(&raw, Some(v), Some(d.code))?))),
            ("qb64", c.call("Cigar(qb64, key)", || view(Cigar::new_with_qb64(&p.text, Some(v))?))),
            ("qb64b", c.call("Cigar(qb64b, key)", || view(Cigar::new_with_qb64b(p.text.as_bytes(), Some(v))?))),
            ("qb2", c.call("Cigar(qb2, key)", || view(Cigar::new_with_qb2(&b, Some(v))?))),
            ("new raw", c.call("Cigar::new(raw, key)", || view(Cigar::new(Some(v), Some(d.code), Some(&raw), None, None, None)?))),
            ("new qb64", c.call("Cigar::new(qb64, key)", || view(Cigar::new(Some(v), None, None, None, Some(&p.text), None)?))),
            ("new qb64b", c.call("Cigar::new(qb64b, key)", || view(Cigar::new(Some(v), None, None, Some(p.text.as_bytes()), None, None)?))),
            ("new qb2", c.call("Cigar::new(qb2, key)", || view(Cigar::new(Some(v), None, None, None, None, Some(&b))?))),
        ];
        let want = format!("{} {}", p.text, key.text);
        for (route, o) in obs {
            let at = format!("Cigar with key/{}/{route}", p.code);
            if own { c.must_eq("accepts-own", &at, o, &want); } else { c.refuse("refuses-foreign", &at, &o); }
        }
        // an indexed signature alike
        let e = c.rng.pick(INDEXER);
        let index = c.rng.below(60) as u32;
        let raw = c.rng.bytes(e.rs(index as u64));
        let Some(q) = iconstruct(e.code, &raw, index, None) else { return };
        let b = q.bin();
        c.input(format!("Siger {} {index} {} with key {}", e.code, hex(&raw[..raw.len().min(32)]), key.text));
        let view = |g: Siger| -> anyhow::Result<String> { Ok(format!("{} {}", g.qb64()?, g.verfer().qb64()?)) };
        let obs = [
            ("raw", c.call("Siger(raw, key)", || view(Siger::new_with_raw(&raw, Some(v), Some(index), None, Some(e.code))?))),
            ("qb64", c.call("Siger(qb64, key)", || view(Siger::new_with_qb64(&q.text, Some(v))?))),
            ("qb64b", c.call("Siger(qb64b, key)", || view(Siger::new_with_qb64b(q.text.as_bytes(), Some(v))?))),
            ("qb2", c.call("Siger(qb2, key)", || view(Siger::new_with_qb2(&b, Some(v))?))),
        ];
        let want = format!("{} {}", q.text, key.text);
        for (route, o) in obs {
            let at = format!("Siger with key/{}/{route}", e.code);
            if SIGER_CODES.contains(&e.code) { c.must_eq("accepts-own", &at, o, &want); } else { c.refuse("refuses-foreign", &at, &o); }
        }
    });
    run.section("digests from content", 400, |c| {
        let d = c.rng.pick(MATTER);
        let own = DIGESTS.contains(&d.code);
        c.input(format!("Diger ser {}", d.code));
        let ser = c.rng.bytes(20);
        let o = c.call("Diger::new_with_ser", || view(&Diger::new_with_ser(&ser, Some(d.code))?).map(|v| v.code));
        if own {
            c.must_eq("accepts-own", "Diger/ser", o, &d.code.to_string());
        } else {
            c.refuse("refuses-foreign", "Diger/ser", &o);
        }
        let o = c.call("Signer::new_with_defaults", || view(&keride::signing::Signer::new_with_defaults(None, Some(d.code))?).map(|v| v.code));
        if ["A", "J", "Q"].contains(&d.code) {
            c.must_eq("accepts-own", "Signer/random", o, &d.code.to_string());
        } else {
            c.refuse("refuses-foreign", "Signer/random", &o);
        }
    });
}
