//! C27: released memory holds no secret.
use crate::fw::*;
use crate::lib_api::TM;
use crate::model::*;
use crate::p_cesr::valid_seed;
use crate::spy::*;
use keride::cesr::*;
use keride::signify::creating::{monitor_randy, SaltyCreator};
use keride::signing::Signer;

const RAW_WIN: usize = 8;
const TEXT_WIN: usize = 11;
/// what must not be found
struct Needle {
    wins: Vec<(&'static str, Vec<u8>)>,
}
fn needle(code: &str, raw: &[u8]) -> Needle {
    needle_of(raw, &qualify(code, raw)[code.len() + 1..])
}
fn needle_of(raw: &[u8], text: &str) -> Needle {
    let mut wins = vec![];
    for w in raw.windows(RAW_WIN) {
        let mut d = w.to_vec();
        d.sort();
        d.dedup();
        if d.len() >= 6 { wins.push(("raw", w.to_vec())) }
    }
    for w in text.as_bytes().windows(TEXT_WIN) {
        let mut d = w.to_vec();
        d.sort();
        d.dedup();
        if d.len() >= 6 { wins.push(("text", w.to_vec())) }
    }
    Needle { wins }
}
fn find(n: &Needle, rel: &Released) -> Option<(&'static str, String)> {
    let mut first: [Vec<usize>; 256] = std::array::from_fn(|_| vec![]);
    for (i, (_, w)) in n.wins.iter().enumerate() { first[w[0] as usize].push(i) }
    for b in &rel.blocks {
        for at in 0..b.len().saturating_sub(RAW_WIN - 1) {
            for &i in &first[b[at] as usize] {
                let (k, w) = &n.wins[i];
                if b[at..].starts_with(w) {
                    return Some((k, format!("a released block of {} bytes holds {} bytes of the secret's {k} form from offset {at}: {}", b.len(), w.len(), short(&format!("{:02x?}", &b[at..(at + 48).min(b.len())])))));
                }
            }
        }
    }
    None
}
fn judge(c: &mut Case, rule: &'static str, op: &str, rel: &Released, needles: &[&Needle]) {
    c.judge(rule);
    *c.st.events.entry(("memory block", "released")).or_default() += rel.count;
    c.seen("operation and blocks released", &format!("{op} {}", rel.count));
    if rel.skipped > 0 { *c.st.events.entry(("memory block", "only its ends recorded (larger than 256 KiB)")).or_default() += rel.skipped; }
    for n in needles {
        if let Some((k, d)) = find(n, rel) {
            c.violation(format!("{rule}|{op}|{k}"), format!("{op}: {d}"));
        }
    }
}
/// one watched operation; its value lives on
fn watch<T>(c: &mut Case, rule: &'static str, api: &'static str, needles: &[&Needle], f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> {
    let mut rel = Released::default();
    let o = c.call(api, || record(&mut rel, f));
    let r = match o { Obs::Ok(t) => Some(t), _ => None };
    if r.is_some() { judge(c, rule, api, &rel, needles); }
    r
}
fn seed_raw(r: &mut Rng, code: &str) -> Vec<u8> {
    loop {
        let v = r.bytes(32);
        if valid_seed(code, &v) { return v }
    }
}
fn drop_watched<T>(c: &mut Case, op: &'static str, needles: &[&Needle], x: T) {
    let mut rel = Released::default();
    let _ = c.call(op, || { record(&mut rel, || drop(x)); Ok(()) });
    judge(c, "drop", op, &rel, needles);
}
fn signer_by(raw: &[u8], code: &str, way: usize, t: Option<bool>) -> (&'static str, Box<dyn FnOnce() -> anyhow::Result<Signer>>) {
    let (raw, code) = (raw.to_vec(), code.to_string());
    let text = qualify(&code, &raw);
    let bin = b64d(text.as_bytes()).unwrap();
    // arguments are owned by the closures' environments, which are leaked: only the library's own blocks are judged
    let raw: &'static [u8] = Box::leak(raw.into_boxed_slice());
    let code: &'static str = Box::leak(code.into_boxed_str());
    let text: &'static str = Box::leak(text.into_boxed_str());
    let bin: &'static [u8] = Box::leak(bin.into_boxed_slice());
    match way % 8 {
        0 => ("Signer::new_with_raw", Box::new(move || Signer::new_with_raw(raw, t, Some(code)))),
        1 => ("Signer::new_with_qb64", Box::new(move || Signer::new_with_qb64(text, t))),
        2 => ("Signer::new_with_qb64b", Box::new(move || Signer::new_with_qb64b(text.as_bytes(), t))),
        3 => ("Signer::new_with_qb2", Box::new(move || Signer::new_with_qb2(bin, t))),
        4 => ("Signer::new(raw)", Box::new(move || Signer::new(t, Some(code), Some(raw), None, None, None))),
        5 => ("Signer::new(qb64)", Box::new(move || Signer::new(t, None, None, None, Some(text), None))),
        6 => ("Signer::new(qb64b)", Box::new(move || Signer::new(t, None, None, Some(text.as_bytes()), None, None))),
        _ => ("Signer::new(qb2)", Box::new(move || Signer::new(t, None, None, None, None, Some(bin)))),
    }
}
fn salter_by(raw: &[u8], way: usize, tier: &'static str) -> (&'static str, Box<dyn FnOnce() -> anyhow::Result<Salter>>) {
    let text = qualify("0A", raw);
    let bin: &'static [u8] = Box::leak(b64d(text.as_bytes()).unwrap().into_boxed_slice());
    let text: &'static str = Box::leak(text.into_boxed_str());
    let raw: &'static [u8] = Box::leak(raw.to_vec().into_boxed_slice());
    let t = Some(tier);
    match way % 5 {
        0 => ("Salter::new_with_raw", Box::new(move || Salter::new_with_raw(raw, None, t))),
        1 => ("Salter::new_with_qb64", Box::new(move || Salter::new_with_qb64(text, t))),
        2 => ("Salter::new_with_qb64b", Box::new(move || Salter::new_with_qb64b(text.as_bytes(), t))),
        3 => ("Salter::new_with_qb2", Box::new(move || Salter::new_with_qb2(bin, t))),
        _ => ("Salter::new", Box::new(move || Salter::new(t, Some("0A"), Some(raw), None, None, None))),
    }
}
/// every use of a signer that does not consume it
fn use_signer(c: &mut Case, s: &Signer, n: &Needle) {
    let ns = &[n];
    let m = { let k = if c.rng.chance(1, 30) { let e = c.rng.range(7, 17); c.rng.range(1 << (e - 1), 1 << e) } else { c.rng.below(90) }; c.rng.bytes(k) };
    let mut at = || if c.rng.chance(1, 12) { 1u32 << c.rng.below(24) } else { c.rng.below(100) as u32 };
    let (i, o) = (at(), at());
    let only = c.rng.bool();
    match c.rng.below(10) {
        0 => { watch(c, "encode", "Signer.qb64", ns, || s.qb64()); }
        1 => { watch(c, "encode", "Signer.qb64b", ns, || s.qb64b()); }
        2 => { watch(c, "encode", "Signer.qb2", ns, || s.qb2()); }
        3 => { watch(c, "use", "Signer.sign_unindexed", ns, || s.sign_unindexed(&m)); }
        4 | 5 => { watch(c, "use", "Signer.sign_indexed", ns, || s.sign_indexed(&m, only, i, if only { None } else { Some(o) })); }
        6 => { watch(c, "use", "Signer.verfer", ns, || Ok(s.verfer())); }
        7 => { watch(c, "use", "Signer.transferable", ns, || Ok((s.transferable(), s.code(), s.size(), s.full_size()?, s.digestive()))); }
        8 => { let t = s.clone(); watch(c, "use", "Signer.eq", ns, || Ok(&t == s)); drop_watched(c, "drop of a cloned signer", ns, t); }
        _ => { let t = watch(c, "use", "Signer.clone", ns, || Ok(s.clone())); if let Some(t) = t { drop_watched(c, "drop of a cloned signer", ns, t); } }
    }
}
fn use_salter(c: &mut Case, s: &Salter, n: &Needle) {
    let ns = &[n];
    let path = { let k = if c.rng.chance(1, 30) { c.rng.range(20, 20000) } else { c.rng.range(0, 20) }; crate::gen::b64n(&mut c.rng, k) };
    let code = *c.rng.pick(&["A", "J", "Q"]);
    let temp = Some(true);
    match c.rng.below(9) {
        0 => { watch(c, "encode", "Salter.qb64", ns, || s.qb64()); }
        1 => { watch(c, "encode", "Salter.qb64b", ns, || s.qb64b()); }
        2 => { watch(c, "encode", "Salter.qb2", ns, || s.qb2()); }
        3 => { let size = if c.rng.chance(1, 10) { c.rng.range(65, 20000) } else { c.rng.range(4, 64) }; watch(c, "use", "Salter.stretch", ns, || s.stretch(Some(size), Some(&path), None, temp)); }
        4 | 5 => {
            let mut rel = Released::default();
            let o = c.call("Salter.signer", || record(&mut rel, || s.signer(Some(code), None, Some(&path), None, temp)));
            if let Obs::Ok(x) = o {
                let k = needle(code, &x.raw());
                judge(c, "use", "Salter.signer", &rel, &[n, &k]);
                use_signer(c, &x, &k);
                drop_watched(c, "drop of a stretched signer", &[n, &k], x);
            }
        }
        6 => {
            let mut rel = Released::default();
            let k = if c.rng.chance(1, 60) { c.rng.range(7, 80) } else { c.rng.range(1, 6) };
            let o = c.call("Salter.signers", || record(&mut rel, || s.signers(Some(k), None, Some(&path), Some(code), None, None, temp)));
            if let Obs::Ok(x) = o {
                let mut all: Vec<Needle> = x.iter().map(|x| needle(code, &x.raw())).collect();
                all.push(needle("0A", &s.raw()));
                let all: Vec<&Needle> = all.iter().collect();
                judge(c, "use", "Salter.signers", &rel, &all);
                drop_watched(c, "drop of a list of signers", &all, x);
            }
        }
        7 => { let t = s.clone(); watch(c, "use", "Salter.eq", ns, || Ok(&t == s)); drop_watched(c, "drop of a cloned salter", ns, t); }
        _ => { watch(c, "use", "Salter.tier", ns, || Ok((s.tier(), s.code(), s.size(), s.full_size()?))); }
    }
}
enum Live {
    Sg(Signer, Needle),
    Sl(Salter, Needle),
    Cr(SaltyCreator, Needle),
}
pub fn c27(run: &Run) {
    clean_memory();
    run.require(&["drop", "encode", "decode", "use", "fresh", "create", "recorder"]);
    // the recorder itself must see what a careless program releases
    run.section("recorder", 60, |c| {
        let raw = c.rng.bytes(32);
        let n = needle("A", &raw);
        let mut rel = Released::default();
        let text = qualify("A", &raw);
        let kind = c.idx % 4;
        let want = ["raw", "raw", "text", "none"][kind as usize];
        let _ = c.call("careless program", || { record(&mut rel, || match kind {
            0 => drop(raw.to_vec()),
            1 => { let mut v = raw.to_vec(); v.reserve(100); v.iter_mut().for_each(|x| *x = 0); }
            2 => drop(text.clone()),
            _ => { let mut v = raw.to_vec(); v.iter_mut().for_each(|x| *x = 0); std::hint::black_box(&v); }
        }); Ok(()) });
        let got = find(&n, &rel).map(|x| x.0).unwrap_or("none");
        c.check("recorder", "", got == want, || format!("the recorder found {got} instead of {want}"));
    });
    run.section("signers", 12000, |c| {
        let code = *c.rng.pick(&["A", "J", "Q"]);
        let raw = seed_raw(&mut c.rng, code);
        let n = needle(code, &raw);
        let way = c.rng.below(8);
        let t = *c.rng.pick(&[None, Some(true), Some(false)]);
        let (api, f) = signer_by(&raw, code, way, t);
        c.input(format!("{api} {code} {raw:02x?}"));
        let Some(s) = watch(c, "decode", api, &[&n], f) else { return };
        for _ in 0..c.rng.range(1, 4) { use_signer(c, &s, &n); }
        match c.rng.below(6) {
            0 => drop_watched(c, "drop of a boxed signer", &[&n], Box::new(s)),
            1 => drop_watched(c, "drop of a list of signers", &[&n], vec![s.clone(), s]),
            2 => { // replaced by another value
                let mut o = Some(s);
                let mut rel = Released::default();
                let _ = c.call("drop of a replaced signer", || { record(&mut rel, || o = None); Ok(()) });
                judge(c, "drop", "drop of a replaced signer", &rel, &[&n]);
            }
            3 => { // on another thread
                let rel = std::thread::spawn(move || { let mut rel = Released::default(); record(&mut rel, || drop(s)); rel }).join().unwrap();
                judge(c, "drop", "drop on another thread", &rel, &[&n]);
            }
            4 => { // while unwinding
                let mut rel = Released::default();
                record(&mut rel, || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _s = s; std::panic::resume_unwind(Box::new(1)); })); });
                judge(c, "drop", "drop while unwinding", &rel, &[&n]);
            }
            _ => drop_watched(c, "drop of a signer", &[&n], s),
        }
    });
    run.section("fresh", 6000, |c| {
        let code = *c.rng.pick(&["A", "J", "Q"]);
        let mut rel = Released::default();
        match c.rng.below(4) {
            0 => {
                let o = c.call("Salter::new_with_defaults", || record(&mut rel, || Salter::new_with_defaults(Some("min"))));
                let Obs::Ok(s) = o else { return };
                let n = needle("0A", &s.raw());
                judge(c, "fresh", "Salter::new_with_defaults", &rel, &[&n]);
                use_salter(c, &s, &n);
                drop_watched(c, "drop of a fresh salter", &[&n], s);
            }
            1 => {
                let k = c.rng.range(1, 5) as u16;
                let o = c.call("RandyCreator.create", || Ok(record(&mut rel, || monitor_randy(None, Some(k), Some(code), None))));
                let Obs::Ok(x) = o else { return };
                let all: Vec<Needle> = x.iter().map(|x| needle(code, &x.raw())).collect();
                let all: Vec<&Needle> = all.iter().collect();
                judge(c, "fresh", "RandyCreator.create", &rel, &all);
                drop_watched(c, "drop of a list of signers", &all, x);
            }
            2 => {
                // a creator made without a salt holds a fresh one: learn it from the keys it makes
                let o = c.call("SaltyCreator::new", || record(&mut rel, || SaltyCreator::new(None, None, Some("min"), None)));
                let Obs::Ok(sc) = o else { return };
                let o = c.call("SaltyCreator.create", || Ok(record(&mut rel, || sc.create(None, Some(2), Some(code), None, None, None, None, None, true))));
                let Obs::Ok(x) = o else { return };
                let all: Vec<Needle> = x.iter().map(|x| needle(code, &x.raw())).collect();
                let all: Vec<&Needle> = all.iter().collect();
                judge(c, "create", "SaltyCreator.create", &rel, &all);
                let mut rel = Released::default();
                let _ = c.call("drop of a creator", || { record(&mut rel, || { drop(sc); drop(x) }); Ok(()) });
                judge(c, "drop", "drop of a creator", &rel, &all);
            }
            _ => {
                let o = c.call("Signer::new_with_defaults", || record(&mut rel, || Signer::new_with_defaults(None, Some(code))));
                let Obs::Ok(s) = o else { return };
                let n = needle(code, &s.raw());
                judge(c, "fresh", "Signer::new_with_defaults", &rel, &[&n]);
                use_signer(c, &s, &n);
                drop_watched(c, "drop of a fresh signer", &[&n], s);
            }
        }
    });
    run.section("salters", 8000, |c| {
        let raw = c.rng.bytes(16);
        let n = needle("0A", &raw);
        let way = c.rng.below(5);
        let (api, f) = salter_by(&raw, way, "min");
        c.input(format!("{api} {raw:02x?}"));
        let Some(s) = watch(c, "decode", api, &[&n], f) else { return };
        for _ in 0..c.rng.range(1, 4) { use_salter(c, &s, &n); }
        if c.rng.bool() { drop_watched(c, "drop of a salter", &[&n], s) } else { drop_watched(c, "drop of a list of salters", &[&n], vec![s.clone(), s]) }
    });
    run.section_exact("salters at their own cost", 9, 3, |c| {
        let raw = c.rng.bytes(16);
        let n = needle("0A", &raw);
        let tier = if c.idx < 6 { "low" } else { "med" };
        let Ok(s) = Salter::new_with_raw(&raw, None, Some(tier)) else { return };
        let code = ["A", "J", "Q"][c.idx as usize % 3];
        c.input(format!("{tier} {code} {raw:02x?}"));
        if c.idx % 2 == 0 { watch(c, "use", "Salter.stretch", &[&n], || s.stretch(None, Some("x"), None, None)); }
        let mut rel = Released::default();
        let o = c.call("Salter.signers", || record(&mut rel, || s.signers(Some(2), None, Some("y"), Some(code), None, None, if tier == "low" { None } else { Some(false) })));
        let Obs::Ok(x) = o else { return };
        let mut all: Vec<Needle> = x.iter().map(|x| needle(code, &x.raw())).collect();
        all.push(n);
        let all: Vec<&Needle> = all.iter().collect();
        judge(c, "use", "Salter.signers", &rel, &all);
        drop_watched(c, "drop of a list of signers", &all, x);
        drop_watched(c, "drop of a salter", &all, s);
    });
    run.section("creators", 4000, |c| {
        let raw = c.rng.bytes(16);
        let n = needle("0A", &raw);
        let text: &'static str = Box::leak(qualify("0A", &raw).into_boxed_str());
        let stem = c.rng.bool().then_some("stem");
        c.input(format!("{raw:02x?}"));
        let made = if c.rng.bool() { watch(c, "create", "SaltyCreator::new(salt)", &[&n], || SaltyCreator::new(Some(text), stem, Some("min"), None)) } else {
            let Ok(s) = Salter::new_with_raw(&raw, None, Some("min")) else { return };
            watch(c, "create", "SaltyCreator::new(salter)", &[&n], move || SaltyCreator::new(None, stem, None, Some(s)))
        };
        let Some(sc) = made else { return };
        for _ in 0..c.rng.range(1, 2) {
            let codes: Vec<&str> = (0..c.rng.below(4)).map(|_| *c.rng.pick(&["A", "J", "Q"])).collect();
            let mut rel = Released::default();
            let (cc, cnt, code) = (codes.clone(), c.rng.range(1, 3) as u16, *c.rng.pick(&["A", "J", "Q"]));
            let o = c.call("SaltyCreator.create", || Ok(record(&mut rel, || sc.create(if cc.is_empty() { None } else { Some(cc) }, Some(cnt), Some(code), None, None, None, Some("s"), None, true))));
            let Obs::Ok(x) = o else { return };
            let mut all: Vec<Needle> = x.iter().map(|x| needle(&x.code(), &x.raw())).collect();
            all.push(needle("0A", &raw));
            let all: Vec<&Needle> = all.iter().collect();
            judge(c, "create", "SaltyCreator.create", &rel, &all);
            drop_watched(c, "drop of a list of signers", &all, x);
        }
        drop_watched(c, "drop of a creator", &[&n], sc);
    });
    // any code carries secrets: seeds, salts, encrypted or variable-size material
    run.section("forms", 12000, |c| {
        let m = MATTER[c.idx as usize % MATTER.len()];
        let len = if m.variable() { *c.rng.pick(&[16usize, 17, 18, 32, 33, 34, 100, 1000, 5000, 12285, 12288]) } else { m.rs() };
        if len < 16 { return }
        let raw = c.rng.bytes(len);
        c.input(format!("{} {}", m.code, short(&format!("{raw:02x?}"))));
        let Some(p) = construct(m.code, &raw) else { return };
        let bin = p.bin();
        let n = needle_of(&raw[..raw.len().min(64)], &p.text[9..p.text.len().min(90)]);
        let ns = &[&n];
        let x = match c.rng.below(4) {
            0 => watch(c, "decode", "Matter::new_with_qb64", ns, || TM::new_with_qb64(&p.text)),
            1 => watch(c, "decode", "Matter::new_with_qb64b", ns, || TM::new_with_qb64b(p.text.as_bytes())),
            2 => watch(c, "decode", "Matter::new_with_qb2", ns, || TM::new_with_qb2(&bin)),
            _ => watch(c, "decode", "Matter::new_with_code_and_raw", ns, || TM::new_with_code_and_raw(m.code, &raw)),
        };
        let Some(x) = x else { return };
        watch(c, "encode", "Matter.qb64", ns, || x.qb64());
        watch(c, "encode", "Matter.qb64b", ns, || x.qb64b());
        watch(c, "encode", "Matter.qb2", ns, || x.qb2());
    });
    // objects alive together, used and dropped in any order
    run.section("histories", 1500, |c| {
        let mut live: Vec<Live> = vec![];
        for _ in 0..c.rng.range(5, 40) {
            match c.rng.below(7) {
                0 => { let code = *c.rng.pick(&["A", "J", "Q"]); let raw = seed_raw(&mut c.rng, code); let n = needle(code, &raw); let w = c.rng.below(8); let (api, f) = signer_by(&raw, code, w, None); if let Some(s) = watch(c, "decode", api, &[&n], f) { live.push(Live::Sg(s, n)); } }
                1 => { let raw = c.rng.bytes(16); let n = needle("0A", &raw); let w = c.rng.below(5); let (api, f) = salter_by(&raw, w, "min"); if let Some(s) = watch(c, "decode", api, &[&n], f) { live.push(Live::Sl(s, n)); } }
                2 => { let k = c.rng.below(live.len().max(1)); if let Some(Live::Sl(s, _)) = live.get(k) { let (s2, n) = (s.clone(), needle("0A", &s.raw())); if let Some(x) = watch(c, "create", "SaltyCreator::new(salter)", &[&n], move || SaltyCreator::new(None, None, None, Some(s2))) { live.push(Live::Cr(x, n)); } } }
                3 => { let k = c.rng.below(live.len().max(1)); match live.get(k) { Some(Live::Sg(s, n)) => use_signer(c, s, n), Some(Live::Sl(s, n)) => use_salter(c, s, n), _ => {} } }
                4 => { let k = c.rng.below(live.len().max(1)); if let Some(Live::Sg(s, _)) = live.get(k) { let n = needle(&s.code(), &s.raw()); let t = s.clone(); live.push(Live::Sg(t, n)); } }
                _ => if !live.is_empty() {
                    let k = c.rng.below(live.len());
                    match live.swap_remove(k) {
                        Live::Sg(s, n) => drop_watched(c, "drop of a signer", &[&n], s),
                        Live::Sl(s, n) => drop_watched(c, "drop of a salter", &[&n], s),
                        Live::Cr(s, n) => drop_watched(c, "drop of a creator", &[&n], s),
                    }
                },
            }
        }
        let mut rel = Released::default();
        let ns: Vec<Needle> = live.iter().map(|l| match l { Live::Sg(s, _) => needle(&s.code(), &s.raw()), Live::Sl(s, _) => needle("0A", &s.raw()), Live::Cr(_, n) => Needle { wins: n.wins.clone() } }).collect();
        let objs: Vec<Box<dyn std::any::Any>> = live.into_iter().map(|l| match l { Live::Sg(s, n) => { Box::leak(Box::new(n)); Box::new(s) as Box<dyn std::any::Any> } Live::Sl(s, n) => { Box::leak(Box::new(n)); Box::new(s) } Live::Cr(s, n) => { Box::leak(Box::new(n)); Box::new(s) } }).collect();
        let _ = c.call("drop of everything", || { record(&mut rel, || drop(objs)); Ok(()) });
        let all: Vec<&Needle> = ns.iter().collect();
        judge(c, "drop", "drop of everything", &rel, &all);
    });
}
