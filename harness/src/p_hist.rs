//! C25: families of calls that share most of their arguments; every call is followed by every other.
use crate::fw::*;
use crate::gen;
use crate::lib_api::{iview, view, TI, TM};
use crate::model::*;
use crate::ops::Out;
use anyhow::Result;
use keride::cesr::common::{deversify, sizeify, sniff, versify, Version};
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use serde_json::json;

type F = Box<dyn Fn() -> Result<String> + Send + Sync>;
pub struct Fam {
    pub name: &'static str,
    pub calls: Vec<(String, F)>,
}
fn keep<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub fn run_call(f: &F) -> Out {
    match guarded(f) {
        Ok(Ok(s)) => Out::Ok(fnv(s.as_bytes())),
        Ok(Err(e)) => Out::Err(fnv(e.to_string().as_bytes())),
        Err((m, l)) => Out::Panic(m, l),
    }
}
/// The families for a seed. Objects are built here; the calls only use them.
pub fn families(seed: u64) -> Vec<Fam> {
    let mut r = Rng::new(seed ^ 0x51ab);
    let r = &mut r;
    let mut fams: Vec<Fam> = vec![];
    macro_rules! fam { ($name:literal, $v:ident, $body:block) => {{ let mut $v: Vec<(String, F)> = vec![]; $body; fams.push(Fam { name: $name, calls: $v }); }} }
    macro_rules! call { ($v:ident, $d:expr, $f:expr) => { $v.push(($d, Box::new($f))) } }
    let docs: Vec<serde_json::Value> = {
        let a = crate::p_docs::inception(r, "D");
        let mut b = a.clone();
        b["s"] = json!("1");
        let mut c = a.clone();
        c["d"] = json!("");
        let mut d = a.clone();
        d["a"] = json!([{"d": ""}, 1]);
        let e = json!({"v": "KERI10JSON000000_", "t": "icp", "i": "", "k": [], "d": ""});
        vec![a, b, c, d, e, crate::p_docs::event(r).0, crate::p_docs::credential(r)]
    };
    let vals: Vec<&'static Value> = docs.iter().map(|d| keep(gen::keride(d))).collect();
    let b16: Vec<Vec<u8>> = (0..2).map(|_| r.bytes(16)).collect();
    let sers: Vec<&'static Vec<u8>> = { let a = r.bytes(40); let mut b = a.clone(); b[39] ^= 1; let c = a[..39].to_vec(); vec![keep(a), keep(b), keep(c), keep(vec![])] };

    fam!("stretch", v, {
        for (i, s) in b16.iter().enumerate() {
            let s = keep(Salter::new_with_raw(s, None, Some("min")).unwrap());
            for path in ["", "p", "q", "p0"] { for size in [32usize, 64, 16, 33] {
                call!(v, format!("stretch salt {i} {path:?} {size}"), move || Ok(hex(&s.stretch(Some(size), Some(path), None, Some(true))?)));
            } }
            for code in ["A", "J", "Q"] { for (path, tr) in [("p", true), ("p", false), ("q", true)] {
                call!(v, format!("signer salt {i} {path:?} {code} {tr}"), move || { let x = s.signer(Some(code), Some(tr), Some(path), None, Some(true))?; Ok(format!("{} {}", x.qb64()?, x.verfer().qb64()?)) });
            } }
            call!(v, format!("signers salt {i}"), move || Ok(format!("{:?}", s.signers(Some(2), Some(0), Some("p"), None, None, None, Some(true))?.iter().map(|x| x.raw()).collect::<Vec<_>>())));
            call!(v, format!("short salt {i}"), move || Ok(hex(&s.stretch(Some(2), Some("p"), None, Some(true))?)));
            call!(v, format!("tier salt {i}"), move || Ok(hex(&s.stretch(Some(32), Some("p"), Some("none"), None)?)));
        }
    });
    fam!("creator", v, {
        for stem in ["", "a"] {
            let sc = keep(SaltyCreator::new(Some(&qualify("0A", &b16[0])), Some(stem), Some("min"), None).unwrap());
            for (p, q, k) in [(0u16, 0u16, 0u16), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0x10, 0, 0)] { for code in ["A", "Q"] { for n in [1u16, 2] {
                call!(v, format!("create {stem:?} {p} {q} {k} {code} {n}"), move || Ok(format!("{:?}", sc.create(None, Some(n), Some(code), Some(p), Some(q), Some(k), None, Some(n == 1), true).iter().map(|x| (x.raw(), x.verfer().code())).collect::<Vec<_>>())));
            } } }
        }
    });
    fam!("sign and verify", v, {
        let mut all = vec![];
        for (i, code) in ["A", "J", "Q", "A"].iter().enumerate() { let s = crate::p_crypto::any_seed(r, code); all.push((i, *code, keep(Signer::new_with_raw(&s, Some(i != 3), Some(code)).unwrap()))); }
        for (i, code, s) in &all {
            let (i, code, s) = (*i, *code, *s);
            for (j, m) in sers.iter().take(3).enumerate() {
                let m: &'static Vec<u8> = m;
                let sig = keep(s.sign_unindexed(m).unwrap().raw());
                for (l, w) in all.iter().filter(|o| o.1 == code).map(|o| (o.0, o.2)) { let f = keep(w.verfer()); for (k, n) in sers.iter().take(2).enumerate() { let n: &'static Vec<u8> = n;
                    call!(v, format!("verify key {l} signature of {i} over {j} against {k}"), move || Ok(format!("{}", f.verify(sig, n)?)));
                } }
                if code == "A" { call!(v, format!("sign {i} {j}"), move || { let g = s.sign_unindexed(m)?; Ok(format!("{:?} {}", view(&g)?, g.verfer().qb64()?)) }); }
            }
            for (only, ix, ox) in [(false, 0u32, None), (true, 0, None), (false, 1, None), (false, 1, Some(2u32)), (false, 64, None), (true, 64, None), (true, 0, Some(1))] {
                let m: &'static Vec<u8> = sers[0];
                call!(v, format!("sign indexed {i} {only} {ix} {ox:?}"), move || { let g = s.sign_indexed(m, only, ix, ox)?; Ok(format!("{} {} {} {} {}", g.code(), g.index(), g.ondex(), g.qb64()?.len(), if code == "A" { g.qb64()? } else { format!("{}", g.verfer().verify(&g.raw(), m)?) })) });
            }
        }
    });
    fam!("digest", v, {
        let mut ds: Vec<&'static Diger> = vec![];
        for code in DIGESTS.iter().copied() {
            for m in sers.iter().take(3) { let m: &'static Vec<u8> = m; call!(v, format!("digest {code} {}", hex(m)), move || Ok(format!("{:?}", view(&Diger::new_with_ser(m, Some(code))?)?))); }
            ds.push(keep(Diger::new_with_ser(sers[0], Some(code)).unwrap()));
        }
        ds.push(keep(Diger::new_with_ser(sers[1], Some("E")).unwrap()));
        for (i, d) in ds.iter().enumerate().filter(|x| x.0 % 3 != 1) { let d: &'static Diger = d;
            for (k, m) in sers.iter().enumerate().take(2) { let m: &'static Vec<u8> = m; call!(v, format!("verify digest {i} against {k}"), move || Ok(format!("{}", d.verify(m)?))); }
            for j in [0usize, 2, 9] { let e = ds[j]; let m: &'static Vec<u8> = sers[0]; call!(v, format!("compare {i} {j}"), move || Ok(format!("{}", d.compare(m, None, Some(e))?))); }
        }
    });
    fam!("said", v, {
        for (i, d) in vals.iter().enumerate() { let d: &'static Value = d;
            for (code, label, ignore) in [("E", "d", None), ("I", "d", None), ("E", "i", None), ("E", "d", Some(["a"])), ("E", "x", None)] {
                if i == 5 && code == "I" { continue; }
                let ig = keep(ignore);
                call!(v, format!("saidify doc {i} {code} {label} {ignore:?}"), move || { let (s, d) = Saider::saidify(d, Some(code), None, Some(label), ig.as_ref().map(|x| &x[..]))?; Ok(format!("{} {}", s.qb64()?, d.to_json()?)) });
            }
        }
        let (s, d) = Saider::saidify(vals[0], None, None, None, None).unwrap();
        let (s, d) = (keep(s), keep(d));
        for (k, d) in [d, vals[0], vals[1]].into_iter().enumerate() { for (p, ver) in [(true, true), (false, true), (false, false)] {
            call!(v, format!("verify said {k} {p} {ver}"), move || Ok(format!("{}", s.verify(d, Some(p), Some(ver), None, None, None)?)));
        } }
    });
    fam!("prefix", v, {
        for (i, d) in vals.iter().enumerate() { let d: &'static Value = d;
            for code in ["D", "B", "E", "F", "1AAA"] { call!(v, format!("prefix doc {i} {code}"), move || Ok(Prefixer::new_with_ked(d, None, Some(code))?.qb64()?)); }
            call!(v, format!("prefix doc {i} kept"), move || Ok(Prefixer::new_with_ked(d, None, None)?.qb64()?));
        }
        for code in ["D", "E", "F"] { if let Ok(p) = Prefixer::new_with_ked(vals[0], None, Some(code)) { let p = keep(p); for i in 0..4 { let d = vals[i]; for pre in [true, false] {
            call!(v, format!("verify prefix {code} doc {i} {pre}"), move || Ok(format!("{}", p.verify(d, Some(pre))?)));
        } } } }
    });
    fam!("message", v, {
        for (i, d) in vals.iter().enumerate() { let d: &'static Value = d;
            for code in ["E", "I"] { call!(v, format!("serder {i} {code}"), move || { let s = Serder::new_with_ked(d, Some(code), None)?; Ok(format!("{:?} {:?} {} {}", s.raw(), s.pre().ok(), s.saider().qb64()?, s.pretty(Some(50))?)) }); }
            call!(v, format!("creder {i}"), move || { let s = Creder::new_with_ked(d, None, None)?; Ok(format!("{:?} {:?} {:?}", s.raw(), s.issuer().ok(), s.status().ok())) });
            call!(v, format!("sizeify {i}"), move || { let s = sizeify(d, None)?; Ok(format!("{:?} {} {} {}", s.raw, s.ident, s.kind, s.version.minor)) });
            if let Ok(s) = Serder::new_with_ked(d, None, None) {
                let raw = keep(s.raw());
                let s = keep(s);
                call!(v, format!("read {i}"), move || { let s = Serder::new_with_raw(raw)?; Ok(format!("{:?} {:?} {:?}", s.ked().to_json()?, s.size(), s.sn().ok())) });
                call!(v, format!("read short {i}"), move || Ok(format!("{:?}", Serder::new_with_raw(&raw[..raw.len() - 1])?.size())));
                call!(v, format!("accessors {i}"), move || Ok(format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", s.verfers().ok(), s.digers().ok(), s.werfers().ok(), s.tholder().ok(), s.ntholder().ok(), s.sn().ok(), s.est().ok())));
                for n in [None, Some(10usize), Some(100_000)] { call!(v, format!("pretty {i} {n:?}"), move || Ok(s.pretty(n)?)); }
                call!(v, format!("sniff {i}"), move || { let x = sniff(raw)?; Ok(format!("{} {} {} {}", x.ident, x.kind, x.size, x.version.major)) });
            }
        }
    });
    fam!("version strings", v, {
        for (i, k, n) in [("KERI", "JSON", 0u32), ("KERI", "JSON", 1), ("ACDC", "JSON", 0), ("KERI", "CBOR", 0), ("KERI", "MGPK", 0xffffff), ("KERI", "JSON", 0x1000000), ("XXXX", "JSON", 0), ("KERI", "XXXX", 0)] { for (a, b) in [(1u8, 0u8), (0, 1), (15, 15), (16, 0)] {
            let ver = keep(Version { major: a, minor: b });
            call!(v, format!("versify {i} {k} {n} {a}.{b}"), move || Ok(versify(Some(i), Some(ver), Some(k), Some(n))?));
            if let Ok(t) = versify(Some(i), Some(ver), Some(k), Some(n)) { call!(v, format!("deversify {t}"), move || { let x = deversify(&t)?; Ok(format!("{} {} {} {} {}", x.ident, x.kind, x.size, x.version.major, x.version.minor)) }); }
        } }
    });
    fam!("primitives", v, {
        let raw = r.bytes(70);
        for code in ["A", "D", "E", "0A", "M", "0B", "1AAA", "4A", "5A", "6A", "7AAA", "4B"] {
            for n in [32usize, 33, 16, 2, 64, 70] {
                let Some(p) = construct(code, &raw[..n]) else { continue };
                let p = keep(p);
                let bin = keep(p.bin());
                let raw = keep(raw[..n].to_vec());
                call!(v, format!("construct {code} {n}"), move || Ok(format!("{:?}", view(&<TM as Matter>::new_with_code_and_raw(code, raw)?)?)));
                call!(v, format!("text {}", p.text), move || Ok(format!("{:?}", view(&<TM as Matter>::new_with_qb64(&p.text)?)?)));
                call!(v, format!("binary {}", p.text), move || Ok(format!("{:?}", view(&<TM as Matter>::new_with_qb2(bin)?)?)));
                if n == 32 { call!(v, format!("short text {}", p.text), move || Ok(format!("{:?}", view(&<TM as Matter>::new_with_qb64(&p.text[..p.text.len() - 1])?)?))); }
            }
        }
    });
    fam!("indexed and counted", v, {
        let raw = keep(r.bytes(64));
        for code in ["A", "B", "C", "D", "0A", "2A", "2B", "3A"] { for (ix, ox) in [(0u32, None), (1, None), (1, Some(1u32)), (1, Some(2)), (63, None), (64, Some(0)), (4095, None)] {
            call!(v, format!("indexer {code} {ix} {ox:?}"), move || Ok(format!("{:?}", iview(&<TI as Indexer>::new_with_code_and_raw(code, raw, ix, ox)?)?)));
        } }
        for code in ["A", "B", "0A", "0B", "2A", "2B", "3A"] { for ix in [1u32, 9] {
            let Some(x) = iconstruct(code, raw, ix, None).or_else(|| iconstruct(code, raw, ix, Some(ix))) else { continue };
            let (t, b): (&'static String, &'static Vec<u8>) = (keep(x.text.clone()), keep(x.bin()));
            call!(v, format!("indexer text {t}"), move || Ok(format!("{:?}", iview(&<TI as Indexer>::new_with_qb64(t)?)?)));
            call!(v, format!("indexer binary {t}"), move || Ok(format!("{:?}", iview(&<TI as Indexer>::new_with_qb2(b)?)?)));
            if ix == 1 {
                call!(v, format!("siger text {t}"), move || { let s = Siger::new_with_qb64(t, None)?; Ok(format!("{} {} {} {}", s.code(), s.index(), s.ondex(), s.qb64()?)) });
                call!(v, format!("short indexer text {t}"), move || Ok(format!("{:?}", iview(&<TI as Indexer>::new_with_qb64(&t[..t.len() - 1])?)?)));
            }
        } }
        for t in ["-AAB", "-0VAAAAB", "--AAABAA"] {
            let b: &'static Vec<u8> = keep(Counter::new_with_qb64(t).unwrap().qb2().unwrap());
            call!(v, format!("counter binary {t}"), move || { let c = Counter::new_with_qb2(b)?; Ok(format!("{} {} {}", c.code(), c.count(), c.qb64()?)) });
        }
        for code in ["-A", "-B", "-0V", "--AAA"] { for n in [0u32, 1, 64, 4095, 4096, 1 << 24] {
            call!(v, format!("counter {code} {n}"), move || { let c = Counter::new_with_code_and_count(code, n)?; Ok(format!("{} {:?} {}", c.qb64()?, c.qb2()?, c.count_as_b64(5)?)) });
        } }
        for t in ["-AAA", "-AAB", "-AB_", "-0VAAAAB", "--AAABAA", "-VAA", "-ZAA"] { call!(v, format!("counter {t}"), move || { let c = Counter::new_with_qb64(t)?; Ok(format!("{} {} {:?}", c.code(), c.count(), c.qb2()?)) }); }
        for t in ["1.0.0", "1.0", "0.0.1", "63.63.63", "64.0.0", "x"] { call!(v, format!("semver {t}"), move || Ok(Counter::sem_ver_str_to_b64(t)?)); }
    });
    fam!("numbers and times", v, {
        for n in [0u128, 1, 255, 65535, 65536, u32::MAX as u128, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX] {
            call!(v, format!("number {n}"), move || { let x = Number::new_with_num(n)?; Ok(format!("{} {} {}", x.qb64()?, x.num()?, x.numh()?)) });
            call!(v, format!("number hex {n}"), move || Ok(Number::new_with_numh(&format!("{n:x}"))?.qb64()?));
            call!(v, format!("seqner {n}"), move || { let x = Seqner::new_with_sn(n)?; Ok(format!("{} {}", x.qb64()?, x.snh()?)) });
        }
        for t in ["2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921-01:00", "2020-08-22T17:50:09.988922+00:00", "2020-08-22T17:50:09+00:00", ""] { call!(v, format!("dater {t}"), move || { let x = Dater::new_with_dts(t, None)?; Ok(format!("{} {} {:?}", x.qb64()?, x.dts()?, x.dtsb()?)) }); }
        for t in ["A", "", "-", "AA", "AAA", "AAAA", "AAAAA", "a", "ab", "abc", "abcd", "-a-0", "-a", "!"] {
            call!(v, format!("bexter {t}"), move || { let x = Bexter::new_with_bext(t)?; Ok(format!("{} {}", x.qb64()?, x.bext()?)) });
            call!(v, format!("pather {t}"), move || { let x = Pather::new_with_bext(t)?; Ok(format!("{} {:?}", x.qb64()?, x.path().ok())) });
        }
    });
    fam!("paths", v, {
        let ps: Vec<&'static Pather> = ["-", "-a", "-a-0", "-k-0", "-0", "-d", "-a-0-d"].iter().map(|t| keep(Pather::new_with_bext(t).unwrap())).collect();
        for (i, p) in ps.iter().enumerate() { let p: &'static Pather = p;
            for j in [0usize, 1, 3, 4] { let d = vals[j]; call!(v, format!("resolve path {i} doc {j}"), move || Ok(format!("{:?}", p.resolve(d)?))); }
            for j in [0usize, 1, 2] { let q = ps[j];
                call!(v, format!("root {i} {j}"), move || Ok(p.root(q)?.bext()?));
                call!(v, format!("strip {i} {j}"), move || Ok(p.strip(q)?.bext()?));
                call!(v, format!("starts with {i} {j}"), move || Ok(format!("{}", p.starts_with(q)?)));
            }
        }
    });
    fam!("thresholds", v, {
        let siths = [json!("2"), json!(2), json!("0"), json!(["1/2", "1/2", "1/3"]), json!(["1/2", "1/3", "1/2"]), json!([["1/2", "1/2"], ["1"]]), json!([["1"], ["1/2", "1/2"]]), json!(["1/2", "1/2"]), json!("1/2,1/2&1"), json!(["1/2", "1/3"])];
        for (i, t) in siths.iter().enumerate() {
            let t = keep(gen::keride(t));
            call!(v, format!("threshold {i}"), move || { let x = Tholder::new_with_sith(t)?; Ok(format!("{} {:?} {} {:?}", x.weighted(), x.limen()?, x.size(), x.to_json()?)) });
            if let Ok(x) = Tholder::new_with_sith(t) {
                let x = keep(x);
                let l = keep(x.limen().unwrap());
                call!(v, format!("limen {i}"), move || Ok(Tholder::new_with_limen(l)?.to_json()?));
                for ix in [&[0u32][..], &[0, 1], &[1, 2], &[0, 2], &[2, 2, 1], &[9], &[]] { call!(v, format!("satisfy {i} {ix:?}"), move || Ok(format!("{}", x.satisfy(ix)?))); }
            }
        }
    });
    fams
}
/// every ordered pair (a, b) of 0..n, as one walk
pub fn walk(n: usize) -> Vec<usize> {
    let mut w = vec![0];
    for i in 0..n {
        w.push(i);
        for j in i + 1..n { w.push(j); w.push(i); }
        if i + 1 < n { w.push(i + 1); }
    }
    w
}
/// child: family and call numbers from standard input, results
pub fn child(args: &[String]) {
    let (seed, f, k): (u64, usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    print!("{}", render(&run_call(&families(seed)[f].calls[k].1)));
}
fn render(o: &Out) -> String {
    format!("{o:?}")
}
fn alone(seed: u64, f: usize, k: usize) -> Option<String> {
    let o = std::process::Command::new(std::env::current_exe().ok()?).args(["related", &seed.to_string(), &f.to_string(), &k.to_string()]).output().ok()?;
    if !o.status.success() { return None; }
    String::from_utf8(o.stdout).ok()
}
/// one family: what each call gives alone, then after each of the others
pub fn related(c: &mut Case, seed: u64, f: usize) {
    let fams = families(seed);
    let Some(fam) = fams.get(f) else { return };
    let n = fam.calls.len();
    c.input(format!("family {} seed {seed}", fam.name));
    let want: Vec<Option<String>> = (0..n).map(|k| alone(seed, f, k)).collect();
    let failed = want.iter().filter(|x| x.is_none()).count();
    c.check("alone-answers", fam.name, failed == 0, || format!("{failed} of {n} calls of {} end the process when made alone", fam.name));
    let mut prev: Option<usize> = None;
    for k in walk(n) {
        let got = render(&run_call(&fam.calls[k].1));
        c.judge("same-after-any-other");
        *c.st.events.entry(("ordered pairs of related calls", "done")).or_default() += 1;
        if want[k].as_ref().map(|w| *w != got).unwrap_or(false) {
            let before = prev.map(|p| fam.calls[p].0.clone()).unwrap_or_default();
            c.input(format!("family {}: {} after {before}", fam.name, fam.calls[k].0));
            c.violation(format!("same-after-any-other|{}", fam.name), format!("{}: {} gives {} alone and {got} after {before}", fam.name, fam.calls[k].0, want[k].as_ref().unwrap()));
        }
        prev = Some(k);
    }
    // the same calls from several threads, each with its own order
    let orders: Vec<Vec<usize>> = (0..6).map(|_| { let mut o: Vec<usize> = (0..n).flat_map(|k| [k; 3]).collect(); c.rng.shuffle(&mut o); o }).collect();
    let barrier = std::sync::Barrier::new(orders.len());
    let got: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders.iter().map(|o| { let (b, fam) = (&barrier, &fam); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { b.wait(); o.iter().map(|k| (*k, render(&run_call(&fam.calls[*k].1)))).collect::<Vec<_>>() }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, g) in got.into_iter().flatten() {
        let ok = want[k].as_ref().map(|w| *w == g).unwrap_or(true);
        c.check("same-among-related-threads", fam.name, ok, || format!("{}: {} gives {:?} alone and {g} while others are made", fam.name, fam.calls[k].0, want[k]));
    }
    for o in &orders { c.seen("schedules", &format!("{o:?}")); }
    for (k, w) in want.iter().enumerate() { c.seen("distinct related calls", &format!("{}{}{:?}", fam.name, k, w)); }
}
/// A few calls of a family at a time, made over and over by every thread at once, so that whatever they share is met half way.
pub fn storm(c: &mut Case, seed: u64, f: usize, epochs: usize) {
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::time::{Duration, Instant};
    let fams = families(seed);
    let Some(fam) = fams.get(f) else { return };
    c.input(format!("family {} seed {seed}", fam.name));
    let mut quick = vec![];
    for (k, (_, call)) in fam.calls.iter().enumerate() {
        let want = render(&run_call(call));
        let t = Instant::now();
        let again = render(&run_call(call));
        let took = t.elapsed();
        c.check("same-when-repeated", fam.name, want == again, || format!("{}: {} gives {want} and then {again}", fam.name, fam.calls[k].0));
        if want == again && took < Duration::from_micros(1500) { quick.push((k, want)); }
    }
    if quick.len() < 2 { return }
    let groups: Vec<Vec<usize>> = (0..epochs).map(|e| { let n = if e % 2 == 0 { 2 } else { c.rng.range(3, 6) }; (0..n).map(|_| c.rng.below(quick.len())).collect() }).collect();
    let workers = 8;
    let barrier = std::sync::Barrier::new(workers);
    let made = AtomicU64::new(0);
    let bad: Vec<(usize, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers).map(|w| {
            let (b, groups, quick, made) = (&barrier, &groups, &quick, &made);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let mut bad = vec![];
                let mut r = Rng::new(seed ^ w as u64);
                let mut n = 0;
                for (e, g) in groups.iter().enumerate() {
                    b.wait();
                    let until = Instant::now() + Duration::from_millis(6);
                    // in every other group each thread keeps to one call
                    loop {
                        for _ in 0..4 {
                            let (k, want) = &quick[g[if e % 4 < 2 { w % g.len() } else { r.below(g.len()) }]];
                            let got = render(&run_call(&fam.calls[*k].1));
                            n += 1;
                            if got != *want && bad.len() < 5 { bad.push((*k, got)); }
                        }
                        if Instant::now() >= until { break }
                    }
                }
                made.fetch_add(n, Ordering::Relaxed);
                bad
            }).unwrap()
        }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let made = made.load(Ordering::Relaxed);
    *c.st.events.entry(("calls in storms", "done")).or_default() += made;
    for _ in 0..epochs { c.judge("same-in-a-storm"); }
    for (k, got) in bad {
        c.violation(format!("same-in-a-storm|{}", fam.name), format!("{}: {} gives {got} while a few others are made over and over", fam.name, fam.calls[k].0));
    }
    for g in &groups { let mut g = g.clone(); g.sort(); c.seen("groups of calls", &format!("{} {g:?}", fam.name)); }
}
/// One call made more often, on one thread, than a sixteen-bit count of it can hold, another between every few.
pub fn long(c: &mut Case, seed: u64, f: usize, times: usize, most: std::time::Duration) {
    use std::time::Instant;
    let fams = families(seed);
    let Some(fam) = fams.get(f) else { return };
    let n = fam.calls.len();
    let want: Vec<Out> = (0..n).map(|k| run_call(&fam.calls[k].1)).collect();
    // one of every few, by name up to its first number, so that each function and each code has its turn
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    let started = Instant::now();
    let mut covered = 0;
    for k in order {
        let call = &fam.calls[k].1;
        let t = Instant::now();
        for _ in 0..8 { run_call(call); }
        let each = t.elapsed() / 8;
        if each * times as u32 > most { continue }
        if started.elapsed() > most * 12 { break }
        c.input(format!("family {} seed {seed}: {} made {times} times", fam.name, fam.calls[k].0));
        covered += 1;
        c.judge("same-in-a-long-history");
        for i in 0..times {
            let got = run_call(call);
            if got != want[k] {
                c.violation(format!("same-in-a-long-history|{}", fam.name), format!("{}: {:?} at first and {got:?} the {i}th time", fam.calls[k].0, want[k]));
                break;
            }
        }
        *c.st.events.entry(("calls in long histories", "done")).or_default() += times as u64;
        c.seen("calls with a long history", &format!("{} {}", fam.name, fam.calls[k].0));
    }
    // and all of them together once more
    for k in 0..n {
        let got = run_call(&fam.calls[k].1);
        c.check("same-in-a-long-history", fam.name, got == want[k], || format!("{}: {:?} at first and {got:?} after {covered} long histories", fam.calls[k].0, want[k]));
    }
}
pub const FAMILIES: usize = 13;
