//! C07 (hostile input), C25 (purity).
use crate::fw::*;
use crate::gen;
use crate::model::*;
use crate::ops::*;
use crate::p_cesr::{any_counter, any_isig};
use keride::cesr::*;
use keride::signify::creating::SaltyCreator;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Read, Write};

fn key(s: u64, n: &str) -> u64 {
    fnv(format!("{s}|{n}").as_bytes())
}
/// the observed calls of one hostile operation
fn hostile(c: &mut Case, f: impl FnOnce(Log) -> &'static str) {
    let t0 = cpu_now();
    let mut seen: Vec<(&'static str, Out, String)> = vec![];
    let mut bad: Vec<(String, String, String)> = vec![];
    let mut last = String::new();
    f(&mut |api, out, desc| {
        if last != desc { last = desc.to_string(); }
        if let Out::Panic(m, l) = &out { bad.push((format!("{api}|{}", place(api, l, m)), format!("{api} panicked: {m} at {l}"), desc.to_string())); }
        seen.push((api, out, String::new()));
    });
    c.input(short(&last));
    for (api, out, _) in &seen {
        let o = match out { Out::Ok(_) => "ok", Out::Err(_) => "refused", Out::Opaque => "ok", Out::Panic(..) => "panic" };
        *c.st.events.entry((api, o)).or_default() += 1;
        c.judge("value-or-error");
        c.seen("api and outcome", &format!("{api}:{o}"));
        if let Out::Err(h) = out { c.seen("distinct refusals", &format!("{api}{h}")); }
    }
    for (sig, detail, input) in bad {
        c.input(short(&input));
        c.violation(format!("panic|{sig}"), detail);
    }
    let dt = (cpu_now() - t0) as f64 / 1e9;
    c.check("bounded-time", "", dt < 20.0, || format!("{dt:.1} s of CPU time for one operation"));
}
/// where a panic came from; a call recorded as known to panic is identified by its name alone
fn place(api: &str, l: &str, m: &str) -> String {
    if api.ends_with("(code without keys)") { return String::new(); }
    let file = l.rsplit_once(':').map(|x| x.0).unwrap_or("");
    let m: String = m.chars().take(60).map(|c| if c.is_ascii_digit() { 'N' } else { c }).collect();
    format!("{}|{}", file.rsplit("/registry/src/").next().unwrap_or(""), m.split(['`', '"', '\'']).next().unwrap_or(""))
}
pub fn c07(run: &Run) {
    run.require(&["value-or-error", "bounded-time"]);
    for o in OPS {
        run.section(o.0, (o.2 as u64) * if o.0 == "creator" { 200 } else { 2500 }, |c| {
            let pool = key(c.run.seed, "pool") ^ (c.idx / 997);
            let r = c.rng.clone();
            hostile(c, |log| {
                let mut g = G { r, pool, small: false };
                let mut p = P { log, desc: String::new() };
                (o.1)(&mut g, &mut p);
                o.0
            })
        });
    }
    // text nested deeper than any reader should follow
    run.enumerate("deep text", 24, |c| {
        let depth = [100usize, 126, 127, 128, 129, 1000, 10_000, 200_000][c.idx as usize % 8];
        let (open, close) = [("[", "]"), ("{\"a\":", "}"), ("[{\"d\":", "}]")][c.idx as usize / 8];
        let body = format!("{}1{}", open.repeat(depth), close.repeat(depth));
        let mut t = format!("{{\"v\":\"KERI10JSON000000_\",\"d\":\"{}\",\"a\":{body}}}", qualify("E", &[7; 32]));
        let n = t.len();
        t = t.replacen("JSON000000_", &format!("JSON{n:06x}_"), 1);
        hostile(c, |log| {
            let mut p = P { log, desc: format!("depth {depth} of {open}") };
            if let Some(s) = p.get("Serder::new_with_raw", || Serder::new_with_raw(t.as_bytes())) { p.get("Sadder.pretty", || s.pretty(None)); }
            let lim = Bexter::new_with_bext("a").unwrap();
            let _ = lim;
            p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&keride::data::Value::from(&body)));
            "deep"
        });
    });
    run.enumerate("deep values", 12, |c| {
        let depth = [50usize, 200, 500, 1000][c.idx as usize % 4];
        let kind = c.idx / 4;
        hostile(c, |log| {
            let mut p = P { log, desc: format!("depth {depth} kind {kind}") };
            let mut v = keride::data::Value::from(1);
            for i in 0..depth {
                v = if kind == 0 || (kind == 2 && i % 2 == 0) { keride::data::Value::Array(vec![v]) } else { let mut m = keride::data::Object::new(); m.insert("d".into(), v); keride::data::Value::Object(m) };
            }
            p.get("Value.to_json", || v.to_json());
            p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&v));
            p.get("Saider::saidify", || Saider::saidify(&v, None, None, None, None));
            p.get("sizeify", || Ok(common::sizeify(&v, None).map(|x| x.raw)?));
            p.get("Serder::new_with_ked", || Serder::new_with_ked(&v, None, None));
            p.get("Prefixer::new_with_ked", || keride::prefexing::prefixer::Prefixer::new_with_ked(&v, None, Some("E")));
            "deep"
        });
    });
    // large input must not take more than linear-looking time
    run.enumerate("large input", 10, |c| {
        let n = 200_000usize;
        let i = c.idx;
        let mut r = c.rng.clone();
        hostile(c, |log| {
            let mut p = P { log, desc: format!("{n} of kind {i}") };
            let doc = |x: serde_json::Value| gen::keride(&x);
            match i {
                0 => { let t = gen::b64n(&mut r, n); if let Some(b) = p.get("Bexter::new_with_bext", || Bexter::new_with_bext(&t)) { p.get("Bexter.bext", || b.bext()); } }
                1 => { let t = "-a".repeat(n / 2); if let Some(b) = p.get("Pather::new_with_bext", || keride::pathing::pather::Pather::new_with_bext(&t)) { p.get("Pather.path", || b.path()); p.get("Pather.strip", || b.strip(&b)); } }
                2 => { let v = doc(json!(vec!["1/2"; n / 10])); if let Some(t) = p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&v)) { let ix: Vec<u32> = (0..n as u32 / 10).collect(); p.get("Tholder.satisfy", || t.satisfy(&ix)); } }
                3 => { let v = doc(json!({"v": "KERI10JSON000000_", "d": "", "a": vec![1; n]})); p.get("Saider::saidify", || Saider::saidify(&v, None, None, None, None)); }
                4 => { let mut m = serde_json::Map::new(); m.insert("d".into(), json!("")); for k in 0..n / 4 { m.insert(format!("k{k}"), json!(k)); } let v = doc(serde_json::Value::Object(m)); p.get("Saider::saidify", || Saider::saidify(&v, None, None, None, None)); }
                5 => { let b = vec![b' '; n]; p.get("sniff", || Ok(common::sniff(&b).map(|x| x.ident)?)); }
                6 => { let t = "KERI10JSON00000".repeat(n / 15); p.get("deversify", || Ok(common::deversify(&t).map(|x| x.ident)?)); p.get("sniff", || Ok(common::sniff(t.as_bytes()).map(|x| x.ident)?)); }
                7 => { let raw = r.bytes(n); if let Some(x) = p.get("Matter::new", || <crate::lib_api::TM as Matter>::new_with_code_and_raw("4B", &raw)) { p.get("Matter.qb64", || x.qb64()); p.get("Matter.qb2", || x.qb2()); } }
                8 => { let d = r.bytes(n); p.get("Diger::new_with_ser", || Diger::new_with_ser(&d, Some("G"))); }
                _ => { let t = "&".repeat(n); p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&keride::data::Value::from(&t))); let t = "1,".repeat(n / 20); p.get("Tholder::new_with_sith", || Tholder::new_with_sith(&keride::data::Value::from(&t))); }
            }
            "large"
        });
    });
    // codes the creator cannot make keys for: recorded separately, they are a known finding
    run.enumerate("creator with other codes", MATTER.len() as u64 + 3, |c| {
        let code = MATTER.get(c.idx as usize).map(|m| m.code).unwrap_or(["", "Z", "é"][(c.idx as usize).saturating_sub(MATTER.len()) % 3]);
        if ["A", "J", "Q"].contains(&code) { return; }
        hostile(c, |log| {
            let mut p = P { log, desc: format!("code {code}") };
            if let Some(sc) = p.get("SaltyCreator::new", || SaltyCreator::new(Some(&qualify("0A", &[5; 16])), None, None, None)) {
                p.val("SaltyCreator.create (code without keys)", || sc.create(None, None, Some(code), None, None, None, None, None, true).len());
            }
            "creator"
        });
    });
}

// ---------------------------------------------------------------- C25
type Trace = Vec<(&'static str, Out)>;
fn trace(seed: u64, i: u64, small: bool) -> (&'static str, Trace, String) {
    let mut t = vec![];
    let mut d = String::new();
    let name = run_case(seed, key(seed, "shared"), i, small, &mut |api, out, desc| {
        if d != desc { d = desc.to_string(); }
        t.push((api, out));
    });
    (name, t, d)
}
fn digest_of(t: &Trace) -> u64 {
    fnv(format!("{t:?}").as_bytes())
}
/// child: the digests of the cases named on standard input, in that order
pub fn purity_child(args: &[String]) {
    let seed: u64 = args[2].parse().unwrap();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut out = String::new();
    for w in s.split_whitespace() {
        let i: u64 = w.parse().unwrap();
        let (_, t, _) = trace(seed, i, true);
        out += &format!("{i} {:x}\n", digest_of(&t));
    }
    std::io::stdout().write_all(out.as_bytes()).unwrap();
}
fn alone(seed: u64, order: &[u64]) -> Option<BTreeMap<u64, u64>> {
    let mut ch = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["purity", &seed.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .ok()?;
    let text = order.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let mut si = ch.stdin.take()?;
    let w = std::thread::spawn(move || { let _ = si.write_all(text.as_bytes()); });
    let o = ch.wait_with_output().ok()?;
    let _ = w.join();
    if !o.status.success() { return None; }
    let mut m = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let (a, b) = l.split_once(' ')?;
        m.insert(a.parse().ok()?, u64::from_str_radix(b, 16).ok()?);
    }
    Some(m)
}
fn compare(c: &mut Case, rule: &'static str, i: u64, want: &(&'static str, Trace, String), got: &Trace) {
    let same = &want.1 == got;
    c.judge(rule);
    if !same {
        c.input(short(&want.2));
        let at = want.1.iter().zip(got).position(|(a, b)| a != b);
        let (api, d) = match at { Some(k) => (want.1[k].0, format!("call {k} of case {i} ({}) gave {:?} alone and {:?} here", want.1[k].0, want.1[k].1, got[k].1)), None => ("?", "a different number of calls".into()) };
        c.violation(format!("{rule}|{}|{api}", want.0), d);
    }
}
pub fn c25(run: &Run) {
    run.require(&["same-when-repeated", "same-in-another-order", "same-in-another-process", "same-alone", "same-under-threads", "shared-object-unchanged", "same-on-shared-objects", "alone-answers", "same-after-any-other", "same-among-related-threads", "same-in-a-storm", "same-in-a-long-history"]);
    let thorough = run.tier == Tier::Thorough;
    run.section_exact("related calls", if thorough { 20 } else { 1 } * crate::p_hist::FAMILIES as u64, 8, |c| {
        let n = crate::p_hist::FAMILIES as u64;
        let seed = key(c.run.seed, &format!("related {}", c.idx / n));
        crate::p_hist::related(c, seed, (c.idx % n) as usize)
    });
    let rounds = if thorough { 60 } else { 3 };
    let n: u64 = if thorough { 3000 } else { 1500 };
    run.section_exact("histories", rounds, 1, |c| {
        let seed = key(c.run.seed, &format!("c25 {}", c.idx));
        // the reference: in order, in this process
        let mut want = vec![];
        for i in 0..n { want.push(trace(seed, i, true)); }
        for w in &want {
            for (api, o) in &w.1 {
                let k = match o { Out::Ok(_) => "ok", Out::Err(_) => "refused", Out::Opaque => "random by design", Out::Panic(..) => "panic" };
                *c.st.events.entry((api, k)).or_default() += 1;
            }
        }
        for i in (0..n).step_by(7) { let (_, t, _) = trace(seed, i, true); compare(c, "same-when-repeated", i, &want[i as usize], &t); }
        let mut order: Vec<u64> = (0..n).collect();
        c.rng.shuffle(&mut order);
        for i in &order { let (_, t, _) = trace(seed, *i, true); compare(c, "same-in-another-order", *i, &want[*i as usize], &t); }
        // a fresh process that goes through the cases in yet another order
        for _ in 0..2 {
            c.rng.shuffle(&mut order);
            match alone(seed, &order) {
                Some(m) => for i in 0..n {
                    let same = m.get(&i) == Some(&digest_of(&want[i as usize].1));
                    if !same { c.input(short(&want[i as usize].2)); }
                    let nm = want[i as usize].0;
                    c.check("same-in-another-process", nm, same, || format!("case {i} ({nm}) gives another result in a process with another history"));
                },
                None => { c.st.samples.push(json!({"harness": "purity child failed"})); }
            }
        }
        // nothing but one case, in a fresh process
        for _ in 0..40 {
            let i = c.rng.below(n as usize) as u64;
            if let Some(m) = alone(seed, &[i]) {
                let same = m.get(&i) == Some(&digest_of(&want[i as usize].1));
                if !same { c.input(short(&want[i as usize].2)); }
                let nm = want[i as usize].0;
                c.check("same-alone", nm, same, || format!("case {i} ({nm}) alone gives another result than after others"));
            }
        }
        // many threads at once, overlapping cases
        let workers = 8;
        let barrier = std::sync::Barrier::new(workers);
        let orders: Vec<Vec<u64>> = (0..workers).map(|_| { let mut o: Vec<u64> = (0..n).collect(); c.rng.shuffle(&mut o); o }).collect();
        let got: Vec<Vec<(u64, Trace)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = orders.iter().map(|o| { let b = &barrier; std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { b.wait(); o.iter().map(|i| (*i, trace(seed, *i, true).1)).collect::<Vec<_>>() }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for g in &got { for (i, t) in g { compare(c, "same-under-threads", *i, &want[*i as usize], t); } }
        for i in 0..n { c.seen("distinct call traces", &format!("{}", digest_of(&want[i as usize].1))); }
        // the order in which threads went through the cases
        for o in &orders { c.seen("schedules", &format!("{o:?}")); }
        c.input(format!("history {}", c.idx));
    });
    run.section_exact("storms", if thorough { 10 } else { 1 } * crate::p_hist::FAMILIES as u64, 1, |c| {
        let n = crate::p_hist::FAMILIES as u64;
        let seed = key(c.run.seed, &format!("storm {}", c.idx / n));
        crate::p_hist::storm(c, seed, (c.idx % n) as usize, if thorough { 400 } else { 120 })
    });
    run.section_exact("long histories", if thorough { 4 } else { 1 } * crate::p_hist::FAMILIES as u64, 8, |c| {
        let n = crate::p_hist::FAMILIES as u64;
        let seed = key(c.run.seed, &format!("long {}", c.idx / n));
        let (times, most) = if thorough { (270_000, 20_000) } else { (66_500, 3_000) };
        crate::p_hist::long(c, seed, (c.idx % n) as usize, times, std::time::Duration::from_millis(most))
    });
    run.section_exact("shared objects", if thorough { 400 } else { 30 }, 1, |c| shared_objects(c));
}
/// objects used by several threads at once: results and the objects themselves
fn shared_objects(c: &mut Case) {
    use keride::pathing::pather::Pather;
    use keride::prefexing::prefixer::Prefixer;
    use keride::signing::Signer;
    let r = &mut c.rng;
    let mut docs = vec![];
    for _ in 0..6 { docs.push(gen::keride(&crate::p_docs::event(r).0)); }
    let serders: Vec<Serder> = docs.iter().filter_map(|d| guarded(|| Serder::new_with_ked(d, None, None).ok()).ok().flatten()).collect();
    let seeds: Vec<(&str, Vec<u8>)> = (0..6).map(|i| (["A", "J", "Q"][i % 3], crate::p_crypto::any_seed(r, ["A", "J", "Q"][i % 3]))).collect();
    let signers: Vec<Signer> = seeds.iter().filter_map(|(k, s)| guarded(|| Signer::new_with_raw(s, Some(true), Some(k)).ok()).ok().flatten()).collect();
    let verfers: Vec<Verfer> = signers.iter().map(|s| s.verfer()).collect();
    let msgs: Vec<Vec<u8>> = (0..4).map(|_| { let n = r.below(60); r.bytes(n) }).collect();
    let sigs: Vec<Vec<Vec<u8>>> = signers.iter().map(|s| msgs.iter().filter_map(|m| guarded(|| s.sign_unindexed(m).ok()).ok().flatten()).map(|g| g.raw()).collect()).collect();
    let tholders: Vec<Tholder> = (0..6).filter_map(|_| { let t = crate::p_types::weighted(r).spelled; guarded(|| Tholder::new_with_sith(&gen::keride(&t)).ok()).ok().flatten() }).collect();
    let paths: Vec<Pather> = ["-a-b", "-0", "-k-0", "-a", "-i"].iter().filter_map(|t| guarded(|| Pather::new_with_bext(t).ok()).ok().flatten()).collect();
    let digers: Vec<Diger> = msgs.iter().zip(DIGESTS.iter().cycle().skip(c.idx as usize)).filter_map(|(m, k)| guarded(|| Diger::new_with_ser(m, Some(k)).ok()).ok().flatten()).collect();
    let salters: Vec<Salter> = (0..3).filter_map(|_| { let b = r.bytes(16); guarded(|| Salter::new_with_raw(&b, None, None).ok()).ok().flatten() }).collect();
    let pres: Vec<Prefixer> = docs.iter().filter_map(|d| guarded(|| Prefixer::new_with_ked(d, None, Some("E")).ok()).ok().flatten()).collect();
    let saids: Vec<Saider> = docs.iter().filter_map(|d| guarded(|| Saider::saidify(d, None, None, None, None).ok().map(|x| x.0)).ok().flatten()).collect();
    let snap = || format!("{docs:?}{serders:?}{signers:?}{verfers:?}{tholders:?}{paths:?}{digers:?}{salters:?}{pres:?}{saids:?}");
    let before = snap();
    // every call, by number
    let calls: usize = 600;
    let script: Vec<(usize, usize, usize, usize)> = (0..calls).map(|_| (r.below(12), r.below(64), r.below(64), r.below(64))).collect();
    let exec = |s: &(usize, usize, usize, usize)| -> (String, u64) {
        let at = |n: usize, k: usize| if k == 0 { 0 } else { n % k };
        let (k, a, b, x) = *s;
        let go = || -> anyhow::Result<String> {
            Ok(match k {
                0 if !serders.is_empty() => { let s = &serders[at(a, serders.len())]; format!("{:?} {:?} {:?} {:?}", s.verfers(), s.sn(), s.tholder(), s.pre()) }
                1 if !signers.is_empty() => { let i = at(a, signers.len()); let g = signers[i].sign_indexed(&msgs[at(b, msgs.len())], x % 2 == 0, (x % 70) as u32, None)?; format!("{} {} {:?}", g.code(), g.index(), g.verfer().verify(&g.raw(), &msgs[at(b, msgs.len())])) }
                2 | 3 if !signers.is_empty() => { let (i, j) = (at(a, signers.len()), at(b, msgs.len())); let l = at(x, msgs.len()); format!("{:?}", sigs[i].get(j).map(|g| verfers[i].verify(g, &msgs[l]).ok())) }
                4 if !tholders.is_empty() => { let t = &tholders[at(a, tholders.len())]; let ix: Vec<u32> = (0..(b % 9) as u32).map(|q| (q * 7 + x as u32) % 9).collect(); format!("{:?} {:?}", t.satisfy(&ix)?, t.to_json()?) }
                5 if !paths.is_empty() => { let p = &paths[at(a, paths.len())]; let q = &paths[at(b, paths.len())]; format!("{:?} {:?} {:?}", p.resolve(&docs[at(x, docs.len())]).ok(), p.root(q)?.qb64()?, p.strip(q)?.bext()?) }
                6 if !digers.is_empty() => { let (d, e) = (&digers[at(a, digers.len())], &digers[at(b, digers.len())]); format!("{:?} {:?}", d.verify(&msgs[at(x, msgs.len())])?, d.compare(&msgs[at(x, msgs.len())], None, Some(e)).ok()) }
                7 if !salters.is_empty() => { let s = &salters[at(a, salters.len())]; format!("{:?}", s.signer(Some(["A", "J", "Q"][b % 3]), Some(b % 2 == 0), Some(&format!("p{}", x % 5)), None, Some(true))?.qb64()?) }
                8 if !pres.is_empty() => { let p = &pres[at(a, pres.len())]; format!("{:?} {}", p.verify(&docs[at(b, docs.len())], Some(false)).ok(), p.qb64()?) }
                9 if !saids.is_empty() => { let p = &saids[at(a, saids.len())]; format!("{:?} {}", p.verify(&docs[at(b, docs.len())], None, Some(false), None, None, None).ok(), p.qb64()?) }
                10 if !verfers.is_empty() => { let v = &verfers[at(a, verfers.len())]; format!("{:?} {:?} {} {}", v.qb64()?, v.qb2()?, v.transferable(), v.digestive()) }
                _ => { let d = &docs[at(a, docs.len())]; format!("{:?} {:?}", Saider::saidify(d, Some(DIGESTS[b % 9]), None, None, None).map(|x| x.1.to_json()).ok(), common::sizeify(d, None).map(|x| x.raw).ok()) }
            })
        };
        let s = match guarded(go) { Ok(Ok(s)) => s, Ok(Err(e)) => format!("Err {e}"), Err(e) => format!("Panic {e:?}") };
        let h = fnv(s.as_bytes());
        (s, h)
    };
    let want: Vec<u64> = script.iter().map(|s| exec(s).1).collect();
    let mid = snap();
    let workers = 8;
    let starts: Vec<usize> = (0..workers).map(|_| c.rng.below(calls)).collect();
    let barrier = std::sync::Barrier::new(workers);
    let got: Vec<Vec<(usize, u64)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = starts.iter().map(|st| { let (b, e, s) = (&barrier, &exec, &script); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { b.wait(); (0..calls).map(|k| { let i = (k + st) % calls; (i, e(&s[i]).1) }).collect::<Vec<_>>() }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let after = snap();
    c.input(format!("objects {}", fnv(before.as_bytes())));
    c.check("shared-object-unchanged", "sequential", before == mid, || "an object changed while it was only read".into());
    c.check("shared-object-unchanged", "threads", before == after, || "an object changed while threads only read it".into());
    for g in &got { for (i, h) in g {
        let ok = *h == want[*i];
        c.check("same-on-shared-objects", "", ok, || format!("call {:?} gave another result under threads", script[*i]));
    } }
    *c.st.events.entry(("calls on shared objects", "done")).or_default() += (calls * (workers + 1)) as u64;
    c.seen("schedules", &format!("{starts:?}"));
}

// ---------------------------------------------------------------- C29
/// The workloads the sanitizers watch: a report ends the process, so to come back is to be clean.
pub fn c29(run: &Run) {
    // for the sanitizer that watches what is read before it is written, and for which threads are no matter
    let solo = std::env::var_os("KMON_SOLO").is_some();
    run.require(if solo { &["survived"] } else { &["survived", "survived-sharing"] });
    if solo { run.enumerate("large material", LARGE.len() as u64 * 8, large); return solitary(run); }
    // the same calls at the same moment: hidden shared state is touched from several threads
    run.section_exact("together", if run.tier == Tier::Thorough { 4000 } else { 150 }, 1, |c| {
        let (seed, base) = (key(c.run.seed, "together"), c.idx * 40);
        let workers = 4;
        let barrier = std::sync::Barrier::new(workers);
        let counts: Vec<u64> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..workers).map(|w| { let b = &barrier; std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let mut n = 0;
                b.wait();
                for i in 0..40u64 { let i = if w % 2 == 0 { i } else { (i + 3) % 40 }; run_case(seed, key(seed, "p"), base + i, true, &mut |_, _, _| n += 1); }
                n
            }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        *c.st.events.entry(("calls made together", "done")).or_default() += counts.iter().sum::<u64>();
        c.judge("survived-sharing");
        c.input(format!("{base}"));
    });
    run.section_exact("shared objects", if run.tier == Tier::Thorough { 150 } else { 8 }, 1, |c| { shared_objects(c); c.judge("survived-sharing"); });
    // objects handed from thread to thread, used and dropped elsewhere
    run.section_exact("exchange", if run.tier == Tier::Thorough { 4000 } else { 200 }, 1, exchange);
    // every form of every code cut at every place, each in a block of memory of exactly its size
    run.enumerate("large material", LARGE.len() as u64 * 8, large);
    solitary(run)
}
const LARGE: &[usize] = &[1000, 2047, 4095, 4096, 4097, 8191, 8192, 8193, 12285, 12286, 12287, 12288, 16384, 30001, 65535, 65536, 65537, 150_000];
/// material far longer than what is usual, by every route
fn large(c: &mut Case) {
    use crate::lib_api::TM;
    let (n, kind) = (LARGE[c.idx as usize % LARGE.len()], c.idx as usize / LARGE.len());
    let mut calls = 0u64;
    let mut go = |f: &dyn Fn() -> anyhow::Result<Vec<u8>>| if let Ok(Ok(b)) = guarded(f) { if fnv(&b) == 7 { std::hint::black_box(&b); } calls += 1; };
    match kind {
        0..=2 => for m in MATTER.iter().filter(|m| m.variable()) {
            let raw = c.rng.bytes(n);
            let Some(p) = construct(m.code, &raw) else { continue };
            let b = p.bin();
            let all = |m: TM| -> anyhow::Result<Vec<u8>> { Ok([m.qb64b()?, m.qb2()?, m.qb64()?.into_bytes(), m.raw()].concat()) };
            match kind {
                0 => go(&|| all(<TM as Matter>::new_with_code_and_raw(m.code, &raw)?)),
                1 => { go(&|| all(<TM as Matter>::new_with_qb64(&p.text)?)); go(&|| all(<TM as Matter>::new_with_qb64b(p.text.as_bytes())?)); }
                _ => go(&|| all(<TM as Matter>::new_with_qb2(&b)?)),
            }
        },
        3 => {
            let t: String = (0..n).map(|_| *c.rng.pick(&['a', 'Z', '0', '_', '-'])).collect();
            go(&|| { let x = Bexter::new_with_bext(&t)?; Ok([x.qb64b()?, x.qb2()?, x.bext()?.into_bytes()].concat()) });
            let t: String = (0..n / 4).map(|_| format!("-{}", c.rng.pick(&["a", "bc", "0", "7"]))).collect();
            go(&|| { let x = keride::pathing::pather::Pather::new_with_bext(&t)?; Ok([x.qb64b()?, x.qb2()?, x.path()?.to_json()?.into_bytes()].concat()) });
        }
        4 => {
            let b = c.rng.bytes(n);
            for code in DIGESTS { go(&|| { let d = Diger::new_with_ser(&b, Some(code))?; Ok([d.raw(), vec![d.verify(&b)? as u8]].concat()) }); }
            for code in ["A", "J", "Q"] {
                let s = crate::p_crypto::any_seed(&mut c.rng, code);
                go(&|| { let g = keride::signing::Signer::new_with_raw(&s, None, Some(code))?; let x = g.sign_unindexed(&b)?; Ok([x.raw(), vec![g.verfer().verify(&x.raw(), &b)? as u8]].concat()) });
            }
        }
        5 => {
            let mut d = crate::p_docs::inception(&mut c.rng, "D");
            d["a"] = json!([gen::key(&mut c.rng).repeat(n / 4), {"s": "x".repeat(n)}]);
            let d = gen::keride(&d);
            go(&|| { let s = Serder::new_with_ked(&d, None, None)?; Ok([s.raw(), Serder::new_with_raw(&s.raw())?.pretty(None)?.into_bytes()].concat()) });
            go(&|| { let s = Saider::saidify(&d, None, None, None, None)?; Ok(s.1.to_json()?.into_bytes()) });
        }
        6 => {
            let k = (n / 40).min(900);
            let t = gen::keride(&json!([vec!["1/3"; k], vec!["1"; 3]]));
            go(&|| { let x = Tholder::new_with_sith(&t)?; let l = x.limen()?; let y = Tholder::new_with_limen(&l)?; Ok([l, vec![y.satisfy(&(0..k as u32 + 3).collect::<Vec<_>>())? as u8], y.to_json()?.into_bytes()].concat()) });
        }
        _ => {
            let d = gen::keride(&json!({"v": "KERI10JSON000000_", "t": "icp", "a": (0..n / 50).map(|i| json!({"i": i, "d": "x"})).collect::<Vec<_>>()}));
            go(&|| { let x = common::sizeify(&d, None)?; Ok(x.raw) });
            let p = keride::pathing::pather::Pather::new_with_bext(&format!("-a-{}-d", n / 100)).unwrap();
            go(&|| Ok(format!("{:?}", p.resolve(&d)?).into_bytes()));
        }
    }
    *c.st.events.entry(("calls on large material", "done")).or_default() += calls;
    c.judge("survived");
    c.input(format!("{n} {kind}"));
}
fn solitary(run: &Run) {
    run.enumerate("exact fit", MATTER.len() as u64 + INDEXER.len() as u64 + COUNTER.len() as u64, exact_fit);
    run.section("hostile", 40_000, |c| {
        let pool = key(c.run.seed, "c29") ^ (c.idx / 997);
        let (seed, i, small) = (c.run.seed, c.idx, c.rng.chance(2, 3));
        let mut n = vec![];
        let name = run_case(seed, pool, i, small, &mut |api, out, _| n.push((api, match out { Out::Ok(_) | Out::Opaque => "ok", Out::Err(_) => "refused", Out::Panic(..) => "panic (judged by C07)" })));
        for k in &n { *c.st.events.entry(*k).or_default() += 1; }
        c.input(format!("{seed} {i}"));
        c.seen("api and outcome", &format!("{n:?}"));
        c.judge("survived");
        c.seen("operation", name);
    });
}
fn exact_fit(c: &mut Case) {
    use crate::lib_api::{TI, TM, TYPES};
    let i = c.idx as usize;
    let (text, raw, code, kind) = if i < MATTER.len() {
        let m = &MATTER[i];
        let raw = if m.variable() { let n = *c.rng.pick(&[0usize, 1, 2, 3, 9, 20]) * 3 + (3 - m.ls) % 3; c.rng.bytes(n) } else { c.rng.bytes(m.rs()) };
        (construct(m.code, &raw).map(|p| p.text).unwrap_or_default(), raw, m.code, 0)
    } else if i < MATTER.len() + INDEXER.len() {
        let k = &INDEXER[i - MATTER.len()];
        let g = (0..200).map(|_| any_isig(&mut c.rng)).find(|g| g.code == k.code);
        g.map(|g| (g.text.clone(), g.raw.clone(), k.code, 1)).unwrap_or_default()
    } else {
        let k = &COUNTER[i - MATTER.len() - INDEXER.len()];
        (cencode(k.code, 1).unwrap_or_default(), vec![], k.code, 2)
    };
    let bin = b64d(text.as_bytes()).unwrap_or_default();
    let mut n = 0u64;
    let mut go = |f: &dyn Fn() -> bool| { let _ = guarded(f); n += 1; };
    let ends = |l: usize| (0..=l.min(24)).chain((25..l).filter(move |k| k % 7 == 0 || k + 6 > l)).chain(if l > 24 { vec![l] } else { vec![] });
    for l in ends(text.len()) {
        let b: Box<[u8]> = text.as_bytes()[..l].into();
        let t: Box<str> = text[..l].into();
        match kind {
            0 => {
                go(&|| TM::new_with_qb64(&t).is_ok());
                go(&|| TM::new_with_qb64b(&b).is_ok());
                if l < 12 || l + 4 > text.len() { for ty in TYPES { go(&|| (ty.qb64)(&t).is_ok()); go(&|| (ty.qb64b)(&b).is_ok()); } }
            }
            1 => { go(&|| TI::new_with_qb64(&t).is_ok()); go(&|| TI::new_with_qb64b(&b).is_ok()); go(&|| Siger::new_with_qb64(&t, None).is_ok()); go(&|| Siger::new_with_qb64b(&b, None).is_ok()) }
            _ => { go(&|| Counter::new_with_qb64(&t).is_ok()); go(&|| Counter::new_with_qb64b(&b).is_ok()) }
        }
    }
    for l in ends(bin.len()) {
        let b: Box<[u8]> = bin[..l].into();
        match kind {
            0 => { go(&|| TM::new_with_qb2(&b).is_ok()); if l < 12 || l + 4 > bin.len() { for ty in TYPES { go(&|| (ty.qb2)(&b).is_ok()); } } }
            1 => { go(&|| TI::new_with_qb2(&b).is_ok()); go(&|| Siger::new_with_qb2(&b, None).is_ok()) }
            _ => go(&|| Counter::new_with_qb2(&b).is_ok()),
        }
    }
    for l in ends(raw.len() + 2) {
        let mut b = raw.clone();
        b.resize(l, 7);
        let b: Box<[u8]> = b.into();
        match kind {
            0 => { go(&|| TM::new_with_code_and_raw(code, &b).is_ok()); if l + 4 > raw.len() { for ty in TYPES { go(&|| (ty.raw)(code, &b).is_ok()); } } }
            1 => { go(&|| TI::new_with_code_and_raw(code, &b, 0, None).is_ok()); go(&|| Siger::new_with_raw(&b, None, Some(0), None, Some(code)).is_ok()) }
            _ => {}
        }
    }
    *c.st.events.entry(("exact-fit decodes", "done")).or_default() += n;
    c.judge("survived");
    c.input(format!("{code} {kind} {n}"));
}
fn exchange(c: &mut Case) {
    use keride::signing::Signer;
    use std::sync::mpsc::channel;
    use std::sync::Arc;
    enum Obj { Sg(Signer), Sd(Arc<Serder>), Th(Tholder), Sl(Salter), Pa(keride::pathing::pather::Pather), Va(Arc<keride::data::Value>) }
    let n = c.rng.range(10, 40);
    let mut objs = vec![];
    for _ in 0..n {
        match c.rng.below(6) {
            0 => { let code = *c.rng.pick(&["A", "J", "Q"]); let s = crate::p_crypto::any_seed(&mut c.rng, code); objs.extend(Signer::new_with_raw(&s, None, Some(code)).ok().map(Obj::Sg)); }
            1 => { let d = gen::keride(&crate::p_docs::event(&mut c.rng).0); if let Ok(Ok(s)) = guarded(|| Serder::new_with_ked(&d, None, None)) { let s = Arc::new(s); objs.push(Obj::Sd(s.clone())); objs.push(Obj::Sd(s)); } }
            2 => { let t = gen::keride(&crate::p_types::weighted(&mut c.rng).spelled); objs.extend(guarded(|| Tholder::new_with_sith(&t).ok()).ok().flatten().map(Obj::Th)); }
            3 => { let b = c.rng.bytes(16); objs.extend(Salter::new_with_raw(&b, None, Some("min")).ok().map(Obj::Sl)); }
            4 => { objs.extend(guarded(|| keride::pathing::pather::Pather::new_with_bext("-a-0-b").ok()).ok().flatten().map(Obj::Pa)); }
            _ => { let v = Arc::new(gen::keride(&gen::document(&mut c.rng))); objs.push(Obj::Va(v.clone())); objs.push(Obj::Va(v)); }
        }
    }
    c.rng.shuffle(&mut objs);
    let used = std::thread::scope(|sc| {
        let (t1, r1) = channel::<Obj>();
        let (t2, r2) = channel::<Obj>();
        let work = |o: &Obj| { let _ = guarded(|| match o {
            Obj::Sg(s) => { let g = s.sign_unindexed(b"x").map(|g| s.verfer().verify(&g.raw(), b"x")); let t = s.clone(); format!("{:?} {}", g.is_ok(), t == *s) }
            Obj::Sd(s) => format!("{:?} {:?} {:?}", s.verfers(), s.tholder(), s.raw()),
            Obj::Th(t) => format!("{:?} {:?}", t.satisfy(&[0, 1, 2]), t.limen()),
            Obj::Sl(s) => format!("{:?} {:?}", s.qb2(), s.stretch(Some(32), Some("x"), None, Some(true))),
            Obj::Pa(p) => format!("{:?} {:?}", p.path(), p.qb64()),
            Obj::Va(v) => format!("{:?} {:?}", v.to_json(), v["a"]),
        }); };
        let a = sc.spawn(move || { let mut k = 0u64; for o in r1 { work(&o); k += 1; if t2.send(o).is_err() { break } } k });
        let b = sc.spawn(move || { let mut k = 0u64; let mut held = vec![]; for o in r2 { work(&o); held.push(o); k += 1; if held.len() > 5 { held.swap_remove((k as usize) % 5); } } k });
        for o in objs { work(&o); if t1.send(o).is_err() { break } }
        drop(t1);
        a.join().unwrap() + b.join().unwrap()
    });
    *c.st.events.entry(("uses of exchanged objects", "done")).or_default() += used;
    c.judge("survived-sharing");
    c.input(format!("{n} {used}"));
}
/// Concrete calls for the interpreter (arguments are generated by the native build, interpreting a generator is slow).
pub fn corpus(args: &[String]) {
    let (seed, n) = (args[2].parse::<u64>().unwrap(), args[3].parse::<u64>().unwrap());
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let mut g = G { r: Rng::new(key(seed, "corpus")), pool: key(seed, "corpus pool"), small: true };
    for _ in 0..n {
        let k = *g.r.pick(&["mt", "mt", "mb", "mb", "it", "ib", "ct", "cb", "ty", "ty", "tb", "th", "th", "li", "nu", "tx", "tx", "pa", "js", "sd", "sd", "sn", "dg"]);
        let b = match k {
            "mb" | "ib" | "cb" | "tb" => if g.r.chance(1, 3) { any_isig(&mut g.r).bin() } else { g.bytes() },
            "mt" | "it" | "ct" | "ty" | "tx" | "nu" => match (k, g.r.below(3)) { ("it", 0) => any_isig(&mut g.r).text, ("ct", 0) => { let (c, n) = any_counter(&mut g.r); cencode(c.code, n as u64).unwrap_or_default() } _ => g.text() }.into_bytes(),
            "th" => if g.r.bool() { crate::p_types::weighted(&mut g.r).spelled } else { crate::p_types::malformed(&mut g.r).0 }.to_string().into_bytes(),
            "li" => { let t = gen::keride(&crate::p_types::weighted(&mut g.r).spelled); guarded(|| Tholder::new_with_sith(&t).and_then(|t| t.limen())).ok().and_then(|x| x.ok()).unwrap_or_default() }
            "pa" => { let k = g.r.range(1, 3); (0..k).map(|_| format!("-{}", gen::key(&mut g.r))).collect::<String>().into_bytes() }
            "js" => g.doc().to_string().into_bytes(),
            "sd" | "sn" => g.message(),
            _ => { let k = *g.r.pick(&[0usize, 1, 5, 64, 65, 128]); g.r.bytes(k) }
        };
        if b.len() > 700 { continue }
        println!("{k} {}", hex(&b));
    }
}
/// one line of the corpus; the number of calls that gave a value
fn interp_line(k: &str, b: &[u8], doc: &keride::data::Value) -> u64 {
    use crate::lib_api::{TI, TM};
    use keride::pathing::pather::Pather;
    let n = std::cell::Cell::new(0u64);
    fn go(n: &std::cell::Cell<u64>, f: impl FnOnce() -> anyhow::Result<()>) { if let Ok(Ok(())) = guarded(f) { n.set(n.get() + 1) } }
    let t = std::str::from_utf8(b).ok();
    let each = |m: &dyn Fn() -> anyhow::Result<(String, Vec<u8>, Vec<u8>, usize)>| go(&n, || m().map(|x| { std::str::from_utf8(x.0.as_bytes()).expect("a text that is not UTF-8"); }));
    macro_rules! forms { ($e:expr) => { each(&|| { let x = $e?; Ok((x.qb64()?, x.qb64b()?, x.qb2()?, x.full_size()?)) }) } }
    match (k, t) {
        ("mt", Some(t)) => { forms!(TM::new_with_qb64(t)); forms!(TM::new_with_qb64b(b)) }
        ("mb", _) => { forms!(TM::new_with_qb2(b)); forms!(TM::new_with_code_and_raw(["E", "0B", "1AAA", "4A", "4B", "M", "7AAA"][b.len() % 7], b)) }
        ("it", Some(t)) => { forms!(TI::new_with_qb64(t)); forms!(Siger::new_with_qb64(t, None)) }
        ("ib", _) => { forms!(TI::new_with_qb2(b)); forms!(Siger::new_with_qb2(b, None)) }
        ("ct", Some(t)) => each(&|| { let x = Counter::new_with_qb64(t)?; Ok((x.qb64()?, x.qb64b()?, x.qb2()?, x.full_size()?)) }),
        ("cb", _) => each(&|| { let x = Counter::new_with_qb2(b)?; Ok((x.qb64()?, x.qb64b()?, x.qb2()?, x.full_size()?)) }),
        ("ty", Some(t)) => {
            let t = Some(t);
            forms!(Verfer::new(None, None, None, t, None)); forms!(Cigar::new(None, None, None, None, t, None)); forms!(Diger::new(None, None, None, None, t, None));
            forms!(Number::new(None, None, None, None, None, t, None)); forms!(Dater::new(None, None, None, None, t, None)); forms!(Bexter::new(None, None, None, None, t, None));
            forms!(Pather::new(None, None, None, None, None, t, None)); forms!(Salter::new(None, None, None, None, t, None));
        }
        ("tb", _) => {
            let t = Some(b);
            forms!(Verfer::new(None, None, None, None, t)); forms!(Seqner::new(None, None, None, None, None, None, t)); forms!(Dater::new(None, None, None, None, None, t));
            forms!(Bexter::new(None, None, None, None, None, t)); forms!(Salter::new(None, None, None, None, None, t));
        }
        ("th", Some(t)) => {
            let v = keride::data::Value::from(t);
            go(&n, || { let x = Tholder::new_with_sith(&v)?; x.satisfy(&[0, 1, 3])?; x.limen()?; x.to_json()?; Ok(()) });
            if let Ok(j) = serde_json::from_str::<serde_json::Value>(t) { go(&n, || { let x = Tholder::new_with_sith(&gen::keride(&j))?; x.satisfy(&[0, 1, 2, 5])?; x.limen()?; x.sith()?; Ok(()) }); }
        }
        ("li", _) => go(&n, || { let x = Tholder::new_with_limen(b)?; x.satisfy(&[0])?; x.to_json()?; Ok(()) }),
        ("nu", Some(t)) => { go(&n, || { Number::new_with_numh(t)?.qb64()?; Ok(()) }); go(&n, || { Seqner::new_with_snh(t)?.snh()?; Ok(()) }) }
        ("tx", Some(t)) => {
            go(&n, || { let x = Bexter::new_with_bext(t)?; x.bext()?; x.qb2()?; Ok(()) });
            go(&n, || { let x = Dater::new_with_dts(t, None)?; x.dts()?; Ok(()) });
            go(&n, || { let x = Pather::new_with_bext(t)?; x.path()?; x.qb2()?; Ok(()) });
            go(&n, || { common::deversify(t)?; Ok(()) });
            go(&n, || { Counter::sem_ver_str_to_b64(t)?; Ok(()) });
        }
        ("pa", Some(t)) => {
            go(&n, || { let x = Pather::new_with_bext(t)?; let r = Pather::new_with_bext("-a")?; let _ = x.resolve(doc); let _ = x.root(&r); let _ = x.strip(&r); let _ = x.starts_with(&r); Ok(()) });
        }
        ("js", Some(t)) => if let Ok(j) = serde_json::from_str::<serde_json::Value>(t) {
            let v = gen::keride(&j);
            go(&n, || { v.to_json()?; Ok(()) });
            go(&n, || { common::sizeify(&v, None)?; Ok(()) });
            go(&n, || { Saider::saidify(&v, None, None, None, None)?; Ok(()) });
            go(&n, || { Serder::new_with_ked(&v, None, None)?; Ok(()) });
        },
        ("sd", _) => {
            go(&n, || { let s = Serder::new_with_raw(b)?; let _ = (s.sn(), s.pre(), s.est(), s.tholder(), s.ntholder()); s.pretty(None)?; Ok(()) });
            go(&n, || { let s = Creder::new_with_raw(b)?; let _ = (s.issuer(), s.schema(), s.status(), s.chains()); Ok(()) });
        }
        ("sn", _) => go(&n, || { common::sniff(b)?; Ok(()) }),
        ("dg", _) => for code in DIGESTS { go(&n, || { let d = Diger::new_with_ser(b, Some(code))?; assert!(d.verify(b)?); Ok(()) }) },
        _ => {}
    }
    n.get()
}
/// for the interpreter: file, first line, step, seconds, threads; progress on standard output
pub fn interp(args: &[String]) {
    let num = |k: usize| args[k].parse::<usize>().unwrap();
    let (from, step, secs, threads) = (num(3), num(4), num(5), num(6));
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let doc = gen::keride(&json!({"a": [{"b": 1, "0": "x"}, [2, 3]], "i": {"a": {"a": null}}, "k": ["p", "q"]}));
    let t0 = std::time::Instant::now();
    let mut i = from;
    while i < lines.len() && t0.elapsed().as_secs() < secs as u64 {
        println!("at {i} {}", lines[i]);
        let (k, h) = lines[i].split_once(' ').unwrap_or((lines[i], ""));
        let b: Vec<u8> = (0..h.len() / 2).map(|j| u8::from_str_radix(&h[2 * j..2 * j + 2], 16).unwrap()).collect();
        let calls = if threads <= 1 { interp_line(k, &b, &doc) } else {
            std::thread::scope(|sc| {
                let (b, doc) = (&b, &doc);
                let hs: Vec<_> = (0..threads).map(|_| sc.spawn(move || interp_line(k, b, doc))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).sum()
            })
        };
        println!("done {i} {k} {calls} {}", t0.elapsed().as_millis());
        i += step;
    }
}
