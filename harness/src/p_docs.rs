//! C11..C14, C28, C30: self-addressing identifiers, version strings, messages, prefixes, receipts, accessors.
use crate::fw::*;
use crate::gen;
use crate::lib_api::*;
use crate::model::*;
use crate::p_types::*;
use keride::cesr::common::{deversify, sizeify, sniff, versify, Version};
use keride::cesr::*;
use keride::data::Value;
use keride::prefexing::prefixer::Prefixer;
use serde_json::{json, Map, Value as J};

fn vstring(ident: &str, major: u32, minor: u32, size: usize) -> String {
    format!("{ident}{major:x}{minor:x}JSON{size:06x}_")
}
/// length of the qualified text of a digest code
fn said_len(code: &str) -> usize {
    qualify(code, &vec![0u8; mc(code).unwrap().rs()]).len()
}
/// the protocol of an exactly formed, supported version string
fn vparse(v: &str) -> Option<(String, u32, u32, u32)> {
    let b = v.as_bytes();
    if b.len() != 17 || b[16] != b'_' || &b[6..10] != b"JSON" { return None; }
    let hexd = |x: &[u8]| x.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c));
    if !hexd(&b[4..6]) || !hexd(&b[10..16]) { return None; }
    let id = &v[..4];
    if id != "KERI" && id != "ACDC" { return None; }
    let n = |s: &str| u32::from_str_radix(s, 16).unwrap();
    Some((id.into(), n(&v[4..5]), n(&v[5..6]), n(&v[10..16])))
}
/// where the first thing shaped like a version string starts
fn vfind(raw: &[u8]) -> Option<usize> {
    let up = |c: &u8| c.is_ascii_uppercase();
    let hx = |c: &u8| c.is_ascii_digit() || (b'a'..=b'f').contains(c);
    raw.windows(17).position(|w| w[..4].iter().all(up) && w[4..6].iter().all(hx) && w[6..10].iter().all(up) && w[10..16].iter().all(hx) && w[16] == b'_')
}
/// the document with its true size in the version field; None when it cannot be sized
pub fn sized(doc: &J) -> Option<J> {
    let v = doc.as_object()?.get("v")?.as_str()?;
    let (id, ma, mi, _) = vparse(v)?;
    if (ma, mi) != (1, 0) { return None; }
    let mut d = doc.clone();
    let n = d.to_string().len();
    if n > 0xff_ffff { return None; }
    d["v"] = json!(vstring(&id, 1, 0, n));
    let t = d.to_string();
    let at = vfind(t.as_bytes())?;
    if at > 12 || !t[at..].starts_with(d["v"].as_str().unwrap()) { return None; }
    // the match must be the version field itself
    if !t[..at].ends_with("\"v\":\"") { return None; }
    Some(d)
}
pub fn sized_or_same(d: &J) -> J { sized(d).unwrap_or_else(|| d.clone()) }
/// the document with filler as identifier (and true size), and the digest that identifies it
fn identify(doc: &J, code: &str, label: &str, ignore: &[String]) -> Option<(Vec<u8>, J)> {
    if !DIGESTS.contains(&code) { return None; }
    let mut d = doc.clone();
    d.as_object()?;
    d[label] = json!("#".repeat(said_len(code)));
    if doc.get("v").is_some() { d = sized(&d)?; }
    let mut s = Map::new();
    for (k, v) in d.as_object().unwrap() {
        if !ignore.contains(k) { s.insert(k.clone(), v.clone()); }
    }
    Some((digest(code, J::Object(s).to_string().as_bytes()), d))
}
fn any_ident(r: &mut Rng) -> &'static str { if r.chance(3, 4) { "KERI" } else { "ACDC" } }
fn tail_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        0 => vec![],
        1 => gen::b64(r, 40).into_bytes(),
        2 => { let n = r.range(1, 60); r.bytes(n) }
        3 => format!("-AAB{}", qualify("0B", &r.bytes(64))).into_bytes(),
        4 => format!("{{\"v\":\"{}\"}}", vstring("ACDC", 1, 0, 99)).into_bytes(),
        5 => vec![*r.pick(&[0xffu8, 0x80, 0xc3, 0xe2, 0, b' ', b'}', b'\n', b'"', b','])],
        _ => { let n = r.range(1, 3); let mut v = r.bytes(n); v.extend(b"KERI10JSON000000_"); v }
    }
}
static LABELS: &[&str] = &["d", "i", "id", "$id", "@id", "said", "é", "", "0", "a b"];
struct Doc {
    doc: J,
    label: String,
    ignore: Vec<String>,
    versioned: bool,
}
/// a document with an identifier field to fill, perhaps a version field, perhaps ignored fields
fn said_doc(r: &mut Rng) -> Doc {
    let label = match r.below(8) { 0 => { let mut l = gen::text(r); if l == "v" || l.len() > 3000 { l = "vv".into() } l } 1 => { let n = r.range(1, 40); (0..n).map(|_| gen::any_char(r)).collect::<String>() + "l" } _ => r.pick(LABELS).to_string() };
    let versioned = r.bool();
    let body = gen::document(r);
    let mut fields: Vec<(String, J)> = body.as_object().unwrap().iter().filter(|(k, _)| **k != label && *k != "v").map(|(k, v)| (k.clone(), v.clone())).collect();
    let at = r.below(fields.len() + 1);
    let dummy = match r.below(5) { 0 => json!(""), 1 => json!(qualify("E", &r.bytes(32))), 2 => gen::value(r, 2), 3 => json!("#".repeat(44)), _ => json!("") };
    fields.insert(at, (label.clone(), dummy));
    let mut m = Map::new();
    if versioned { m.insert("v".into(), json!(vstring(any_ident(r), 1, 0, if r.bool() { 0 } else { r.below(0xff_ffff) }))); }
    for (k, v) in fields { m.insert(k, v); }
    let mut ignore = vec![];
    if r.chance(1, 3) {
        for k in m.keys() { if *k != label && *k != "v" && r.chance(1, 3) { ignore.push(k.clone()) } }
        if r.chance(1, 3) { ignore.push("absent".into()) }
        // the same name twice, and many names
        if r.chance(1, 4) && !ignore.is_empty() { let k = r.pick(&ignore).clone(); ignore.push(k) }
        if r.chance(1, 8) { let n = gen::size(r).min(300); for i in 0..n { ignore.push(format!("absent{i}")) } }
        if r.chance(1, 8) {
            let n = r.range(5, 40);
            for i in 0..n { m.insert(format!("ig{i}"), gen::scalar(r)); ignore.push(format!("ig{i}")) }
        }
        // names that occur only further inside are not ignored there
        if r.chance(1, 4) { for (k, v) in m.iter() { if let J::Object(o) = v { for (n, _) in o { if !m.contains_key(n) && n != &label && n != "v" && r.bool() { ignore.push(n.clone()) } } } let _ = k; } }
        ignore.retain(|k| *k != label && k != "v");
        // even the identifier and the version field
        if r.chance(1, 8) { ignore.push(label.clone()) }
        if r.chance(1, 8) { ignore.push("v".into()) }
        r.shuffle(&mut ignore);
    }
    let mut doc = J::Object(m);
    if r.chance(1, 6) { gen::coincide(r, &mut doc, &["v"]) }
    Doc { doc, label, ignore, versioned }
}
fn some_ignore(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }

/// one change somewhere in the document
fn mutate_doc(r: &mut Rng, j: &J) -> (J, &'static str) {
    let mut d = j.clone();
    let pl = gen::places(&d);
    for _ in 0..30 {
        let p = r.pick(&pl).clone();
        match r.below(8) {
            0 if !p.is_empty() => { *gen::at_mut(&mut d, &p) = gen::value(r, 1); if d.to_string() != j.to_string() { return (d, "value"); } }
            1 if !p.is_empty() => {
                // the smallest change of the value
                let s = gen::at_mut(&mut d, &p);
                let new = match s.clone() {
                    J::Null => json!(false), J::Bool(b) => json!(!b),
                    J::Number(n) => if let Some(i) = n.as_i64() { json!(i.wrapping_add(1)) } else if let Some(u) = n.as_u64() { json!(u - 1) } else { json!(n.as_f64().unwrap() * 2.0 + 1.0) },
                    J::String(t) => { let mut c: Vec<char> = t.chars().collect(); if c.is_empty() { json!(" ") } else { let i = r.below(c.len()); c[i] = if c[i] == 'x' { 'y' } else { 'x' }; json!(c.into_iter().collect::<String>()) } }
                    J::Array(mut a) => { if a.is_empty() { a.push(J::Null) } else { let i = r.below(a.len()); a.remove(i); } J::Array(a) }
                    J::Object(mut m) => { m.insert("extra".into(), J::Null); J::Object(m) }
                };
                *s = new;
                if d.to_string() != j.to_string() { return (d, "small value change"); }
            }
            2 => if let J::Object(m) = gen::at_mut(&mut d, &p) {
                if m.is_empty() { continue; }
                let i = r.below(m.len());
                let k = m.keys().nth(i).unwrap().clone();
                let nk = format!("{k}{}", r.pick(&["x", " ", "1"]));
                let v: Vec<(String, J)> = m.iter().map(|(a, b)| (if *a == k { nk.clone() } else { a.clone() }, b.clone())).collect();
                *m = v.into_iter().collect();
                if d.to_string() != j.to_string() { return (d, "name"); }
            }
            3 | 4 => if let J::Object(m) = gen::at_mut(&mut d, &p) {
                if m.len() < 2 { continue; }
                let mut v: Vec<(String, J)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                let i = r.below(v.len() - 1);
                v.swap(i, i + 1);
                *m = v.into_iter().collect();
                return (d, "field order");
            }
            5 => if let J::Object(m) = gen::at_mut(&mut d, &p) {
                if m.is_empty() { continue; }
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                m.shift_remove(&k);
                return (d, "field removed");
            }
            6 => if let J::Object(m) = gen::at_mut(&mut d, &p) {
                let mut k = gen::key(r);
                while m.contains_key(&k) { k.push('z') }
                let mut v: Vec<(String, J)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                let i = r.below(v.len() + 1);
                v.insert(i, (k, gen::scalar(r)));
                *m = v.into_iter().collect();
                return (d, "field added");
            }
            _ => if let J::Array(a) = gen::at_mut(&mut d, &p) {
                if a.len() < 2 { continue; }
                let i = r.below(a.len() - 1);
                a.swap(i, i + 1);
                if d.to_string() != j.to_string() { return (d, "array order"); }
            }
        }
        d = j.clone();
    }
    d["zzzz"] = json!(1);
    (d, "field added")
}
/// false and a refusal both mean that verification did not succeed
fn judge_verdict(c: &mut Case, rule: &'static str, key: &str, o: Obs<bool>, want: bool) {
    c.judge(rule);
    let got = match &o { Obs::Ok(b) => *b, Obs::Err(_) => false, Obs::Panic(_) => return };
    if got != want {
        let d = o.describe();
        c.violation(format!("{rule}|{key}"), format!("verification gave {d} {got}, expected {want}"));
    }
}

pub fn c11(run: &Run) {
    run.require(&["identifier", "document", "repeat", "verifies", "from-document", "change-fails", "strict-identifier", "strict-size", "wrong-identifier-fails", "refused", "ignored-change"]);
    run.section("identify and alter", 5000, |c| {
        let t = said_doc(&mut c.rng);
        let code = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(DIGESTS)) };
        let cd = code.unwrap_or("E");
        let lab = if t.label == "d" && c.rng.bool() { None } else { Some(t.label.as_str()) };
        let ig = some_ignore(&t.ignore);
        let ign: Option<&[&str]> = if ig.is_empty() && c.rng.bool() { None } else { Some(&ig) };
        let kind = if c.rng.chance(1, 4) { Some("JSON") } else { None };
        c.input(format!("{cd} {:?} ignoring {:?} {}", t.label, t.ignore, t.doc));
        let Some((raw, filled)) = identify(&t.doc, cd, &t.label, &t.ignore) else { return };
        let said = qualify(cd, &raw);
        let mut want = filled;
        want[t.label.as_str()] = json!(said);
        c.seen("shape", &format!("{cd} {} {} {}", t.versioned, t.ignore.len(), t.doc.as_object().unwrap().len()));
        let kd = gen::keride(&t.doc);
        let o = c.call("Saider::saidify", || { let (s, d) = Saider::saidify(&kd, code, kind, lab, ign)?; Ok((s, d)) });
        let Some((s, d)) = c.must("identifier", "made", o) else { return };
        let o = c.call("Saider", || Ok((s.qb64()?, s.code(), s.raw())));
        c.must_eq("identifier", "", o, &(said.clone(), cd.to_string(), raw.clone()));
        let o = c.call("Value.to_json", || d.to_json());
        c.must_eq("document", "", o, &want.to_string());
        let o = c.call("Value.to_json", || kd.to_json());
        c.must_eq("document", "argument untouched", o, &t.doc.to_string());
        let o = c.call("Saider::saidify", || { let (s, d) = Saider::saidify(&d, code, kind, lab, ign)?; Ok((s.qb64()?, d.to_json()?)) });
        c.must_eq("repeat", "on the result", o, &(said.clone(), want.to_string()));
        let o = c.call("Saider::saidify", || { let (s, d) = Saider::saidify(&kd, code, kind, lab, ign)?; Ok((s.qb64()?, d.to_json()?)) });
        c.must_eq("repeat", "again", o, &(said.clone(), want.to_string()));
        let o = c.call("Saider", || Saider::new_with_sad(&d, lab, kind, ign, code)?.qb64());
        if code.is_some() { c.must_eq("from-document", "code given", o, &said); }
        let o = c.call("Saider", || Saider::new_with_sad(&d, lab, kind, ign, None)?.qb64());
        c.must_eq("from-document", "code from the document", o, &said);
        for (p, v) in [(None, None), (Some(true), Some(true)), (Some(false), Some(false)), (Some(true), Some(false)), (None, Some(true))] {
            let o = c.call("Saider.verify", || s.verify(&d, p, v, kind, lab, ign));
            judge_verdict(c, "verifies", "", o, true);
        }
        // through the forms of the identifier
        let o = c.call("Saider.verify", || Saider::new_with_qb2(&s.qb2()?)?.verify(&d, Some(true), None, kind, lab, ign));
        judge_verdict(c, "verifies", "from binary", o, true);
        // changes
        for _ in 0..8 {
            let (m, how) = mutate_doc(&mut c.rng, &want);
            let expect = identify(&m, cd, &t.label, &t.ignore).map(|(x, f)| (x == raw, f));
            let km = gen::keride(&m);
            let (p, v) = (*c.rng.pick(&[None, Some(false), Some(true)]), *c.rng.pick(&[None, Some(false), Some(true)]));
            let o = c.call("Saider.verify", || s.verify(&km, p, v, kind, lab, ign));
            match expect {
                Some((true, f)) => {
                    // same digest: only the identifier, the size or an ignored field changed
                    let id_differs = m.get(&t.label).and_then(|x| x.as_str()) != Some(&said);
                    let v_differs = t.versioned && m["v"] != f["v"];
                    if id_differs && p == Some(true) { judge_verdict(c, "strict-identifier", how, o, false); }
                    else if v_differs && v != Some(false) { judge_verdict(c, "strict-size", how, o, false); }
                    else if !id_differs && !v_differs { judge_verdict(c, "ignored-change", how, o, true); }
                }
                _ => judge_verdict(c, "change-fails", how, o, false),
            }
            c.seen("kinds of change", how);
        }
        // strict checks
        let mut m = want.clone();
        m[t.label.as_str()] = match c.rng.below(4) { 0 => json!(""), 1 => json!(5), 2 => json!(qualify(cd, &vec![7; raw.len()])), _ => { let mut b: Vec<u8> = said.clone().into_bytes(); let i = c.rng.range(2, b.len() - 2); b[i] = if b[i] == b'A' { b'B' } else { b'A' }; json!(String::from_utf8(b).unwrap()) } };
        let km = gen::keride(&m);
        let o = c.call("Saider.verify", || s.verify(&km, Some(true), None, kind, lab, ign));
        judge_verdict(c, "strict-identifier", "other identifier embedded", o, false);
        if t.versioned {
            let mut m = want.clone();
            let (id, _, _, n) = vparse(m["v"].as_str().unwrap()).unwrap();
            let n2 = (n as usize + c.rng.range(1, 1000)) & 0xff_ffff;
            m["v"] = json!(vstring(&id, 1, 0, n2));
            let km = gen::keride(&m);
            for v in [None, Some(true)] {
                let o = c.call("Saider.verify", || s.verify(&km, Some(true), v, kind, lab, ign));
                judge_verdict(c, "strict-size", "other size", o, false);
            }
            let other = if id == "KERI" { "ACDC" } else { "KERI" };
            m["v"] = json!(vstring(other, 1, 0, n as usize));
            let km = gen::keride(&m);
            let o = c.call("Saider.verify", || s.verify(&km, None, Some(false), kind, lab, ign));
            if t.ignore.iter().any(|k| k == "v") { judge_verdict(c, "ignored-change", "protocol", o, true) } else { judge_verdict(c, "change-fails", "protocol", o, false) }
        }
        // other identifiers
        let mut b = raw.clone();
        let i = c.rng.below(b.len());
        b[i] ^= 1 << c.rng.below(8);
        let o = c.call("Saider.verify", || Saider::new_with_raw(&b, Some(cd))?.verify(&d, None, None, kind, lab, ign));
        judge_verdict(c, "wrong-identifier-fails", "bit", o, false);
        let oc = *c.rng.pick(DIGESTS);
        if oc != cd && mc(oc).unwrap().rs() == raw.len() {
            let o = c.call("Saider.verify", || Saider::new_with_raw(&raw, Some(oc))?.verify(&d, None, None, kind, lab, ign));
            judge_verdict(c, "wrong-identifier-fails", "code", o, false);
        }
        // a field that is ignored here is not ignored when nothing is
        if let Some(k) = t.ignore.iter().find(|k| **k != t.label && *k != "v" && t.doc.get(k.as_str()).is_some()) {
            let o = c.call("Saider.verify", || s.verify(&d, None, None, kind, lab, None));
            let same = identify(&want, cd, &t.label, &[]).map(|x| x.0 == raw).unwrap_or(false);
            if !same { judge_verdict(c, "change-fails", "nothing ignored", o, false); }
            // its value of equal length does not matter
            let mut m = want.clone();
            if let Some(txt) = m[k.as_str()].as_str().map(|x| x.to_string()) {
                if txt.is_ascii() && !txt.is_empty() && txt.bytes().all(|b| b.is_ascii_alphanumeric()) {
                    m[k.as_str()] = json!("y".repeat(txt.len()));
                    let km = gen::keride(&m);
                    let o = c.call("Saider.verify", || s.verify(&km, Some(true), Some(true), kind, lab, ign));
                    judge_verdict(c, "ignored-change", "same length", o, true);
                }
            }
        }
    });
    // every character of a document changed, one at a time
    run.section("every character", 40, |c| {
        let t = loop { let t = said_doc(&mut c.rng); if t.doc.to_string().len() < 500 && t.label.len() < 50 { break t } };
        let cd = *c.rng.pick(DIGESTS);
        let ig = some_ignore(&t.ignore);
        c.input(format!("{cd} {:?} ignoring {:?} {}", t.label, t.ignore, t.doc));
        let Some((raw, mut want)) = identify(&t.doc, cd, &t.label, &t.ignore) else { return };
        want[t.label.as_str()] = json!(qualify(cd, &raw));
        let o = c.call("Saider::saidify", || { let (s, d) = Saider::saidify(&gen::keride(&t.doc), Some(cd), None, Some(&t.label), Some(&ig))?; Ok((s, d.to_json()?)) });
        let Some((s, d)) = c.must("identifier", "made", o) else { return };
        c.eq("document", "", &d, &want.to_string());
        let text: Vec<char> = want.to_string().chars().collect();
        for i in 0..text.len() {
            let mut m = text.clone();
            m[i] = match m[i] { '9' => '8', '0' => '1', d if d.is_ascii_digit() => ((d as u8) + 1) as char, 'a' => 'b', 'e' | 'E' => continue, l if l.is_ascii_alphabetic() => if l == 'x' { 'y' } else { 'x' }, ' ' => '_', '_' => '-', '-' => '_', l if !l.is_ascii() => 'é', _ => continue };
            if m == text { continue }
            let m: String = m.into_iter().collect();
            let Ok(j) = serde_json::from_str::<J>(&m) else { continue };
            if j == want || !j.is_object() { continue }
            let expect = identify(&j, cd, &t.label, &t.ignore).map(|(x, f)| (x == raw, f));
            let km = gen::keride(&j);
            let o = c.call("Saider.verify", || s.verify(&km, Some(true), Some(true), None, Some(&t.label), Some(&ig)));
            match expect {
                Some((true, f)) => {
                    let id_differs = j.get(&t.label) != want.get(&t.label);
                    let v_differs = t.versioned && j["v"] != f["v"];
                    judge_verdict(c, if id_differs { "strict-identifier" } else if v_differs { "strict-size" } else { "ignored-change" }, "character", o, !id_differs && !v_differs);
                }
                _ => judge_verdict(c, "change-fails", "character", o, false),
            }
        }
    });
    run.section("refusals", 3000, |c| {
        let t = said_doc(&mut c.rng);
        let ig = some_ignore(&t.ignore);
        let (doc, code, kind, key): (J, &str, Option<&str>, &'static str) = match c.rng.below(7) {
            0 => { let mut d = t.doc.clone(); d.as_object_mut().unwrap().shift_remove(&t.label); (d, "E", None, "no identifier field") }
            1 => (match c.rng.below(4) { 0 => json!([t.doc]), 1 => json!("text"), 2 => J::Null, _ => json!(7) }, "E", None, "not a document"),
            2 => (t.doc.clone(), *c.rng.pick(&["A", "B", "D", "0B", "1AAB", "", "0A", "M", "Z", "4A", "zz", "1AAG", "EE", "0"]), None, "no digest code"),
            3 => (t.doc.clone(), "E", Some(*c.rng.pick(&["CBOR", "MGPK", "json", "", "JSO"])), "unknown kind"),
            4 => { let mut m = Map::new(); m.insert("v".into(), json!(*c.rng.pick(&["", "KERI", "KERI10JSON000000", "KERI11JSON000000_", "KERI20JSON000000_", "keri10json000000_", "KERI10CBOR000000_", "XXXX10JSON000000_", "KERI10JSON00000G_"]))); for (k, v) in t.doc.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } } (J::Object(m), "E", None, "bad version string") }
            5 => { let mut m = Map::new(); m.insert("v".into(), gen::scalar(&mut c.rng)); for (k, v) in t.doc.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } } if m["v"].is_string() { m["v"] = json!(1) } (J::Object(m), "E", None, "version field of another type") }
            _ => { let mut m = t.doc.as_object().unwrap().clone(); m.shift_remove("v"); m.insert("a long field name".into(), json!(1)); let mut m2 = Map::new(); m2.insert("a long field name".into(), json!(1)); for (k, v) in m { m2.insert(k, v); } m2.insert("v".into(), json!("KERI10JSON000000_")); (J::Object(m2), "E", None, "version field not at the start") }
        };
        c.input(format!("{key}: {code} {kind:?} {} {doc}", t.label));
        let o = c.call("Saider::saidify", || Ok(Saider::saidify(&gen::keride(&doc), Some(code), kind, Some(&t.label), Some(&ig))?.0.qb64()?));
        c.refuse("refused", key, &o);
    });
}

// ---------------------------------------------------------------- C12
fn ver(a: u8, b: u8) -> Version { Version { major: a, minor: b } }
pub fn c12(run: &Run) {
    run.require(&["format", "parse", "format-refused", "parse-refused", "sized", "size-refused", "sniffed", "sniff-refused", "too-large-refused"]);
    run.enumerate("every protocol and version", 2 * 256, |c| {
        let id = ["KERI", "ACDC"][(c.idx / 256) as usize];
        let (a, b) = ((c.idx / 16 % 16) as u8, (c.idx % 16) as u8);
        for n in [0u32, 1, 15, 16, 255, 256, 0xffff, 0x10000, 0xff_ffff, 0xabcdef, 0xfedcba] { vs_case(c, id, a, b, n); }
    });
    run.section("sizes", 15000, |c| {
        let id = any_ident(&mut c.rng);
        let n = (c.rng.next() as u32 & 0xff_ffff) >> c.rng.below(24);
        let (a, b) = (c.rng.below(16) as u8, c.rng.below(16) as u8);
        vs_case(c, id, a, b, n);
    });
    run.section("refused formats", 4000, |c| {
        let id = c.rng.pick(&["KERI", "ACDC", "keri", "KER", "KERII", "", "XXXX", "CESR", "SPAC", "éé"]).to_string();
        let kind = c.rng.pick(&["JSON", "CBOR", "MGPK", "CESR", "json", "", "JSO", "JSONN"]).to_string();
        let v = ver(if c.rng.bool() { c.rng.below(16) as u8 } else { c.rng.byte() }, if c.rng.bool() { c.rng.below(16) as u8 } else { c.rng.byte() });
        let n = if c.rng.bool() { c.rng.below(1 << 24) as u32 } else { c.rng.next() as u32 };
        // half of the time one field alone is at fault, often by the smallest margin
        let (mut id, mut v, mut kind, mut n) = (id, v, kind, n);
        if c.rng.bool() {
            let at = c.rng.below(5);
            let edge = |r: &mut Rng| if r.bool() { *r.pick(&[15u8, 16, 17, 31, 32, 127, 128, 255]) } else { r.byte() };
            if at != 0 { id = any_ident(&mut c.rng).into() }
            if at != 1 { kind = "JSON".into() }
            v = ver(if at == 2 { edge(&mut c.rng) } else { c.rng.below(16) as u8 }, if at == 3 { edge(&mut c.rng) } else { c.rng.below(16) as u8 });
            n = if at == 4 { if c.rng.bool() { *c.rng.pick(&[0xff_fffe, 0xff_ffff, 0x100_0000, 0x100_0001, 0x1ff_ffff, 0xfff_ffff, 0x1000_0000, u32::MAX]) } else { c.rng.next() as u32 } } else { c.rng.below(1 << 24) as u32 };
        }
        c.input(format!("{id:?} {v:?} {kind:?} {n}"));
        let ok = ["KERI", "ACDC"].contains(&id.as_str()) && kind == "JSON" && v.major < 16 && v.minor < 16 && n < 1 << 24;
        let o = c.call("versify", || versify(Some(&id), Some(&v), Some(&kind), Some(n)));
        if ok { c.must_eq("format", "", o, &vstring(&id, v.major as u32, v.minor as u32, n as usize)); } else { c.refuse("format-refused", "", &o); }
    });
    run.enumerate("default format", 16, |c| {
        let (a, b, k, d) = (c.idx & 1 > 0, c.idx & 2 > 0, c.idx & 4 > 0, c.idx & 8 > 0);
        let v = ver(1, 0);
        let o = c.call("versify", || versify(a.then_some("KERI"), b.then_some(&v), k.then_some("JSON"), d.then_some(0)));
        c.must_eq("format", "defaults", o, &"KERI10JSON000000_".to_string());
    });
    run.section("malformed strings", 20000, |c| {
        let base = vstring(any_ident(&mut c.rng), c.rng.below(16) as u32, c.rng.below(16) as u32, c.rng.below(1 << 24));
        let s = match c.rng.below(8) {
            0 => gen::mutate_text(&mut c.rng, &base),
            1 => format!("{}{base}", gen::text(&mut c.rng)),
            2 => format!("{base}{}", gen::text(&mut c.rng)),
            3 => format!("{base}{base}"),
            4 => base.to_uppercase(),
            5 => base.to_lowercase(),
            6 => { let i = c.rng.below(17); let mut b = base.into_bytes(); b[i] = *c.rng.pick(b"GgZz09afAF_- xX/:@`"); String::from_utf8(b).unwrap() }
            _ => { let mut t = base.clone(); let i = c.rng.below(18); let x = gen::any_char(&mut c.rng); if c.rng.bool() { t.insert(i, x) } else { t.replace_range(i.min(16)..i.min(16) + 1, &x.to_string()) } t }
        };
        c.input(format!("{s:?}"));
        let o = c.call("deversify", || { let d = deversify(&s)?; Ok((d.ident, d.kind, d.version.major, d.version.minor, d.size)) });
        match vparse(&s) {
            Some((id, a, b, n)) => { c.must_eq("parse", "mutated", o, &(id, "JSON".to_string(), a as u8, b as u8, n)); }
            None => { c.refuse("parse-refused", "", &o); }
        }
    });
    run.section("sizing documents", 12000, |c| {
        let (doc, key) = sizing_doc(&mut c.rng);
        let kind = *c.rng.pick(&[None, None, Some("JSON")]);
        c.input(format!("{key}: {doc}"));
        let kd = gen::keride(&doc);
        let o = c.call("sizeify", || { let r = sizeify(&kd, kind)?; Ok((String::from_utf8(r.raw)?, r.ked.to_json()?, r.ident, r.kind, r.version.major, r.version.minor)) });
        let Some(w) = sized(&doc) else {
            c.refuse("size-refused", key, &o);
            return;
        };
        let t = w.to_string();
        let (id, _, _, n) = vparse(w["v"].as_str().unwrap()).unwrap();
        c.must_eq("sized", key, o, &(t.clone(), t.clone(), id.clone(), "JSON".to_string(), 1, 0));
        let o = c.call("Value.to_json", || kd.to_json());
        c.must_eq("sized", "argument untouched", o, &doc.to_string());
        let o = c.call("sizeify", || sizeify(&gen::keride(&w), None)?.ked.to_json());
        c.must_eq("sized", "again", o, &t);
        if t.len() >= 29 {
            let mut raw = t.clone().into_bytes();
            raw.extend(tail_bytes(&mut c.rng));
            let o = c.call("sniff", || { let d = sniff(&raw)?; Ok((d.ident, d.kind, d.version.major, d.version.minor, d.size)) });
            c.must_eq("sniffed", key, o, &(id, "JSON".to_string(), 1, 0, n));
        }
        let bad = *c.rng.pick(&["CBOR", "MGPK", "", "json"]);
        let o = c.call("sizeify", || sizeify(&kd, Some(bad))?.ked.to_json());
        c.refuse("size-refused", "kind", &o);
    });
    run.section("sniffing bytes", 15000, |c| {
        let vs = match c.rng.below(6) {
            0 => format!("{}{:x}{:x}{}{:06x}_", c.rng.pick(&["KERI", "ACDC", "keri", "KER1"]), c.rng.below(16), c.rng.below(16), c.rng.pick(&["JSON", "CBOR", "MGPK", "json"]), c.rng.below(1 << 24)),
            1 => { let b = vstring("KERI", 1, 0, 77); gen::mutate_text(&mut c.rng, &b) }
            _ => vstring(any_ident(&mut c.rng), c.rng.below(16) as u32, c.rng.below(16) as u32, c.rng.below(1 << 24)),
        };
        let lead = c.rng.below(18);
        let mut raw: Vec<u8> = match c.rng.below(4) { 0 => c.rng.bytes(lead), 1 => vec![b'A' + c.rng.below(26) as u8; lead], 2 => b"{\"v\":\""[..lead.min(6)].to_vec(), _ => gen::b64n(&mut c.rng, lead).into_bytes() };
        raw.extend(vs.as_bytes());
        let mut t = tail_bytes(&mut c.rng);
        while raw.len() + t.len() < 29 { t.push(c.rng.byte()) }
        raw.extend(t);
        if c.rng.chance(1, 6) { raw = gen::mutate_bytes(&mut c.rng, &raw) }
        c.input(format!("{:?}", String::from_utf8_lossy(&raw)));
        if raw.len() < 29 { return }
        let o = c.call("sniff", || { let d = sniff(&raw)?; Ok((d.ident, d.kind, d.version.major, d.version.minor, d.size)) });
        match vfind(&raw) {
            Some(at) if at <= 12 => {
                let s = std::str::from_utf8(&raw[at..at + 17]).unwrap();
                match vparse(s) {
                    Some((id, a, b, n)) => { c.must_eq("sniffed", "bytes", o, &(id, "JSON".to_string(), a as u8, b as u8, n)); }
                    None => if &s[6..10] != "JSON" { c.refuse("sniff-refused", "kind", &o); },
                }
            }
            Some(_) => { c.refuse("sniff-refused", "late", &o); }
            None => { c.refuse("sniff-refused", "none", &o); }
        }
    });
    run.enumerate("documents around the largest size", 4, |c| {
        // {"v":"KERI10JSON000000_","x":"..."} has 31 bytes around the text
        let empty = json!({"v": "KERI10JSON000000_", "x": ""}).to_string().len();
        let n = 0xff_ffffusize + c.idx as usize - 2 - empty;
        let doc = json!({"v": "KERI10JSON000000_", "x": "y".repeat(n)});
        c.input(format!("{} bytes", n + empty));
        let o = c.call("sizeify", || { let r = sizeify(&gen::keride(&doc), None)?; Ok((r.raw.len(), r.ked["v"].to_string()?)) });
        if n + empty <= 0xff_ffff { c.must_eq("sized", "largest", o, &(n + empty, vstring("KERI", 1, 0, n + empty))); } else { c.refuse("too-large-refused", "", &o); }
    });
}
fn vs_case(c: &mut Case, id: &str, a: u8, b: u8, n: u32) {
    let w = vstring(id, a as u32, b as u32, n as usize);
    c.input(w.clone());
    let o = c.call("versify", || versify(Some(id), Some(&ver(a, b)), Some("JSON"), Some(n)));
    c.must_eq("format", "", o, &w);
    // the same size in another version or protocol, and what is left out taken as the default
    let (other, x) = (if id == "KERI" { "ACDC" } else { "KERI" }, c.rng.below(16) as u8);
    for k in 0..3 {
        let (i, v) = match k { 0 => (id, None), 1 => (other, Some(ver(a, b))), _ => (id, Some(ver(b, x))) };
        let (y, z) = (c.rng.bool(), c.rng.bool());
        let o = c.call("versify", || versify((y || i != "KERI").then_some(i), v.as_ref(), z.then_some("JSON"), if n == 0 && y { None } else { Some(n) }));
        let (p, q) = v.map(|v| (v.major as u32, v.minor as u32)).unwrap_or((1, 0));
        c.must_eq("format", "one after another", o, &vstring(i, p, q, n as usize));
    }
    let o = c.call("deversify", || { let d = deversify(&w)?; Ok((d.ident, d.kind, d.version, d.size)) });
    c.must_eq("parse", "", o, &(id.to_string(), "JSON".to_string(), ver(a, b), n));
    let mut raw = format!("{{\"v\":\"{w}\"").into_bytes();
    raw.extend(tail_bytes(&mut c.rng));
    raw.extend([b' '; 10]);
    let o = c.call("sniff", || { let d = sniff(&raw)?; Ok((d.ident, d.kind, d.version, d.size)) });
    c.must_eq("sniffed", "version", o, &(id.to_string(), "JSON".to_string(), ver(a, b), n));
}
fn sizing_doc(r: &mut Rng) -> (J, &'static str) {
    let body = gen::document(r);
    let mut m = Map::new();
    let good = vstring(any_ident(r), 1, 0, if r.bool() { 0 } else { r.below(1 << 24) });
    match r.below(8) {
        0..=3 => {
            m.insert("v".into(), json!(good));
            for (k, v) in body.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } }
            if r.chance(1, 3) {
                // the same text elsewhere must stay as it is
                m.insert("copy".into(), json!(good));
                m.insert(good.clone(), json!([good, {"v": good}]));
            }
            (J::Object(m), "first field")
        }
        4 => {
            // a short field before it
            m.insert(["", "a", "ab", "abc", "é"][r.below(5)].into(), r.pick(&[json!(1), json!(""), json!("x"), J::Null, json!([]), json!(12345), json!("KERI")]).clone());
            m.insert("v".into(), json!(good));
            for (k, v) in body.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } }
            (J::Object(m), "second field")
        }
        5 => {
            m.insert("v".into(), json!(vstring(any_ident(r), r.below(16) as u32, r.below(16) as u32, 0)));
            for (k, v) in body.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } }
            (J::Object(m), "any version")
        }
        6 => {
            for (k, v) in body.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } }
            if r.bool() { m.insert("v".into(), json!(good)); }
            else { m.insert("w".into(), json!(good)); }
            (J::Object(m), "late or absent")
        }
        _ => {
            let bad = match r.below(4) { 0 => gen::value(r, 1), 1 => json!(gen::mutate_text(r, &good)), 2 => json!(format!(" {good}")), _ => json!(format!("{good} ")) };
            m.insert("v".into(), bad);
            for (k, v) in body.as_object().unwrap() { if k != "v" { m.insert(k.clone(), v.clone()); } }
            (J::Object(m), "malformed version")
        }
    }
}

// ---------------------------------------------------------------- C13
#[derive(Debug, PartialEq, Clone)]
struct MsgView {
    raw: Vec<u8>,
    ked: String,
    ident: String,
    kind: String,
    size: u32,
    version: (u8, u8),
    code: String,
    said: String,
    saidb: Vec<u8>,
    saider: String,
}
fn mview<S: Sadder>(s: &S) -> anyhow::Result<MsgView> {
    Ok(MsgView { raw: s.raw(), ked: s.ked().to_json()?, ident: s.ident(), kind: s.kind(), size: s.size(), version: (s.version().major, s.version().minor),
        code: s.code(), said: s.said()?, saidb: s.saidb()?, saider: s.saider().qb64()? })
}
/// a document for a message: version first, an identifier of the given code somewhere
/// a credential with its usual fields
pub fn credential(r: &mut Rng) -> J {
    let mut m = Map::new();
    m.insert("v".into(), json!(vstring("ACDC", 1, 0, 0)));
    m.insert("d".into(), json!(key(r, "E")));
    m.insert("i".into(), json!(key(r, "E")));
    if r.bool() { m.insert("ri".into(), json!(gen::text(r))); }
    m.insert("s".into(), json!(key(r, "E")));
    if r.bool() { m.insert("a".into(), gen::value(r, 3)); }
    if r.bool() { m.insert("e".into(), gen::value(r, 3)); }
    J::Object(m)
}
pub fn message_doc(r: &mut Rng, ident: &str, code: &str) -> J {
    let mut m = Map::new();
    // now and then a short field comes first
    let first = if r.chance(1, 12) { r.pick(&["", "a", "t", "0"]).to_string() } else { "v".into() };
    if first != "v" { m.insert(first.clone(), r.pick(&[json!(1), json!(""), J::Null, json!([]), json!(7)]).clone()); }
    m.insert("v".into(), json!(vstring(ident, 1, 0, r.below(1 << 24))));
    let body = gen::document(r);
    let mut f: Vec<(String, J)> = body.as_object().unwrap().iter().filter(|(k, _)| *k != "v" && *k != "d" && **k != first).map(|(k, v)| (k.clone(), v.clone())).collect();
    let raw = r.bytes(mc(code).unwrap().rs());
    let at = r.below(f.len() + 1);
    f.insert(at, ("d".into(), json!(qualify(code, &raw))));
    for (k, v) in f { m.insert(k, v); }
    J::Object(m)
}
fn frame<S: Sadder + std::fmt::Debug + PartialEq + Clone>(c: &mut Case, ident: &'static str, other: &'static str, api: &'static str,
    new: fn(Option<&str>, Option<&[u8]>, Option<&str>, Option<&Value>, Option<&S>) -> anyhow::Result<S>) {
    let code = if c.rng.chance(2, 3) { "E" } else { *c.rng.pick(DIGESTS) };
    let given = if code == "E" && c.rng.bool() { None } else { Some(code) };
    let doc = message_doc(&mut c.rng, ident, code);
    c.input(format!("{api} {code} {doc}"));
    let Some(w) = sized(&doc) else { return };
    let text = w.to_string();
    let want = MsgView { raw: text.clone().into_bytes(), ked: text.clone(), ident: ident.into(), kind: "JSON".into(), size: text.len() as u32, version: (1, 0),
        code: code.into(), said: w["d"].as_str().unwrap().into(), saidb: w["d"].as_str().unwrap().as_bytes().to_vec(), saider: w["d"].as_str().unwrap().into() };
    let kd = gen::keride(&doc);
    let kind = *c.rng.pick(&[None, Some("JSON")]);
    let o = c.call(api, || new(given, None, kind, Some(&kd), None));
    let Some(s) = c.must("from-fields", "accepted", o) else { return };
    let o = c.call(api, || mview(&s));
    c.must_eq("from-fields", "", o, &want);
    let o = c.call(api, || Ok(new(given, None, None, None, Some(&s))? == s));
    c.must_eq("from-fields", "copy", o, &true);
    // the same message framed again, and another message's fields framed in its place
    let o = c.call("refresh", || { let mut t = s.clone(); t.populate_from_kind_and_self("JSON")?; Ok((mview(&t)?, t == s)) });
    c.must_eq("reframed", "", o, &(want.clone(), true));
    let code2 = *c.rng.pick(DIGESTS);
    let doc2 = message_doc(&mut c.rng, ident, code2);
    if let Some(w2) = sized(&doc2) {
        let text2 = w2.to_string();
        let d2 = w2["d"].as_str().unwrap().to_string();
        let want2 = MsgView { raw: text2.clone().into_bytes(), ked: text2.clone(), size: text2.len() as u32, code: code2.into(), said: d2.clone(), saidb: d2.clone().into_bytes(), saider: d2.clone(), ..want.clone() };
        let k2 = gen::keride(&doc2);
        let o = c.call("refresh", || { let mut t = s.clone(); t.set_code(code2); t.set_ked(&k2); t.populate_from_kind_and_self("JSON")?; mview(&t) });
        c.must_eq("reframed", "other fields", o, &want2);
        if code2 != code {
            let o = c.call("refresh", || { let mut t = s.clone(); t.set_ked(&k2); t.populate_from_kind_and_self("JSON")?; mview(&t) });
            c.refuse("other-code-refused", "reframed", &o);
        }
    }
    let bad = *c.rng.pick(&["CBOR", "MGPK", "json", "", "JSONX"]);
    let o = c.call("refresh", || { let mut t = s.clone(); t.populate_from_kind_and_self(bad)?; mview(&t) });
    c.refuse("wrong-kind-refused", "", &o);
    let o = c.call(api, || mview(&new(given, None, Some(bad), Some(&kd), None)?));
    c.refuse("wrong-kind-refused", "fields", &o);
    // reading back what was written
    let back: J = serde_json::from_str(&text).unwrap();
    let stable = back == w; // floating-point texts the JSON library itself reads back unchanged
    for _ in 0..3 {
        let mut raw = text.clone().into_bytes();
        raw.extend(tail_bytes(&mut c.rng));
        let o = c.call(api, || new(given, Some(&raw), None, None, None));
        let Some(t) = c.must("read-back", "accepted", o) else { return };
        let o = c.call(api, || mview(&t));
        let w2 = if stable { want.clone() } else { MsgView { ked: back.to_string(), ..want.clone() } };
        c.must_eq("read-back", "", o, &w2);
        if stable { let same = t == s; c.check("read-back", "equal", same, || "the message read back differs".into()); }
    }
    // pretty text
    let n = match c.rng.below(3) { 0 => None, 1 => Some(c.rng.below(60)), _ => Some(c.rng.below(3000)) };
    let full = serde_json::to_string_pretty(&back).unwrap();
    let wp: String = full.chars().take(n.unwrap_or(1024)).collect();
    let o = c.call("pretty", || s.pretty(n));
    c.must_eq("pretty", "", o, &wp);
    // truncation
    for _ in 0..3 {
        let k = match c.rng.below(3) { 0 => text.len() - 1 - c.rng.below(3), _ => c.rng.below(text.len()) };
        let raw = text.as_bytes()[..k].to_vec();
        let o = c.call(api, || mview(&new(given, Some(&raw), None, None, None)?));
        c.refuse("truncated-refused", "", &o);
    }
    // mis-declared sizes
    let n = text.len();
    let m = match c.rng.below(4) { 0 => n - 1, 1 => c.rng.below(n), 2 => n + c.rng.range(1, 40), _ => c.rng.range(n + 1, 0xff_ffff) };
    let lie = text.replacen(&vstring(ident, 1, 0, n), &vstring(ident, 1, 0, m), 1);
    let mut raw = lie.into_bytes();
    let tail = if c.rng.bool() { vec![] } else { let t = tail_bytes(&mut c.rng); if t.iter().all(|b| b.is_ascii_whitespace()) { vec![b'-'; 8] } else { t } };
    if tail.first().map(|b| b.is_ascii_whitespace()) != Some(true) {
        raw.extend(tail);
        let o = c.call(api, || mview(&new(given, Some(&raw), None, None, None)?));
        c.refuse("wrong-size-refused", if m < n { "smaller" } else { "larger" }, &o);
    }
    // wrong protocol
    let mut d2 = doc.clone();
    d2["v"] = json!(vstring(other, 1, 0, 0));
    let t2 = text.replacen(ident, other, 1);
    let o = c.call(api, || mview(&new(given, None, None, Some(&gen::keride(&d2)), None)?));
    c.refuse("wrong-protocol-refused", "fields", &o);
    let o = c.call(api, || mview(&new(given, Some(t2.as_bytes()), None, None, None)?));
    c.refuse("wrong-protocol-refused", "raw", &o);
    // unsupported version
    let (a, b) = loop { let x = (c.rng.below(16) as u32, c.rng.below(16) as u32); if x != (1, 0) { break x; } };
    d2["v"] = json!(vstring(ident, a, b, 0));
    let t2 = text.replacen(&vstring(ident, 1, 0, n), &vstring(ident, a, b, n), 1);
    let o = c.call(api, || mview(&new(given, None, None, Some(&gen::keride(&d2)), None)?));
    c.refuse("unsupported-version-refused", "fields", &o);
    let o = c.call(api, || mview(&new(given, Some(t2.as_bytes()), None, None, None)?));
    c.refuse("unsupported-version-refused", "raw", &o);
    // another digest code than expected
    let oc = loop { let x = *c.rng.pick(DIGESTS); if x != code { break x; } };
    let oc = if code != "E" && c.rng.bool() { None } else { Some(oc) };
    let o = c.call(api, || mview(&new(oc, None, None, Some(&kd), None)?));
    c.refuse("other-code-refused", "fields", &o);
    let o = c.call(api, || mview(&new(oc, Some(text.as_bytes()), None, None, None)?));
    c.refuse("other-code-refused", "raw", &o);
    // no identifier, or none of a digest
    let mut d3 = doc.clone();
    let key = match c.rng.below(4) {
        0 => { d3.as_object_mut().unwrap().shift_remove("d"); "absent" }
        1 => { d3["d"] = json!(""); "empty" }
        2 => { d3["d"] = c.rng.pick(&[json!(1), J::Null, json!(["a"]), json!("D"), json!("#".repeat(44))]).clone(); "malformed" }
        _ => { d3["d"] = json!(qualify("D", &c.rng.bytes(32))); "another kind" }
    };
    if let Some(x) = sized(&d3) {
        let o = c.call(api, || mview(&new(given, None, None, Some(&gen::keride(&d3)), None)?));
        c.refuse("no-identifier-refused", key, &o);
        let o = c.call(api, || mview(&new(given, Some(x.to_string().as_bytes()), None, None, None)?));
        c.refuse("no-identifier-refused", key, &o);
    }
    c.seen("protocol, code, size", &format!("{ident} {code} {}", n / 64));
}
pub fn c13(run: &Run) {
    run.require(&["from-fields", "read-back", "pretty", "truncated-refused", "wrong-size-refused", "wrong-protocol-refused", "unsupported-version-refused", "other-code-refused", "no-identifier-refused", "reframed", "wrong-kind-refused"]);
    run.section("events", 4000, |c| frame::<Serder>(c, "KERI", "ACDC", "Serder", Serder::new));
    run.section("credentials", 3000, |c| frame::<Creder>(c, "ACDC", "KERI", "Creder", Creder::new));
    run.section("every cut and every size", 24, |c| {
        let kind = c.idx % 2 == 0;
        let code = *c.rng.pick(DIGESTS);
        let (text, n, ident) = loop {
            let d = message_doc(&mut c.rng, if kind { "KERI" } else { "ACDC" }, code);
            if let Some(w) = sized(&d) { let t = w.to_string(); if t.len() < 600 { break (t.clone(), t.len(), if kind { "KERI" } else { "ACDC" }) } }
        };
        c.input(format!("{code} {text}"));
        let read = |raw: &[u8]| -> anyhow::Result<(Vec<u8>, u32)> { if kind { let s = Serder::new(Some(code), Some(raw), None, None, None)?; Ok((s.raw(), s.size())) } else { let s = Creder::new(Some(code), Some(raw), None, None, None)?; Ok((s.raw(), s.size())) } };
        for k in 0..n {
            let o = c.call("read", || read(&text.as_bytes()[..k]));
            c.refuse("truncated-refused", "every place", &o);
        }
        let tail = qualify("0B", &c.rng.bytes(64));
        for a in 0..=tail.len() {
            let raw = [text.as_bytes(), &tail.as_bytes()[..a]].concat();
            let o = c.call("read", || read(&raw));
            c.must_eq("read-back", "every tail", o, &(text.clone().into_bytes(), n as u32));
        }
        for m in (0..n + 100).chain([1 << 12, 1 << 16, (1 << 16) + n, 0xff_ffff]) {
            if m == n { continue }
            let lie = text.replacen(&vstring(ident, 1, 0, n), &vstring(ident, 1, 0, m), 1);
            let o = c.call("read", || read(lie.as_bytes()));
            c.refuse("wrong-size-refused", "every size", &o);
            let raw = [lie.as_bytes(), tail.as_bytes()].concat();
            let o = c.call("read", || read(&raw));
            c.refuse("wrong-size-refused", "every size, more after it", &o);
        }
    });
    run.section("streams", 1500, |c| {
        // several messages with attachments, read one after the other by their sizes
        let n = c.rng.range(2, 8);
        let mut stream = vec![];
        let mut want = vec![];
        for _ in 0..n {
            let kind = c.rng.bool();
            let d = message_doc(&mut c.rng, if kind { "KERI" } else { "ACDC" }, "E");
            let Some(w) = sized(&d) else { return };
            let t = w.to_string();
            stream.extend(t.as_bytes());
            let a: Vec<u8> = if c.rng.bool() { vec![] } else { let k = c.rng.range(1, 5); (0..k).flat_map(|_| { let raw = c.rng.bytes(64); let p = construct("0B", &raw).unwrap(); if c.rng.bool() { p.bin() } else { p.text.into_bytes() } }).collect() };
            stream.extend(&a);
            want.push((kind, t, w["d"].as_str().unwrap().to_string(), a.len()));
        }
        c.input(format!("{n} messages, {} bytes, {}", stream.len(), fnv(&stream)));
        let mut at = 0;
        for (kind, t, said, al) in want {
            let rest = &stream[at..];
            let o = c.call("stream", || if kind { let s = Serder::new(None, Some(rest), None, None, None)?; Ok((s.raw(), s.said()?, s.size() as usize)) } else { let s = Creder::new(None, Some(rest), None, None, None)?; Ok((s.raw(), s.said()?, s.size() as usize)) });
            let len = t.len();
            c.must_eq("read-back", "in a stream", o, &(t.into_bytes(), said, len));
            at += len + al;
        }
    });
}

// ---------------------------------------------------------------- C14
static KEYCODES: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
static NONTRANS: &[&str] = &["B", "1AAA", "1AAI"];
fn key(r: &mut Rng, code: &str) -> String { let raw = r.bytes(mc(code).unwrap().rs()); qualify(code, &raw) }
fn listish(r: &mut Rng) -> J { r.pick(&[json!([]), json!(""), json!([])]).clone() }
pub fn inception(r: &mut Rng, keycode: &str) -> J {
    let t = *r.pick(&["icp", "dip", "vcp"]);
    let mut m = Map::new();
    m.insert("v".into(), json!(vstring("KERI", 1, 0, if r.bool() { 0 } else { r.below(1 << 24) })));
    m.insert("t".into(), json!(t));
    m.insert("d".into(), json!(if r.bool() { String::new() } else { qualify("E", &r.bytes(32)) }));
    m.insert("i".into(), json!(if r.bool() { String::new() } else { key(r, keycode) }));
    m.insert("s".into(), json!("0"));
    let digests = !KEYCODES.contains(&keycode);
    let n = if digests { if r.chance(1, 40) { gen::size(r) } else { r.range(1, 4) } } else if r.chance(1, 12) { *r.pick(&[0usize, 2, 3]) } else { 1 };
    m.insert("kt".into(), json!("1"));
    let kc = if digests { *r.pick(KEYCODES) } else if r.chance(1, 10) { *r.pick(KEYCODES) } else { keycode };
    m.insert("k".into(), J::Array((0..n).map(|_| json!(key(r, kc))).collect()));
    let plain = NONTRANS.contains(&keycode) && r.chance(5, 6);
    m.insert("nt".into(), json!("0"));
    for (f, code) in [("n", "E"), ("b", "B"), ("a", "")] {
        let v = if plain || r.bool() { listish(r) } else if code.is_empty() { json!([gen::object(r, 2)]) } else { let k = r.range(1, 3); J::Array((0..k).map(|_| json!(key(r, code))).collect()) };
        if !r.chance(1, 12) { m.insert(f.into(), v); }
        if f == "n" { m.insert("bt".into(), json!("0")); }
    }
    m.insert("c".into(), json!([]));
    if t == "dip" { m.insert("di".into(), json!(key(r, "E"))); }
    if r.chance(1, 3) { m.insert("extra".into(), gen::value(r, 2)); }
    let mut m = J::Object(m);
    if r.chance(1, 5) { gen::coincide(r, &mut m, &["v", "t", "s", "kt", "nt", "bt"]) }
    m
}
fn empty_list(v: Option<&J>) -> Option<bool> {
    match v { None => Some(true), Some(J::Array(a)) => Some(a.is_empty()), Some(J::String(s)) => Some(s.is_empty()), _ => None }
}
/// the prefix of the document for the code; None when derivation must be refused
fn derive_prefix(ked: &J, code: &str) -> Option<String> {
    if !["icp", "dip", "vcp"].contains(&ked.get("t")?.as_str()?) { return None; }
    if KEYCODES.contains(&code) {
        let k = ked.get("k")?.as_array()?;
        if k.len() != 1 { return None; }
        let p = decode(k[0].as_str()?.as_bytes())?;
        if p.code != code { return None; }
        if NONTRANS.contains(&code) {
            for f in ["n", "b", "a"] { if !empty_list(ked.get(f))? { return None; } }
        }
        Some(p.text)
    } else if DIGESTS.contains(&code) {
        let mut d = ked.clone();
        let f = "#".repeat(said_len(code));
        d["i"] = json!(f);
        d["d"] = json!(f);
        let s = sized(&d)?;
        Some(qualify(code, &digest(code, s.to_string().as_bytes())))
    } else {
        None
    }
}
pub fn c14(run: &Run) {
    run.require(&["derived", "derivation-refused", "allowed", "not-allowed-refused", "verifies", "verifies-prefixed", "code-from-document", "change-fails", "prefixed-change-fails", "not-inception-refused", "wrong-prefix-fails"]);
    run.section("derive and verify", 6000, |c| {
        let codes: Vec<&str> = KEYCODES.iter().chain(DIGESTS).cloned().collect();
        let code = *c.rng.pick(&codes);
        let ked = inception(&mut c.rng, code);
        c.input(format!("{code} {ked}"));
        let kd = gen::keride(&ked);
        let want = derive_prefix(&ked, code);
        let allows: Vec<&str> = match c.rng.below(4) { 0 => vec![], 1 => codes.iter().filter(|_| c.rng.bool()).cloned().collect(), 2 => vec![code], _ => codes.iter().filter(|x| **x != code).cloned().collect() };
        let al = if allows.is_empty() && c.rng.bool() { None } else { Some(allows.as_slice()) };
        let o = c.call("Prefixer", || Ok(view(&Prefixer::new_with_ked(&kd, al, Some(code))?)?.text));
        let permitted = allows.is_empty() || allows.contains(&code);
        if !permitted { c.refuse("not-allowed-refused", "", &o); } else {
            match &want {
                Some(w) => { c.must_eq(if allows.is_empty() { "derived" } else { "allowed" }, "", o, w); }
                None => { c.refuse("derivation-refused", if KEYCODES.contains(&code) { "key" } else { "digest" }, &o); }
            }
        }
        c.seen("code, kind, outcome", &format!("{code} {} {}", ked["t"], want.is_some()));
        let o = c.call("Prefixer", || Prefixer::new_with_ked(&kd, None, Some(code)));
        let (Some(w), Some(p)) = (want, o.ok()) else { return };
        let o = c.call("Prefixer.verify", || p.verify(&kd, None));
        judge_verdict(c, "verifies", "", o, true);
        let o = c.call("Prefixer.verify", || Prefixer::new_with_qb2(&p.qb2()?)?.verify(&kd, Some(false)));
        judge_verdict(c, "verifies", "from binary", o, true);
        // the finished event
        let mut fin = ked.clone();
        fin["i"] = json!(w);
        if DIGESTS.contains(&code) { fin["d"] = json!(w) }
        let fin = match sized(&fin) { Some(f) => f, None => return };
        let kf = gen::keride(&fin);
        let o = c.call("Prefixer.verify", || p.verify(&kf, Some(true)));
        judge_verdict(c, "verifies-prefixed", "", o, true);
        let o = c.call("Prefixer", || Prefixer::new_with_ked(&kf, None, None)?.qb64());
        c.must_eq("code-from-document", "", o, &w);
        // the embedded prefix differs
        let mut m = fin.clone();
        m["i"] = match c.rng.below(4) { 0 => json!(""), 1 => json!(key(&mut c.rng, "D")), 2 => { m.as_object_mut().unwrap().shift_remove("i"); J::Null } _ => { let mut b = w.clone().into_bytes(); let i = c.rng.range(5, b.len() - 3); b[i] = if b[i] == b'A' { b'B' } else { b'A' }; json!(String::from_utf8(b).unwrap()) } };
        if m["i"].is_null() { m.as_object_mut().unwrap().shift_remove("i"); }
        let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), Some(true)));
        judge_verdict(c, "prefixed-change-fails", "", o, false);
        // every way its identifier and digest fields may stand
        let other = key(&mut c.rng, code);
        let dummy = "#".repeat(w.len());
        let all = if c.rng.chance(1, 12) { 25 } else { 0 };
        for (fi, fd) in (0..all).map(|i| (i / 5, i % 5)) {
            let mut m = fin.clone();
            for (f, how) in [("i", fi), ("d", fd)] {
                match how { 0 => m[f] = json!(w), 1 => m[f] = json!(other), 2 => m[f] = json!(""), 3 => m[f] = json!(dummy), _ => { m.as_object_mut().unwrap().shift_remove(f); } }
            }
            let stands = derive_prefix(&m, code).as_ref() == Some(&w);
            let k = gen::keride(&m);
            for pre in [None, Some(true)] {
                let want = stands && (pre.is_none() || fi == 0);
                let o = c.call("Prefixer.verify", || p.verify(&k, pre));
                judge_verdict(c, if want { "verifies" } else { "prefixed-change-fails" }, &format!("fields {fi} {fd}"), o, want);
            }
        }
        if DIGESTS.contains(&code) {
            for _ in 0..6 {
                let (m, how) = mutate_doc(&mut c.rng, &fin);
                let same = derive_prefix(&m, code).as_ref() == Some(&w);
                if same { continue; }
                let pre = *c.rng.pick(&[None, Some(true), Some(false)]);
                let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), pre));
                judge_verdict(c, "change-fails", how, o, false);
            }
            // another field that held the same text as the prefix does, and both changed
            let mut m = fin.clone();
            m["di"] = json!(w);
            if let Some(m) = sized(&m) {
                let stands = derive_prefix(&m, code).as_ref() == Some(&w);
                let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), None));
                judge_verdict(c, if stands { "verifies" } else { "change-fails" }, "prefix in another field", o, stands);
            }
        } else {
            // the key differs
            let mut m = fin.clone();
            let how = match c.rng.below(6) {
                0 => { let k = key(&mut c.rng, code); m["k"][0] = json!(k); "other key" }
                1 => { let k = key(&mut c.rng, code); m["k"].as_array_mut().unwrap().push(json!(k)); "second key" }
                2 => { m["k"] = json!([]); "no key" }
                3 => { m.as_object_mut().unwrap().shift_remove("k"); "no key field" }
                4 => { let oc = match code { "B" => "D", "D" => "B", "1AAA" => "1AAB", "1AAB" => "1AAA", "1AAI" => "1AAJ", _ => "1AAI" }; let raw = decode(w.as_bytes()).unwrap().raw; m["k"][0] = json!(qualify(oc, &raw)); "other transferability" }
                _ => { let k = key(&mut c.rng, code); m["k"].as_array_mut().unwrap().insert(0, json!(k)); "key before" }
            };
            let pre = *c.rng.pick(&[None, Some(true), Some(false)]);
            let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), pre));
            judge_verdict(c, "change-fails", how, o, false);
            if NONTRANS.contains(&code) {
                let mut m = fin.clone();
                m["n"] = match c.rng.below(3) { 0 => json!([key(&mut c.rng, "E")]), 1 => json!(key(&mut c.rng, "E")), _ => json!(["", ""]) };
                let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), pre));
                judge_verdict(c, "change-fails", "next keys", o, false);
            }
        }
        // another prefix
        let d = decode(w.as_bytes()).unwrap();
        let mut raw = d.raw.clone();
        let i = c.rng.below(raw.len());
        raw[i] ^= 1 << c.rng.below(8);
        let o = c.call("Prefixer.verify", || Prefixer::new_with_raw(&raw, Some(&d.code))?.verify(&kf, None));
        judge_verdict(c, "wrong-prefix-fails", "bit", o, false);
        let oc = *c.rng.pick(&codes);
        if oc != code && mc(oc).unwrap().rs() == d.raw.len() && derive_prefix(&fin, oc).as_deref() != Some(&qualify(oc, &d.raw)) {
            let o = c.call("Prefixer.verify", || Prefixer::new_with_raw(&d.raw, Some(oc))?.verify(&kf, None));
            judge_verdict(c, "wrong-prefix-fails", "code", o, false);
        }
        // no inception
        let mut m = fin.clone();
        m["t"] = c.rng.pick(&[json!("rot"), json!("ixn"), json!("drt"), json!("vrt"), json!("rct"), json!("ICP"), json!(""), json!("icp "), json!(1), J::Null, json!("iss")]).clone();
        let o = c.call("Prefixer.verify", || p.verify(&gen::keride(&m), None));
        judge_verdict(c, "not-inception-refused", "verify", o, false);
        let o = c.call("Prefixer", || Prefixer::new_with_ked(&gen::keride(&m), None, Some(code))?.qb64());
        c.refuse("not-inception-refused", "derive", &o);
    });
    run.section("odd derivations", 3000, |c| {
        let codes: Vec<&str> = KEYCODES.iter().chain(DIGESTS).cloned().collect();
        let code = if c.rng.chance(4, 5) { *c.rng.pick(&codes) } else { *c.rng.pick(&["A", "0A", "0B", "C", "M", "4A", "", "Z", "1AAG", "L"]) };
        let base = *c.rng.pick(&codes);
        let mut ked = inception(&mut c.rng, base);
        if c.rng.bool() {
            let f = c.rng.pick(&["k", "n", "b", "a", "t", "v", "i", "d"]).to_string();
            match c.rng.below(4) {
                0 => { ked.as_object_mut().unwrap().shift_remove(&f); }
                1 => ked[f.as_str()] = gen::value(&mut c.rng, 1),
                2 => ked[f.as_str()] = json!([gen::scalar(&mut c.rng)]),
                _ => ked[f.as_str()] = json!([key(&mut c.rng, "E")]),
            }
        }
        c.input(format!("{code} {ked}"));
        let o = c.call("Prefixer", || Prefixer::new_with_ked(&gen::keride(&ked), None, Some(code))?.qb64());
        match derive_prefix(&ked, code) {
            Some(w) => { c.must_eq("derived", "odd", o, &w); }
            None => { c.refuse("derivation-refused", "odd", &o); }
        }
    });
}

// ---------------------------------------------------------------- C28
fn sigers(r: &mut Rng, n: usize) -> Vec<ISig> {
    (0..n).map(|_| loop {
        let d = r.pick(INDEXER);
        if !SIGER_CODES.contains(&d.code) { continue; }
        let i = (r.next() % (d.imax() + 1)) as u32;
        let raw = r.bytes(d.rs(i as u64));
        let o = if d.current_only() { None } else if d.omax() > 0 { Some((r.next() % (d.omax() + 1)) as u32) } else { None };
        if let Some(s) = iconstruct(d.code, &raw, i, o) { return s; }
    }).collect()
}
fn to_sigers(v: &[ISig]) -> anyhow::Result<Vec<Siger>> {
    v.iter().map(|s| Siger::new(None, None, None, None, None, None, Some(&s.text), None)).collect()
}
pub fn c28(run: &Run) {
    run.require(&["message", "parsed-back", "nothing-attached-refused", "too-many-refused", "bad-seal-refused", "receipt", "receipt-refused"]);
    run.section("messages", 3000, |c| message_case(c, None));
    run.enumerate("counts of signatures", 130, |c| { let n = c.idx as usize; message_case(c, Some(n)) });
    run.enumerate("counts around the limit", 8, |c| { let n = [4093usize, 4094, 4095, 4096, 4097, 4095, 4096, 5000][c.idx as usize]; message_case(c, Some(n)) });
    run.section("receipts", 5000, |c| {
        let pre = if c.rng.bool() { key(&mut c.rng, "E") } else { gen::text(&mut c.rng) };
        let sn = any_u128(&mut c.rng);
        let good = c.rng.chance(4, 5);
        let said = if good { key(&mut c.rng, "E") } else { match c.rng.below(3) { 0 => key(&mut c.rng, "D"), 1 => gen::text(&mut c.rng), _ => { let k = loop { let k = *c.rng.pick(DIGESTS); if k != "E" { break k; } }; key(&mut c.rng, k) } } };
        let v = match c.rng.below(5) { 0 => Some(ver(c.rng.below(16) as u8, c.rng.below(16) as u8)), 1 => Some(ver(1, 0)), _ => None };
        let kind = match c.rng.below(6) { 0 => Some("CBOR"), 1 => Some("JSON"), _ => None };
        c.input(format!("{pre:?} {sn} {said:?} {v:?} {kind:?}"));
        let o = c.call("receipt", || { let s = keride::receipting::monitor_receipt(&pre, sn, &said, v.as_ref(), kind)?; Ok((mview(&s)?, s.pre()?, s.sn()?, s.est()?)) });
        let vok = v.as_ref().map(|x| *x == ver(1, 0)).unwrap_or(true) && kind != Some("CBOR");
        let sok = decode(said.as_bytes()).map(|p| p.code == "E").unwrap_or(false);
        if !vok || !sok { if !sok || !vok { c.refuse("receipt-refused", if vok { "identifier" } else { "version" }, &o); } return; }
        let d = json!({"v": vstring("KERI", 1, 0, 0), "t": "rct", "d": said, "i": pre, "s": format!("{sn:x}")});
        let w = sized(&d).unwrap();
        let text = w.to_string();
        let said = decode(said.as_bytes()).unwrap().text;
        let want = MsgView { raw: text.clone().into_bytes(), ked: text.clone(), ident: "KERI".into(), kind: "JSON".into(), size: text.len() as u32, version: (1, 0), code: "E".into(), said: said.clone(), saidb: said.clone().into_bytes(), saider: said };
        c.must_eq("receipt", "", o, &(want, pre.clone(), sn, false));
    });
}
fn message_case(c: &mut Case, fixed: Option<usize>) {
    let doc = message_doc(&mut c.rng, "KERI", "E");
    let Some(w) = sized(&doc) else { return };
    let text = w.to_string();
    let nc = fixed.unwrap_or_else(|| c.rng.below(6));
    let nw = if fixed.map(|n| n > 200).unwrap_or(false) { if c.idx % 2 == 0 { c.rng.below(3) } else { nc } } else { c.rng.below(8) };
    let with = if fixed.is_some() { 3 } else { c.rng.below(8) };
    let mut ctl = if with & 1 > 0 { Some(sigers(&mut c.rng, nc)) } else { None };
    let mut wit = if with & 2 > 0 { Some(sigers(&mut c.rng, nw)) } else { None };
    // now and then signatures repeat, are in order, or are the same in both groups
    for v in [&mut ctl, &mut wit].into_iter().flatten() {
        if v.is_empty() { continue }
        match c.rng.below(12) {
            0 => { let x = c.rng.pick(v).clone(); let i = c.rng.below(v.len()); v[i] = x; }
            1 => { let x = v[0].clone(); v.fill(x); }
            2 => { let x = v.last().unwrap().clone(); v[0] = x; }
            3 => v.sort_by(|a, b| a.index.cmp(&b.index)),
            4 => v.sort_by(|a, b| b.text.cmp(&a.text)),
            _ => {}
        }
    }
    if let (Some(a), Some(b)) = (&ctl, &mut wit) { if c.rng.chance(1, 10) { *b = a.clone() } }
    let mut pre = key(&mut c.rng, *["E", "D", "B", "0D"].get(c.idx as usize % 4).unwrap());
    let mut dig = key(&mut c.rng, "E");
    let mut sn = any_u128(&mut c.rng);
    // the seal may be of this very event, or of an identifier that is its own inception
    match c.rng.below(8) { 0 => { if let Some(i) = doc["i"].as_str().and_then(|i| decode(i.as_bytes())) { pre = i.text } dig = decode(doc["d"].as_str().unwrap().as_bytes()).unwrap().text; } 1 => { pre = dig.clone(); sn = 0 } _ => {} }
    let bad = c.rng.chance(1, 20);
    let snh = if bad { bad_hex(&mut c.rng) } else { format!("{sn:x}") };
    let seal = match c.rng.below(3) { 0 => None, 1 => Some(true), _ => Some(false) };
    c.input(format!("{} ctl {:?} wit {:?} seal {seal:?} sn {snh:?}", text.len(), ctl.as_ref().map(|x| x.len()), wit.as_ref().map(|x| x.len())));
    let o = c.call("Serder", || Serder::new_with_ked(&gen::keride(&doc), None, None));
    let Some(s) = c.must("message", "event", o) else { return };
    let o = c.call("Siger", || Ok((match &ctl { Some(v) => Some(to_sigers(v)?), None => None }, match &wit { Some(v) => Some(to_sigers(v)?), None => None })));
    let Some((kc, kw)) = c.must("message", "signatures", o) else { return };
    let o = c.call("messagize", || keride::messaging::monitor_messagize(&s, kc.as_deref(), seal.map(|l| (pre.as_str(), snh.as_str(), dig.as_str(), l)), kw.as_deref(), None));
    if ctl.is_none() && wit.is_none() { c.refuse("nothing-attached-refused", "", &o); return; }
    if ctl.as_ref().map(|x| x.len()).unwrap_or(0) > 4095 || wit.as_ref().map(|x| x.len()).unwrap_or(0) > 4095 { c.refuse("too-many-refused", "", &o); return; }
    if ctl.is_some() && seal == Some(false) && bad { c.refuse("bad-seal-refused", "", &o); return; }
    let mut want = text.clone();
    if let Some(v) = &ctl {
        match seal {
            Some(true) => want += &format!("{}{pre}", cencode("-H", 1).unwrap()),
            Some(false) => want += &format!("{}{pre}{}{dig}", cencode("-F", 1).unwrap(), qualify("0A", &sn.to_be_bytes())),
            None => {}
        }
        want += &cencode("-A", v.len() as u64).unwrap();
        for x in v { want += &x.text }
    }
    if let Some(v) = &wit {
        want += &cencode("-B", v.len() as u64).unwrap();
        for x in v { want += &x.text }
    }
    let Some(got) = c.must("message", "composed", o) else { return };
    c.eq("message", "", &got, &want);
    c.seen("groups", &format!("{:?} {:?} {seal:?}", ctl.as_ref().map(|x| x.len()), wit.as_ref().map(|x| x.len())));
    // parse what the library composed
    let o = c.call("Serder", || Serder::new_with_raw(got.as_bytes()));
    let Some(back) = c.must("parsed-back", "event", o) else { return };
    let same = back.raw() == text.as_bytes();
    c.check("parsed-back", "event bytes", same, || "another event".into());
    let parsed = parse_groups(&got.as_bytes()[back.raw().len().min(got.len())..]);
    let mut exp = vec![];
    if let Some(v) = &ctl {
        match seal {
            Some(true) => exp.push(("-H".to_string(), vec![pre.clone()])),
            Some(false) => exp.push(("-F".to_string(), vec![pre.clone(), qualify("0A", &sn.to_be_bytes()), dig.clone()])),
            None => {}
        }
        exp.push(("-A".to_string(), v.iter().map(|x| x.text.clone()).collect()));
    }
    if let Some(v) = &wit { exp.push(("-B".to_string(), v.iter().map(|x| x.text.clone()).collect())); }
    c.eq("parsed-back", "groups", &parsed, &Some(exp));
}
fn parse_groups(mut t: &[u8]) -> Option<Vec<(String, Vec<String>)>> {
    let mut out = vec![];
    while !t.is_empty() {
        let (code, n, len) = cdecode(t)?;
        t = &t[len..];
        let mut v = vec![];
        for _ in 0..n {
            match code.as_str() {
                "-A" | "-B" => { let s = idecode(t)?; t = &t[s.text.len()..]; v.push(s.text); }
                "-H" => { let p = decode(t)?; t = &t[p.text.len()..]; v.push(p.text); }
                "-F" => for _ in 0..3 { let p = decode(t)?; t = &t[p.text.len()..]; v.push(p.text); },
                _ => return None,
            }
        }
        out.push((code, v));
    }
    Some(out)
}

// ---------------------------------------------------------------- C30
static ILKS: &[&str] = &["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv"];
fn thr(r: &mut Rng) -> (J, ThView) {
    if r.bool() {
        let n = r.range(0, 300) as u32;
        (if r.bool() { json!(n) } else { json!(format!("{n:x}")) }, want_numeric(n))
    } else {
        loop {
            let t = weighted(r);
            if t.clauses.iter().all(|x| fits(x)) {
                let w = want_weighted(&t.clauses);
                // a list can also travel as its JSON text
                return (if r.chance(1, 5) { json!(t.spelled.to_string()) } else { t.spelled }, w);
            }
        }
    }
}
#[derive(Debug, PartialEq, Clone)]
pub struct EvView {
    verfers: Vec<String>,
    digers: Vec<String>,
    werfers: Vec<String>,
    kt: Option<ThView>,
    nt: Option<ThView>,
    sn: (u128, String, u128),
    first: Option<(u128, String)>,
    pre: String,
    preb: Vec<u8>,
    est: bool,
}
fn evview(s: &Serder) -> anyhow::Result<EvView> {
    let q = |v: Vec<Verfer>| v.iter().map(|x| x.qb64()).collect::<anyhow::Result<Vec<_>>>();
    let n = s.sner()?;
    Ok(EvView {
        verfers: q(s.verfers()?)?, digers: s.digers()?.iter().map(|x| x.qb64()).collect::<anyhow::Result<Vec<_>>>()?, werfers: q(s.werfers()?)?,
        kt: match s.tholder()? { Some(t) => Some(thview(&t)?), None => None }, nt: match s.ntholder()? { Some(t) => Some(thview(&t)?), None => None },
        sn: (n.num()?, n.numh()?, s.sn()?), first: match s.fner()? { Some(f) => Some((f.num()?, f.qb64()?)), None => None },
        pre: s.pre()?, preb: s.preb()?, est: s.est()?,
    })
}
pub fn event(r: &mut Rng) -> (J, EvView) {
    let ilk = *r.pick(ILKS);
    let mut f: Vec<(&str, J)> = vec![];
    let sn = any_u128(r);
    let pre = if r.chance(3, 4) { let k = *r.pick(&["E", "D", "B", "0D"]); key(r, k) } else { gen::text(r) };
    let mut e = EvView { verfers: vec![], digers: vec![], werfers: vec![], kt: None, nt: None, sn: (sn, format!("{sn:x}"), sn), first: None, pre: pre.clone(), preb: pre.clone().into_bytes(),
        est: ["icp", "rot", "dip", "drt"].contains(&ilk) };
    f.push(("d", json!(key(r, "E"))));
    f.push(("i", json!(pre)));
    f.push(("s", json!(if r.chance(1, 6) { format!("{sn:X}") } else { format!("{sn:x}") })));
    let num = |r: &mut Rng| match r.below(5) { _ if r.chance(1, 60) => gen::size(r), 0 => 0, 1 => r.range(5, 20), _ => r.range(1, 4) };
    // what usually differs is sometimes the same
    let same = |r: &mut Rng, v: &mut Vec<String>| if v.len() > 1 { match r.below(16) { 0 => { let x = r.pick(v).clone(); let i = r.below(v.len()); v[i] = x; } 1 => { let x = v[0].clone(); v.fill(x); } 2 => { v[1] = v[0].clone(); } 3 => { let x = v[0].clone(); v.push(x); } 4 => v.sort(), _ => {} } };
    let twin = r.chance(1, 10).then(|| thr(r));
    if r.chance(5, 6) { let (j, w) = twin.clone().unwrap_or_else(|| thr(r)); f.push(("kt", j)); e.kt = Some(w); }
    if r.chance(5, 6) { let n = num(r); e.verfers = (0..n).map(|_| { let k = *r.pick(KEYCODES); key(r, k) }).collect(); same(r, &mut e.verfers); f.push(("k", json!(e.verfers))); }
    if r.chance(5, 6) { let (j, w) = twin.clone().unwrap_or_else(|| thr(r)); f.push(("nt", j)); e.nt = Some(w); }
    if r.chance(5, 6) { if r.chance(1, 8) { f.push(("n", json!(""))); } else { let n = num(r); e.digers = (0..n).map(|_| { let k = *r.pick(DIGESTS); key(r, k) }).collect(); same(r, &mut e.digers); f.push(("n", json!(e.digers))); } }
    if r.chance(4, 5) { let n = num(r); e.werfers = (0..n).map(|_| { let k = *r.pick(KEYCODES); key(r, k) }).collect(); if r.chance(1, 12) { e.werfers = e.verfers.clone() } same(r, &mut e.werfers); f.push(("b", json!(e.werfers))); }
    if r.chance(1, 2) { let n = if r.chance(1, 6) { sn } else { any_u128(r) }; let p = number_prim(n); e.first = Some((n, p.text.clone())); f.push(("f", json!(p.text))); }
    if r.bool() { f.push(("a", gen::value(r, 2))); }
    if r.bool() { f.push(("br", json!([key(r, "B")]))); }
    if r.bool() { f.push(("p", json!(key(r, "E")))); }
    if r.chance(1, 3) { r.shuffle(&mut f); }
    let mut m = Map::new();
    m.insert("v".into(), json!(vstring("KERI", 1, 0, 0)));
    m.insert("t".into(), json!(ilk));
    for (k, v) in f { m.insert(k.into(), v); }
    (J::Object(m), e)
}
pub fn c30(run: &Run) {
    run.require(&["event", "event-from-raw", "malformed-refused", "absent-refused", "credential", "credential-refused", "first-seen-absent"]);
    run.section("events", 6000, |c| {
        let (doc, want) = event(&mut c.rng);
        c.input(doc.to_string());
        let Some(w) = sized(&doc) else { return };
        let o = c.call("Serder", || evview(&Serder::new_with_ked(&gen::keride(&doc), None, None)?));
        c.must_eq("event", "", o, &want);
        let text = w.to_string();
        let o = c.call("Serder", || evview(&Serder::new_with_raw(format!("{text}-AAB").as_bytes())?));
        c.must_eq("event-from-raw", "", o, &want);
        let o = c.call("Serder._fn", || Serder::new_with_ked(&gen::keride(&doc), None, None)?._fn());
        match want.first { Some((n, _)) => { c.must_eq("event", "first seen", o, &n); } None => { c.refuse("first-seen-absent", "", &o); } }
        c.seen("fields present", &format!("{} {} {} {} {}", doc["t"], want.verfers.len(), want.digers.len(), want.werfers.len(), want.kt.is_some()));
        // a malformed field value
        let f = *c.rng.pick(&["k", "n", "b", "kt", "nt", "s", "f", "i", "t"]);
        let bad: J = match f {
            "k" | "b" | "n" => {
                let odd = match c.rng.below(7) { 0 => json!(""), 1 => json!(1), 2 => J::Null, 3 => json!(if f == "n" { key(&mut c.rng, "D") } else { key(&mut c.rng, "E") }), 4 => { let k = key(&mut c.rng, if f == "n" { "E" } else { "D" }); json!(k[..c.rng.range(0, 43)].to_string()) } 5 => json!(format!("={}", key(&mut c.rng, "E"))), _ => json!([]) };
                if c.rng.chance(1, 4) { match c.rng.below(4) { 0 => json!(key(&mut c.rng, if f == "n" { "E" } else { "D" })), 1 => json!({"0": key(&mut c.rng, "D")}), 2 => json!(5), _ => J::Null } } else {
                    let mut a: Vec<J> = doc.get(f).and_then(|x| x.as_array().cloned()).unwrap_or_default();
                    let i = c.rng.below(a.len() + 1);
                    a.insert(i, odd);
                    J::Array(a)
                }
            }
            "kt" | "nt" => malformed(&mut c.rng).0,
            "s" => if c.rng.bool() { json!(bad_hex(&mut c.rng)) } else { c.rng.pick(&[json!(1), J::Null, json!([]), json!(["1"]), json!(1.5), json!(true)]).clone() },
            "f" => if c.rng.bool() { json!(key(&mut c.rng, "E")) } else { c.rng.pick(&[json!(1), J::Null, json!(""), json!("M"), json!("MAA"), json!("zz")]).clone() },
            _ => c.rng.pick(&[json!(1), J::Null, json!([]), json!({}), json!(["icp"]), json!(true), json!(1.5)]).clone(),
        };
        let mut d = doc.clone();
        d[f] = bad;
        if sized(&d).is_none() { return }
        c.input(format!("malformed {f}: {d}"));
        let Some(md) = sized(&d) else { return };
        let from_raw = c.rng.bool();
        let o = c.call("Serder", || if from_raw { Serder::new_with_raw(md.to_string().as_bytes()) } else { Serder::new_with_ked(&gen::keride(&d), None, None) });
        let Some(s) = c.must("malformed-refused", "event built", o) else { return };
        let o = c.call("Serder accessor", || Ok(match f {
            "k" => format!("{:?}", s.verfers()?), "n" => format!("{:?}", s.digers()?), "b" => format!("{:?}", s.werfers()?), "kt" => format!("{:?}", s.tholder()?), "nt" => format!("{:?}", s.ntholder()?),
            "s" => format!("{:?}", (s.sner().is_ok(), s.sn()?)), "f" => format!("{:?}", (s.fner().is_ok(), s._fn()?)), "i" => format!("{:?}", (s.preb().is_ok(), s.pre()?)), _ => format!("{:?}", s.est()?) }));
        c.refuse("malformed-refused", f, &o);
        // the other fields are unaffected
        let mut e = d.clone();
        e[f] = doc.get(f).cloned().unwrap_or(J::Null);
        let o = c.call("Serder accessor", || Ok((if f != "k" { s.verfers()?.len() } else { want.verfers.len() }, if f != "s" { s.sn()? } else { want.sn.0 }, if f != "i" { s.pre()? } else { want.pre.clone() })));
        c.must_eq("event", "other fields", o, &(want.verfers.len(), want.sn.0, want.pre.clone()));
        // required fields absent
        let f = *c.rng.pick(&["s", "i", "t"]);
        let mut d = doc.clone();
        d.as_object_mut().unwrap().shift_remove(f);
        if sized(&d).is_none() { return }
        let o = c.call("Serder accessor", || { let s = Serder::new_with_ked(&gen::keride(&d), None, None)?; Ok(match f { "s" => format!("{}", s.sn()?), "i" => s.pre()?, _ => s.est()?.to_string() }) });
        c.refuse("absent-refused", f, &o);
    });
    run.enumerate("every type of event", 27 * 27 * 27, |c| {
        // of all texts of up to three lower-case letters, four name establishment events
        let mut i = c.idx;
        let mut t = String::new();
        for _ in 0..3 { if i % 27 > 0 { t.push((b'a' + (i % 27 - 1) as u8) as char) } i /= 27; }
        c.input(t.clone());
        let want = ["icp", "rot", "dip", "drt"].contains(&t.as_str());
        let doc = json!({"v": vstring("KERI", 1, 0, 0), "t": t, "d": key(&mut c.rng, "E"), "i": "x", "s": "0"});
        let o = c.call("Serder.est", || Serder::new_with_ked(&gen::keride(&doc), None, None)?.est());
        c.must_eq("event", "establishment", o, &want);
    });
    run.enumerate("types of event with a stranger", 4, |c| {
        for t in gen::injections(["icp", "rot", "dip", "drt"][c.idx as usize]) {
            if ["icp", "rot", "dip", "drt"].contains(&t.as_str()) { continue }
            c.input(t.clone());
            let doc = json!({"v": vstring("KERI", 1, 0, 0), "t": t, "d": key(&mut c.rng, "E"), "i": "x", "s": "0"});
            let o = c.call("Serder.est", || Serder::new_with_ked(&gen::keride(&doc), None, None)?.est());
            c.must_eq("event", "establishment", o, &false);
        }
    });
    run.enumerate("sequence numbers with a stranger", 3, |c| {
        for t in gen::injections(["0", "a1", "ffffffffffffffff"][c.idx as usize]) {
            let doc = json!({"v": vstring("KERI", 1, 0, 0), "t": "rot", "d": key(&mut c.rng, "E"), "i": "x", "s": t});
            c.input(doc.to_string());
            let o = c.call("Serder.sn", || { let s = Serder::new_with_ked(&gen::keride(&doc), None, None)?; Ok((s.sn()?, s.sner()?.num()?)) });
            if t.bytes().all(|b| b.is_ascii_hexdigit()) { let n = u128::from_str_radix(&t, 16).unwrap(); c.must_eq("event", "sequence number", o, &(n, n)) } else { c.refuse("malformed-refused", "s", &o) };
        }
    });
    run.enumerate("numbers of keys, digests and witnesses", 3 * 300, |c| {
        let n = c.idx as usize / 3;
        let f = ["k", "n", "b"][c.idx as usize % 3];
        let v: Vec<String> = (0..n).map(|_| { let k = if f == "n" { *c.rng.pick(DIGESTS) } else { *c.rng.pick(KEYCODES) }; key(&mut c.rng, k) }).collect();
        let mut doc = json!({"v": vstring("KERI", 1, 0, 0), "t": "rot", "d": key(&mut c.rng, "E"), "i": "x", "s": "1"});
        let v = if n > 1 && c.rng.chance(1, 5) { let mut v = v; let i = c.rng.range(1, n - 1); v[i] = v[c.rng.below(i)].clone(); v } else { v };
        doc[f] = json!(v);
        c.input(format!("{n} in {f}"));
        let o = c.call("Serder", || { let s = Serder::new_with_ked(&gen::keride(&doc), None, None)?; Ok(match f { "k" => s.verfers()?.iter().map(|x| x.qb64()).collect::<anyhow::Result<Vec<_>>>()?, "b" => s.werfers()?.iter().map(|x| x.qb64()).collect::<anyhow::Result<Vec<_>>>()?, _ => s.digers()?.iter().map(|x| x.qb64()).collect::<anyhow::Result<Vec<_>>>()? }) });
        c.must_eq("event", "every number", o, &v);
        // one of them malformed, at every place in turn
        if n > 0 {
            let i = c.rng.below(n);
            let mut bad = v.clone();
            match c.rng.below(4) { 0 => { bad[i].pop(); } 1 => bad[i].insert(0, '='), 2 => { bad[i] = if f == "n" { key(&mut c.rng, "D") } else { key(&mut c.rng, "E") } } _ => bad[i].clear() }
            doc[f] = json!(bad);
            let o = c.call("Serder", || { let s = Serder::new_with_ked(&gen::keride(&doc), None, None)?; Ok(match f { "k" => s.verfers()?.len(), "b" => s.werfers()?.len(), _ => s.digers()?.len() }) });
            c.refuse("malformed-refused", f, &o);
        }
    });
    run.section("credentials", 4000, |c| {
        let mut m = Map::new();
        m.insert("v".into(), json!(vstring("ACDC", 1, 0, 0)));
        m.insert("d".into(), json!(key(&mut c.rng, "E")));
        let (mut i, s) = (gen::text(&mut c.rng), key(&mut c.rng, "E"));
        if c.rng.chance(1, 10) { i = s.clone() }
        m.insert("i".into(), json!(i));
        let ri = if c.rng.chance(1, 10) { Some(i.clone()) } else if c.rng.bool() { Some(gen::text(&mut c.rng)) } else { None };
        if let Some(x) = &ri { m.insert("ri".into(), json!(x)); }
        m.insert("s".into(), json!(s));
        let a = if c.rng.chance(3, 4) { Some(gen::value(&mut c.rng, 3)) } else { None };
        if let Some(x) = &a { m.insert("a".into(), x.clone()); }
        let e = if c.rng.bool() { Some(gen::value(&mut c.rng, 3)) } else { None };
        if let Some(x) = &e { m.insert("e".into(), x.clone()); }
        if c.rng.bool() { m.insert("x".into(), gen::scalar(&mut c.rng)); }
        let doc = J::Object(m);
        c.input(doc.to_string());
        let Some(w) = sized(&doc) else { return };
        let look = |x: &Creder| -> anyhow::Result<(String, String, String, Option<String>, String, String)> { Ok((x.issuer()?, x.schema()?, x.subject().to_json()?, x.status()?, x.chains()?.to_json()?, x.crd().to_json()?)) };
        let want = (i, s, a.clone().unwrap_or(J::Null).to_string(), ri, e.unwrap_or(json!({})).to_string(), w.to_string());
        let o = c.call("Creder", || look(&Creder::new_with_ked(&gen::keride(&doc), None, None)?));
        c.must_eq("credential", "", o, &want);
        if serde_json::from_str::<J>(&w.to_string()).unwrap() == w {
            let o = c.call("Creder", || look(&Creder::new_with_raw(w.to_string().as_bytes())?));
            c.must_eq("credential", "from raw", o, &want);
            let mut raw = w.to_string().into_bytes();
            raw.extend(tail_bytes(&mut c.rng));
            let o = c.call("Creder", || look(&Creder::new_with_raw(&raw)?));
            c.must_eq("credential", "from raw", o, &want);
        }
        let f = *c.rng.pick(&["i", "s", "ri"]);
        let mut d = doc.clone();
        let bad = c.rng.pick(&[json!(1), J::Null, json!([]), json!({"d": "x"}), json!(true), json!(["E"])]).clone();
        if f != "ri" && c.rng.chance(1, 4) { d.as_object_mut().unwrap().shift_remove(f); } else { d[f] = bad; }
        c.input(format!("malformed {f}: {d}"));
        let o = c.call("Creder", || { let x = Creder::new_with_ked(&gen::keride(&d), None, None)?; Ok(match f { "i" => x.issuer()?, "s" => x.schema()?, _ => format!("{:?}", x.status()?) }) });
        c.refuse("credential-refused", f, &o);
    });
}
