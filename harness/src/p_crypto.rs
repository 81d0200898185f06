//! C08, C09, C10, C22, C23, C24: signatures, keys, digests, stretched and fresh secrets.
use crate::fw::*;
use crate::gen;
use crate::lib_api::*;
use crate::model::*;
use crate::p_cesr::{payload, valid_seed};
use keride::cesr::*;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use std::collections::HashSet;
use std::sync::Mutex;

pub static SEEDS: &[&str] = &["A", "J", "Q"];
pub fn pub_code(seed: &str, transferable: bool) -> &'static str {
    match (seed, transferable) {
        ("A", true) => "D",
        ("A", false) => "B",
        ("J", true) => "1AAB",
        ("J", false) => "1AAA",
        ("Q", true) => "1AAJ",
        _ => "1AAI",
    }
}
pub fn ref_pub(seed: &str, raw: &[u8]) -> Vec<u8> {
    match seed {
        "A" => ed25519_dalek::SigningKey::from_bytes(raw.try_into().unwrap()).verifying_key().to_bytes().to_vec(),
        "J" => k256::ecdsa::SigningKey::from_slice(raw).unwrap().verifying_key().to_encoded_point(true).as_bytes().to_vec(),
        _ => p256::ecdsa::SigningKey::from_slice(raw).unwrap().verifying_key().to_encoded_point(true).as_bytes().to_vec(),
    }
}
pub fn ref_verify(seed: &str, key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    use k256::ecdsa::signature::Verifier;
    match seed {
        "A" => (|| {
            let k = ed25519_dalek::VerifyingKey::from_bytes(key.try_into().ok()?).ok()?;
            let s = ed25519_dalek::Signature::from_bytes(sig.try_into().ok()?);
            k.verify(msg, &s).ok()
        })().is_some(),
        "J" => (|| {
            let k = k256::ecdsa::VerifyingKey::from_sec1_bytes(key).ok()?;
            let s = k256::ecdsa::Signature::try_from(sig).ok()?;
            k.verify(msg, &s).ok()
        })().is_some(),
        _ => (|| {
            let k = p256::ecdsa::VerifyingKey::from_sec1_bytes(key).ok()?;
            let s = p256::ecdsa::Signature::try_from(sig).ok()?;
            k.verify(msg, &s).ok()
        })().is_some(),
    }
}
/// a valid seed, with a bias to extreme scalars
pub fn any_seed(r: &mut Rng, code: &str) -> Vec<u8> {
    loop {
        let mut v = match r.below(8) {
            0 => {
                let mut v = vec![0; 32];
                v[31] = r.range(1, 3) as u8;
                v
            }
            1 => {
                let mut v = vec![0u8; 32];
                let n = r.range(1, 16);
                for b in v[32 - n..].iter_mut() {
                    *b = r.byte()
                }
                v
            }
            2 => payload(r, 32),
            _ => r.bytes(32),
        };
        if code != "A" && r.chance(1, 12) {
            // just below the group order
            let n: [u8; 32] = if code == "J" { K256N } else { P256N };
            v = n.to_vec();
            v[31] -= r.range(1, 5) as u8;
        }
        if valid_seed(code, &v) {
            return v;
        }
    }
}
const K256N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf,
    0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
const P256N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7,
    0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];
/// little-endian group order of edwards25519
const ED_L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0x10,
];
fn message(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        _ if r.chance(1, 60) => *r.pick(&[4095usize, 4096, 4097, 16384, 65535, 65536, 65537, 131072, 300_001, 1 << 20]),
        0 => 0,
        1 => 1,
        2..=6 => r.below(200),
        7 => *r.pick(&[31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1023, 1024]),
        8 => r.range(200, 3000),
        _ => r.range(3000, 20000),
    };
    payload(r, n)
}
fn sig_code(seed: &str) -> &'static str {
    match seed {
        "A" => "0B",
        "J" => "0C",
        _ => "0I",
    }
}
/// the indexed code, derived from the specification tables
fn isig_code(seed: &str, only: bool, big: bool) -> &'static str {
    match (seed, only, big) {
        ("A", false, false) => "A",
        ("A", true, false) => "B",
        ("J", false, false) => "C",
        ("J", true, false) => "D",
        ("Q", false, false) => "E",
        ("Q", true, false) => "F",
        ("A", false, true) => "2A",
        ("A", true, true) => "2B",
        ("J", false, true) => "2C",
        ("J", true, true) => "2D",
        ("Q", false, true) => "2E",
        _ => "2F",
    }
}
fn signer(c: &mut Case, seed: &str, raw: &[u8], t: bool) -> Option<Signer> {
    let route = c.rng.below(5);
    let q = qualify(seed, raw);
    let o = match route {
        0 => c.call("Signer::new(code,raw)", || Signer::new(Some(t), Some(seed), Some(raw), None, None, None)),
        1 => c.call("Signer::new_with_raw", || Signer::new_with_raw(raw, Some(t), Some(seed))),
        2 => c.call("Signer::new_with_qb64", || Signer::new_with_qb64(&q, Some(t))),
        3 => c.call("Signer::new_with_qb64b", || Signer::new_with_qb64b(q.as_bytes(), Some(t))),
        _ => {
            let b = b64d(q.as_bytes()).unwrap();
            c.call("Signer::new_with_qb2", || Signer::new_with_qb2(&b, Some(t)))
        }
    };
    c.must("signer-made", seed, o)
}

// ------------------------------------------------------------------ C08
pub fn c08(run: &Run) {
    run.require(&["signer-made", "signed", "genuine-verifies", "genuine-verifies-by-reference", "altered-signature-fails", "altered-message-fails", "other-key-fails", "other-curve-fails", "wrong-length-fails", "agrees-with-reference"]);
    run.section("sign and alter", 700, |c| {
        let seed = SEEDS[(c.idx % 3) as usize];
        let raw = any_seed(&mut c.rng, seed);
        let t = c.rng.bool();
        let msg = message(&mut c.rng);
        c.input(format!("seed={} transferable={t} message={}", qualify(seed, &raw), hex(&msg[..msg.len().min(80)])));
        let Some(s) = signer(c, seed, &raw, t) else { return };
        let pk = ref_pub(seed, &raw);
        let only = c.rng.bool();
        let index = *c.rng.pick(&[0, 1, 5, 63, 64, 65, 4095]);
        let ondex = if c.rng.bool() { None } else { Some(c.rng.below(4096) as u32) };
        let mut sigs: Vec<Vec<u8>> = vec![];
        let o = c.call("Signer::sign_unindexed", || s.sign_unindexed(&msg));
        let Some(cig) = c.must("signed", seed, o) else { return };
        sigs.push(cig.raw());
        let o = c.call("Signer::sign_indexed", || s.sign_indexed(&msg, only, index, ondex));
        let Some(sig) = c.must("signed", seed, o) else { return };
        sigs.push(sig.raw());
        // through the encoded forms and back
        let (a, b) = (cig.clone(), sig.clone());
        let o = c.call("Cigar::new(qb64…)", || Ok(vec![Cigar::new_with_qb64(&a.qb64()?, None)?.raw(), Cigar::new_with_qb2(&a.qb2()?, None)?.raw(), Cigar::new_with_qb64b(&a.qb64b()?, None)?.raw()]));
        if let Some(v) = c.must("signed", seed, o) {
            sigs.extend(v)
        }
        let o = c.call("Siger::new(qb64…)", || Ok(vec![Siger::new_with_qb64(&b.qb64()?, None)?.raw(), Siger::new_with_qb2(&b.qb2()?, None)?.raw(), Siger::new_with_qb64b(&b.qb64b()?, None)?.raw()]));
        if let Some(v) = c.must("signed", seed, o) {
            sigs.extend(v)
        }
        // every form of the key
        let vf = s.verfer();
        let mut keys = vec![vf.clone(), cig.verfer(), sig.verfer()];
        let o = c.call("Verfer::new(…)", || Ok(vec![Verfer::new_with_qb64(&vf.qb64()?)?, Verfer::new_with_qb2(&vf.qb2()?)?, Verfer::new_with_qb64b(&vf.qb64b()?)?, Verfer::new_with_raw(&pk, Some(pub_code(seed, !t)))?]));
        if let Some(v) = c.must("signed", seed, o) {
            keys.extend(v)
        }
        for sg in &sigs {
            c.eq("signed-length", seed, &sg.len(), &64);
            c.check("genuine-verifies-by-reference", seed, ref_verify(seed, &pk, sg, &msg), || "a reference implementation rejects the signature".into());
            let k = c.rng.pick(&keys).clone();
            let o = c.call("Verfer::verify", || k.verify(sg, &msg));
            c.must_eq("genuine-verifies", seed, o, &true);
        }
        for k in &keys {
            let o = c.call("Verfer::verify", || k.verify(&sigs[0], &msg));
            c.must_eq("genuine-verifies", seed, o, &true);
        }
        let good = c.rng.pick(&sigs[..2]).clone();
        // altered signatures
        let all = c.idx < 24;
        let bits: Vec<usize> = if all { (0..512).collect() } else { (0..24).map(|_| c.rng.below(512)).collect() };
        for b in bits {
            let mut m = good.clone();
            m[b / 8] ^= 1 << (b % 8);
            never(c, "altered-signature-fails", seed, &vf, &m, &msg);
        }
        let mut alts: Vec<Vec<u8>> = vec![vec![0; 64], vec![0xff; 64], [&good[32..], &good[..32]].concat(), [&good[..32], &[0u8; 32][..]].concat(), [&[0u8; 32][..], &good[32..]].concat(), good.iter().rev().copied().collect()];
        if seed == "A" {
            // same scalar, not reduced
            let mut m = good.clone();
            let mut carry = 0u16;
            for i in 0..32 {
                let x = m[32 + i] as u16 + ED_L[i] as u16 + carry;
                m[32 + i] = x as u8;
                carry = x >> 8;
            }
            alts.push(m);
        }
        let o2 = c.call("Signer::sign_unindexed", || s.sign_unindexed(b"something else entirely"));
        if let Some(x) = o2.ok() {
            alts.push(x.raw());
            alts.push([&x.raw()[..32], &good[32..]].concat());
        }
        for m in alts {
            if m != good {
                never(c, "altered-signature-fails", seed, &vf, &m, &msg);
            }
        }
        // wrong lengths
        for _ in 0..6 {
            let n = match c.rng.below(4) { 0 => 0, 1 => 63, 2 => 65, _ => c.rng.below(140) };
            if n == 64 { continue }
            let mut m = good.clone();
            m.resize(n, 0);
            never(c, "wrong-length-fails", seed, &vf, &m, &msg);
        }
        // the DER form of an ECDSA signature is not the fixed-size one
        if seed == "J" {
            let d = k256::ecdsa::Signature::try_from(&good[..]).unwrap().to_der();
            never(c, "wrong-length-fails", seed, &vf, d.as_bytes(), &msg);
        }
        // altered messages
        let mut msgs: Vec<Vec<u8>> = vec![];
        for _ in 0..6 {
            if !msg.is_empty() {
                let mut m = msg.clone();
                let i = c.rng.below(m.len() * 8);
                m[i / 8] ^= 1 << (i % 8);
                msgs.push(m);
            }
        }
        if !msg.is_empty() {
            let n = c.rng.below(msg.len());
            msgs.push(msg[..n].to_vec());
            msgs.push(msg[1..].to_vec());
            msgs.push(msg[..msg.len() - 1].to_vec());
            let mut m = msg.clone();
            *m.last_mut().unwrap() ^= 1;
            msgs.push(m);
            let mut m = msg.clone();
            m.reverse();
            msgs.push(m);
        }
        msgs.push([&msg[..], &[0]].concat());
        msgs.push([&msg[..], b" "].concat());
        msgs.push([&[0], &msg[..]].concat());
        msgs.push([&msg[..], &msg[..], b"x"].concat());
        for code in ["I", "E", "0G"] {
            msgs.push(digest(code, &msg));
        }
        for m in msgs {
            if m != msg {
                never(c, "altered-message-fails", seed, &vf, &good, &m);
            }
        }
        // other keys, other curves
        for k in SEEDS {
            let mut other = any_seed(&mut c.rng, k);
            if *k == seed {
                if c.rng.bool() {
                    other = raw.clone();
                    other[c.rng.below(32)] ^= 1 << c.rng.below(8);
                    if !valid_seed(k, &other) { continue }
                }
                if other == raw { continue }
            }
            let pk2 = ref_pub(k, &other);
            let tt = c.rng.bool();
            let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&pk2, Some(pub_code(k, tt))));
            if let Some(v) = c.must("signed", k, o) {
                if pk2 == pk { continue }
                never(c, if *k == seed { "other-key-fails" } else { "other-curve-fails" }, seed, &v, &good, &msg);
            }
            // the same scalar on another curve
            if *k != seed && valid_seed(k, &raw) {
                let pk3 = ref_pub(k, &raw);
                let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&pk3, Some(pub_code(k, tt))));
                if let Some(v) = o.ok() {
                    never(c, "other-curve-fails", seed, &v, &good, &msg);
                }
            }
        }
        // the key's own bytes under another curve's code
        if seed != "A" {
            let other = if seed == "J" { "Q" } else { "J" };
            let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&pk, Some(pub_code(other, t))));
            if let Some(v) = o.ok() {
                never(c, "other-curve-fails", seed, &v, &good, &msg);
            }
            // the mirrored point
            let mut m = pk.clone();
            m[0] ^= 1;
            let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&m, Some(pub_code(seed, t))));
            if let Some(v) = o.ok() {
                never(c, "other-key-fails", seed, &v, &good, &msg);
            }
        } else {
            let i = c.rng.below(256);
            let mut m = pk.clone();
            m[i / 8] ^= 1 << (i % 8);
            let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&m, Some(pub_code(seed, t))));
            if let Some(v) = o.ok() {
                never(c, "other-key-fails", seed, &v, &good, &msg);
            }
        }
    });
    let lens: Vec<usize> = (0..300).chain([383, 384, 385, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32768, 65535, 65536, 65537, 100_000]).collect();
    run.enumerate("every message length", (lens.len() * 3) as u64, |c| {
        let seed = SEEDS[(c.idx % 3) as usize];
        let n = lens[c.idx as usize / 3];
        let raw = any_seed(&mut c.rng, seed);
        let t = c.rng.bool();
        let msg = payload(&mut c.rng, n);
        c.input(format!("seed={} transferable={t} message of {n} bytes {}", qualify(seed, &raw), hex(&msg[..n.min(80)])));
        let Some(s) = signer(c, seed, &raw, t) else { return };
        let pk = ref_pub(seed, &raw);
        let vf = s.verfer();
        let o = c.call("Signer::sign_unindexed", || s.sign_unindexed(&msg));
        let Some(cig) = c.must("signed", seed, o) else { return };
        let o = c.call("Signer::sign_indexed", || s.sign_indexed(&msg, t, n as u32 % 64, None));
        let Some(sig) = c.must("signed", seed, o) else { return };
        for g in [cig.raw(), sig.raw()] {
            c.check("genuine-verifies-by-reference", seed, ref_verify(seed, &pk, &g, &msg), || "a reference implementation rejects the signature".into());
            let o = c.call("Verfer::verify", || vf.verify(&g, &msg));
            c.must_eq("genuine-verifies", seed, o, &true);
        }
        let good = if t { cig.raw() } else { sig.raw() };
        let mut msgs: Vec<Vec<u8>> = vec![[&msg[..], &[0]].concat(), [&[0], &msg[..]].concat()];
        // one bit in the first, the last and a few other places
        for k in 0..8 {
            if n == 0 { break }
            let mut m = msg.clone();
            let i = match k { 0 => 0, 1 => n - 1, 2 => n / 2, 3 => (n - 1) / 64 * 64, 4 => (n - 1) / 128 * 128, _ => c.rng.below(n) };
            m[i] ^= 1 << c.rng.below(8);
            msgs.push(m);
        }
        for k in [1, 8, 16, 32, 64, 128] {
            if n >= k {
                msgs.push(msg[..n - k].to_vec());
                msgs.push(msg[k..].to_vec());
            }
            msgs.push([&msg[..], &vec![0; k][..]].concat());
        }
        for m in msgs {
            never(c, "altered-message-fails", seed, &vf, &good, &m);
        }
    });
    run.enumerate("long messages", 3 * 2, |c| {
        let seed = SEEDS[(c.idx % 3) as usize];
        let n = [(1usize << 22) + 1, (33 << 20) + 17][c.idx as usize / 3];
        let raw = any_seed(&mut c.rng, seed);
        let mut msg: Vec<u8> = (0..n).map(|i| (i >> 9) as u8 ^ i as u8).collect();
        c.input(format!("seed={} message of {n} bytes", qualify(seed, &raw)));
        let Some(s) = signer(c, seed, &raw, true) else { return };
        let o = c.call("Signer::sign_unindexed", || s.sign_unindexed(&msg));
        let Some(g) = c.must("signed", seed, o) else { return };
        c.check("genuine-verifies-by-reference", seed, ref_verify(seed, &ref_pub(seed, &raw), &g.raw(), &msg), || "a reference implementation rejects the signature".into());
        let vf = s.verfer();
        let o = c.call("Verfer::verify", || vf.verify(&g.raw(), &msg));
        c.must_eq("genuine-verifies", seed, o, &true);
        for at in [n - 1, n / 2, 1 << 20, (1 << 24).min(n - 2)] {
            msg[at] ^= 1;
            never(c, "altered-message-fails", seed, &vf, &g.raw(), &msg);
            msg[at] ^= 1;
        }
        msg.pop();
        never(c, "altered-message-fails", seed, &vf, &g.raw(), &msg);
    });
    run.section("hostile keys and signatures", 3000, |c| {
        let seed = SEEDS[(c.idx % 3) as usize];
        let n = if seed == "A" { 32 } else { 33 };
        let mut key = payload(&mut c.rng, n);
        if seed != "A" && c.rng.chance(3, 4) {
            key[0] = 2 + c.rng.below(2) as u8;
        }
        let mut sig = payload(&mut c.rng, 64);
        let msg = message(&mut c.rng);
        match c.rng.below(4) {
            0 => {
                let raw = any_seed(&mut c.rng, seed);
                key = ref_pub(seed, &raw);
            }
            1 if seed == "A" => {
                // low order points and their sums
                key = vec![0; 32];
                key[0] = c.rng.below(2) as u8;
                if c.rng.bool() { key[31] = 0x80 }
                sig = vec![0; 64];
                sig[0] = 1;
            }
            _ => {}
        }
        c.input(format!("curve {seed} key={} sig={} message={}", hex(&key), hex(&sig), hex(&msg[..msg.len().min(60)])));
        let tt = c.rng.bool();
        let o = c.call("Verfer::new_with_raw", || Verfer::new_with_raw(&key, Some(pub_code(seed, tt))));
        if let Some(v) = o.ok() {
            let o = c.call("Verfer::verify", || v.verify(&sig, &msg));
            let acc = matches!(o, Obs::Ok(true));
            let want = ref_verify(seed, &key, &sig, &msg);
            c.check("agrees-with-reference", seed, !acc || want, || "accepted what the reference implementation rejects".into());
        }
    });
}
fn never(c: &mut Case, rule: &'static str, key: &str, v: &Verfer, sig: &[u8], msg: &[u8]) {
    let o = c.call("Verfer::verify", || v.verify(sig, msg));
    let d = format!("verified: key={} sig={} message={}", hex(&v.raw()), hex(sig), hex(&msg[..msg.len().min(100)]));
    c.check(rule, key, !matches!(o, Obs::Ok(true)), || d);
}

// ------------------------------------------------------------------ C09
pub fn c09(run: &Run) {
    run.require(&["signer-made", "public-key", "transferability", "seed-kept", "unindexed-code", "indexed-code", "index-refused", "attached-key", "signature-bytes", "transferable-codes"]);
    run.enumerate("transferability of every code", MATTER.len() as u64, |c| {
        let d = &MATTER[c.idx as usize];
        c.input(d.code);
        let n = if d.variable() { 6 + d.ls } else { d.rs() };
        let raw = vec![1u8; n];
        let want = !["B", "1AAA", "1AAC", "1AAI"].contains(&d.code);
        let o = c.call("Matter::transferable", || Ok(<TM as Matter>::new_with_code_and_raw(d.code, &raw)?.transferable()));
        c.must_eq("transferable-codes", d.code, o, &want);
    });
    run.section("keys", 1500, |c| {
        let seed = SEEDS[(c.idx % 3) as usize];
        let raw = any_seed(&mut c.rng, seed);
        let t = c.rng.bool();
        c.input(format!("seed={} transferable={t}", qualify(seed, &raw)));
        let Some(s) = signer(c, seed, &raw, t) else { return };
        key_checks(c, &s, seed, &raw, t);
        if t {
            // transferable is the default
            let o = c.call("Signer::new(code,raw)", || Signer::new(None, Some(seed), Some(&raw), None, None, None));
            if let Some(s) = c.must("signer-made", seed, o) {
                key_checks(c, &s, seed, &raw, true);
            }
            let q = qualify(seed, &raw);
            let o = c.call("Signer::new_with_qb64", || Signer::new_with_qb64(&q, None));
            if let Some(s) = c.must("signer-made", seed, o) {
                key_checks(c, &s, seed, &raw, true);
            }
            if seed == "A" {
                let o = c.call("Signer::new_with_raw", || Signer::new_with_raw(&raw, None, None));
                if let Some(s) = c.must("signer-made", seed, o) {
                    key_checks(c, &s, seed, &raw, true);
                }
            }
        } else {
            let o = c.call("Signer::new_with_defaults", || Signer::new_with_defaults(Some(false), Some(seed)));
            if let Some(s) = c.must("signer-made", seed, o) {
                let r = s.raw();
                key_checks(c, &s, seed, &r, false);
            }
        }
    });
    let idx: Vec<u32> = vec![0, 1, 2, 31, 61, 62, 63, 64, 65, 66, 100, 127, 128, 1000, 4093, 4094, 4095, 4096, 4097, 65535, 262143, 262144, 16777216, u32::MAX - 1, u32::MAX];
    let all: Vec<(usize, bool, u32, Option<u32>)> = {
        let mut v = vec![];
        for s in 0..3 {
            for only in [false, true] {
                for i in &idx {
                    v.push((s, only, *i, None));
                    for o in &idx {
                        v.push((s, only, *i, Some(*o)));
                    }
                }
            }
        }
        v
    };
    run.enumerate("indices", all.len() as u64, |c| {
        let (s, only, i, o) = all[c.idx as usize];
        index_case(c, SEEDS[s], only, i, o);
    });
    run.enumerate("every small index", 3 * 2 * 300, |c| {
        let s = SEEDS[(c.idx % 3) as usize];
        let only = (c.idx / 3) % 2 == 1;
        index_case(c, s, only, (c.idx / 6) as u32, None);
    });
    run.enumerate("every small other index", 3 * 2 * 300, |c| {
        let s = SEEDS[(c.idx % 3) as usize];
        let only = (c.idx / 3) % 2 == 1;
        let i = *c.rng.pick(&[0, 1, 5, 63, 64, 300]);
        index_case(c, s, only, i, Some((c.idx / 6) as u32));
    });
    let marks: Vec<u32> = (8..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]).chain([999, 1000, 1001, 9999, 10000]).collect();
    run.enumerate("notable indices", (marks.len() * 6) as u64, |c| {
        let s = SEEDS[(c.idx % 3) as usize];
        let only = (c.idx / 3) % 2 == 1;
        let m = marks[c.idx as usize / 6];
        index_case(c, s, only, m, None);
        index_case(c, s, only, 0, Some(m));
        index_case(c, s, only, m, Some(m));
        index_case(c, s, only, m, Some(m.wrapping_add(1)));
        index_case(c, s, only, m % 4096, Some(m.wrapping_mul(3) % 4096));
    });
    run.section("random indices", 1500, |c| {
        let s = *c.rng.pick(SEEDS);
        let only = c.rng.bool();
        let m = *c.rng.pick(&[66, 4100, 70000]);
        let i = c.rng.below(m) as u32;
        let o = match c.rng.below(4) { 0 => None, 1 => Some(i), _ => Some(c.rng.below(m) as u32) };
        index_case(c, s, only, i, o);
    });
}
fn key_checks(c: &mut Case, s: &Signer, seed: &str, raw: &[u8], t: bool) {
    c.eq("seed-kept", seed, &(s.code(), s.raw()), &(seed.to_string(), raw.to_vec()));
    let pk = ref_pub(seed, raw);
    let v = s.verfer();
    c.eq("public-key", seed, &(v.code(), v.raw()), &(pub_code(seed, t).to_string(), pk.clone()));
    let o = c.call("Verfer::qb64", || v.qb64());
    c.must_eq("public-key", seed, o, &qualify(pub_code(seed, t), &pk));
    let o = c.val("Matter::transferable", || v.transferable());
    c.must_eq("transferability", seed, o, &t);
}
fn index_case(c: &mut Case, seed: &'static str, only: bool, index: u32, ondex: Option<u32>) {
    let raw = any_seed(&mut c.rng, seed);
    let t = c.rng.bool();
    let msg = c.rng.bytes(20);
    c.input(format!("seed={} transferable={t} only={only} index={index} ondex={ondex:?}", qualify(seed, &raw)));
    let Some(s) = signer(c, seed, &raw, t) else { return };
    let o = c.call("Signer::sign_unindexed", || s.sign_unindexed(&msg));
    let Some(cig) = c.must("unindexed-code", seed, o) else { return };
    c.eq("unindexed-code", seed, &cig.code(), &sig_code(seed).to_string());
    c.check("attached-key", seed, cig.verfer() == s.verfer() && cig.verfer().raw() == ref_pub(seed, &raw), || format!("{:?}", cig.verfer()));
    let big = if only { index >= 64 } else { index >= 64 || ondex.unwrap_or(index) != index };
    let code = isig_code(seed, only, big);
    let given = if only { None } else { Some(ondex.unwrap_or(index)) };
    let o = c.call("Signer::sign_indexed", || s.sign_indexed(&msg, only, index, ondex));
    let k = format!("{seed}/{only}/{big}");
    c.seen("seed×only×index×other index", &format!("{seed}{only}{index}{ondex:?}"));
    let Some(want) = iconstruct(code, &[0; 64], index, given) else {
        c.refuse("index-refused", &k, &o);
        return;
    };
    let Some(sig) = c.must("indexed-code", &k, o) else { return };
    let want = iconstruct(code, &sig.raw(), index, given).unwrap_or(want);
    let o = c.call("Siger::qb64…", || iview(&sig));
    c.must_eq("indexed-code", &k, o, &IView::of(&want));
    c.check("attached-key", &k, sig.verfer() == s.verfer(), || format!("{:?}", sig.verfer()));
    for sg in [cig.raw(), sig.raw()] {
        let good = if seed == "A" {
            use ed25519_dalek::Signer as _;
            let k = ed25519_dalek::SigningKey::from_bytes(raw[..].try_into().unwrap());
            sg == k.sign(&msg).to_bytes()
        } else {
            sg.len() == 64 && ref_verify(seed, &ref_pub(seed, &raw), &sg, &msg)
        };
        c.check("signature-bytes", seed, good, || "not the seed's signature over the message".into());
    }
}

// ------------------------------------------------------------------ C10
pub fn c10(run: &Run) {
    run.require(&["digest", "verify-own", "verify-other", "compare-same", "compare-different", "compare-same-code", "digestive-codes", "default-code", "refused-code"]);
    run.enumerate("digest codes among all codes", MATTER.len() as u64, |c| {
        let d = &MATTER[c.idx as usize];
        c.input(d.code);
        let n = if d.variable() { 6 + d.ls } else { d.rs() };
        let raw = vec![1u8; n];
        let want = DIGESTS.contains(&d.code);
        let o = c.call("Matter::digestive", || Ok(<TM as Matter>::new_with_code_and_raw(d.code, &raw)?.digestive()));
        c.must_eq("digestive-codes", d.code, o, &want);
        if !want {
            let o = c.call("Diger::new_with_ser", || view(&Diger::new_with_ser(b"abc", Some(d.code))?));
            c.refuse("refused-code", d.code, &o);
        }
    });
    let lens: Vec<usize> = (0..140).chain([143, 144, 145, 191, 192, 199, 200, 201, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 8192, 8193]).collect();
    run.enumerate("every code and block boundary", (lens.len() * 9) as u64, |c| {
        let code = DIGESTS[c.idx as usize % 9];
        let n = lens[c.idx as usize / 9];
        let ser = payload(&mut c.rng, n);
        digest_case(c, code, &ser);
    });
    run.section("contents", 3000, |c| {
        let code = *c.rng.pick(DIGESTS);
        let n = match c.rng.below(20) { _ if c.rng.chance(1, 200) => *c.rng.pick(&[65535usize, 65536, 65537, 1 << 20, (1 << 20) + 1, 3_000_001]), 0 => c.rng.below(200_000), 1..=4 => c.rng.below(5000), _ => c.rng.below(300) };
        let ser = payload(&mut c.rng, n);
        digest_case(c, code, &ser);
    });
    run.enumerate("long contents", 9 * 2, |c| {
        let code = DIGESTS[c.idx as usize % 9];
        let n = [(1usize << 22) + 1, (33 << 20) + 17][c.idx as usize / 9];
        let mut ser: Vec<u8> = (0..n).map(|i| (i >> 9) as u8 ^ i as u8).collect();
        c.input(format!("{code} over {n} bytes"));
        let o = c.call("Diger::new_with_ser", || Diger::new_with_ser(&ser, Some(code)));
        let Some(d) = c.must("digest", code, o) else { return };
        c.eq("digest", code, &d.raw(), &digest(code, &ser));
        let o = c.call("Diger::verify", || d.verify(&ser));
        c.must_eq("verify-own", code, o, &true);
        for at in [n - 1, n / 2, 1 << 20, 0, (1 << 24).min(n - 2)] {
            ser[at] ^= 1;
            let o = c.call("Diger::verify", || d.verify(&ser));
            c.must_eq("verify-other", code, o, &false);
            ser[at] ^= 1;
        }
        ser.pop();
        let o = c.call("Diger::verify", || d.verify(&ser));
        c.must_eq("verify-other", code, o, &false);
    });
    run.section("comparisons", 6000, |c| {
        let a = DIGESTS[c.idx as usize % 9];
        let b = DIGESTS[c.idx as usize / 9 % 9];
        let n = match c.rng.below(6) { 0 => *c.rng.pick(&[0, 1, 44, 63, 64, 65, 127, 128, 129, 135, 136, 137, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 10001, 65536]), 1 => gen::size(&mut c.rng), _ => c.rng.below(150) };
        let ser = payload(&mut c.rng, n);
        let mut other = ser.clone();
        match c.rng.below(4) {
            0 if n > 0 => { other.pop(); }
            1 if n > 0 => { let i = c.rng.below(n * 8); other[i / 8] ^= 1 << (i % 8); }
            2 if n > 0 => *other.last_mut().unwrap() ^= 1,
            _ => other.push(7),
        }
        let (sa, sb) = match c.rng.below(5) {
            0 => (&ser, &other),
            1 => (&other, &ser),
            2 => (&other, &other),
            _ => (&ser, &ser),
        };
        let (mut ra, mut rb) = (digest(a, sa), digest(b, sb));
        if c.rng.chance(1, 6) {
            let i = c.rng.below(ra.len() * 8);
            ra[i / 8] ^= 1 << (i % 8);
        }
        if c.rng.chance(1, 6) {
            let i = c.rng.below(rb.len() * 8);
            rb[i / 8] ^= 1 << (i % 8);
        }
        if c.rng.chance(1, 8) && ra.len() == rb.len() {
            rb = ra.clone()
        }
        let (qa, qb) = (qualify(a, &ra), qualify(b, &rb));
        c.input(format!("content of {} bytes {} a={qa} b={qb}", ser.len(), hex(&ser[..ser.len().min(200)])));
        let o = c.call("Diger::new_with_qb64", || Ok((Diger::new_with_qb64(&qa)?, Diger::new_with_qb64(&qb)?)));
        let Some((da, db)) = c.must("digest", a, o) else { return };
        let va = ra == digest(a, &ser);
        let vb = rb == digest(b, &ser);
        let (rule, want) = if qa == qb { ("compare-same", true) } else if a == b { ("compare-same-code", false) } else { ("compare-different", va && vb) };
        c.seen("code pair×validity", &format!("{a}{b}{va}{vb}{}", qa == qb));
        let k = format!("{a}/{b}");
        let o = c.call("Diger::compare(diger)", || da.compare(&ser, None, Some(&db)));
        c.must_eq(rule, &k, o, &want);
        let o = c.call("Diger::compare(dig)", || da.compare(&ser, Some(qb.as_bytes()), None));
        c.must_eq(rule, &k, o, &want);
        let o = c.call("Diger::compare(diger)", || db.compare(&ser, None, Some(&da)));
        c.must_eq(rule, &k, o, &want);
        let o = c.call("Diger::verify", || da.verify(&ser));
        c.must_eq(if va { "verify-own" } else { "verify-other" }, a, o, &va);
        let o = c.call("Diger::verify", || db.verify(&ser));
        c.must_eq(if vb { "verify-own" } else { "verify-other" }, b, o, &vb);
        if c.idx < 9 {
            let o = c.call("Diger::compare()", || da.compare(&ser, None, None));
            c.refuse("compare-nothing", "", &o);
        }
        // material that is not a digest never matches
        let junk = c.rng.bytes(44);
        let o = c.call("Diger::compare(junk)", || da.compare(&ser, Some(&junk), None));
        c.check("compare-different", "junk", !matches!(o, Obs::Ok(true)), || hex(&junk));
    });
}
fn digest_case(c: &mut Case, code: &'static str, ser: &[u8]) {
    c.input(format!("code={code} len={} content={}", ser.len(), hex(&ser[..ser.len().min(64)])));
    c.seen("code×length", &format!("{code}{}", ser.len()));
    let want = digest(code, ser);
    let w = View::of(&construct(code, &want).unwrap());
    let o = c.call("Diger::new_with_ser", || view(&Diger::new_with_ser(ser, Some(code))?));
    c.must_eq("digest", code, o, &w);
    let o = c.call("Diger::new(ser,code)", || Diger::new(Some(ser), Some(code), None, None, None, None));
    let Some(d) = c.must("digest", code, o) else { return };
    if code == "E" {
        let o = c.call("Diger::new_with_ser", || view(&Diger::new_with_ser(ser, None)?));
        c.must_eq("default-code", "", o, &w);
    }
    let o = c.call("Diger::verify", || d.verify(ser));
    c.must_eq("verify-own", code, o, &true);
    for _ in 0..3 {
        let mut m = ser.to_vec();
        match c.rng.below(4) {
            0 => m.push(0),
            1 if !m.is_empty() => {
                m.pop();
            }
            2 if !m.is_empty() => {
                let i = c.rng.below(m.len() * 8);
                m[i / 8] ^= 1 << (i % 8);
            }
            _ => m.insert(0, 0),
        }
        let o = c.call("Diger::verify", || d.verify(&m));
        c.must_eq("verify-other", code, o, &(m == ser));
    }
    // altered digests
    let mut r = want.clone();
    let i = c.rng.below(r.len() * 8);
    r[i / 8] ^= 1 << (i % 8);
    let o = c.call("Diger::verify", || Diger::new_with_raw(&r, Some(code))?.verify(ser));
    c.must_eq("verify-other", code, o, &false);
}

// ------------------------------------------------------------------ C22
fn ref_stretch(path: &[u8], salt: &[u8], size: usize, tier: &str) -> Option<Vec<u8>> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        "high" => (1048576, 4),
        _ => return None,
    };
    let p = argon2::Params::new(m, t, 1, Some(size)).ok()?;
    let mut out = vec![0; size];
    argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, p).hash_password_into(path, salt, &mut out).ok()?;
    Some(out)
}
fn any_path(r: &mut Rng) -> String {
    match r.below(8) {
        6 => gen::text(r),
        7 => format!("{}{}", gen::text(r), r.pick(&["\n", "\0", " ", "\r\n", "0", "/", "\u{feff}", "é", "e\u{301}", "😀"])),
        0 => String::new(),
        1 => format!("{:x}", r.below(4096)),
        2 => format!("signify:aid{:x}{:x}", r.below(30), r.below(30)),
        3 => (0..r.below(90)).map(|_| char::from_u32(r.range(32, 0x2ff) as u32).unwrap_or('x')).collect(),
        4 => "p".repeat(if r.chance(1, 20) { gen::size(r) * r.range(1, 80) } else { r.below(300) }),
        _ => (0..r.below(24)).map(|_| (r.range(32, 126) as u8) as char).collect(),
    }
}
fn salter(c: &mut Case, salt: &[u8], tier: Option<&str>) -> Option<Salter> {
    let q = qualify("0A", salt);
    let o = match c.rng.below(4) {
        0 => c.call("Salter::new_with_raw", || Salter::new_with_raw(salt, Some("0A"), tier)),
        1 => c.call("Salter::new_with_qb64", || Salter::new_with_qb64(&q, tier)),
        2 => c.call("Salter::new_with_qb64b", || Salter::new_with_qb64b(q.as_bytes(), tier)),
        _ => {
            let b = b64d(q.as_bytes()).unwrap();
            c.call("Salter::new_with_qb2", || Salter::new_with_qb2(&b, tier))
        }
    };
    c.must("salter-made", "", o)
}
pub fn c22(run: &Run) {
    run.require(&["salter-made", "stretched", "separates", "temp-wins", "tier-wins", "own-tier", "signer", "signers", "unknown-tier-refused", "bad-size-refused", "bad-code-refused"]);
    run.section("cheap stretches", 2500, |c| {
        let salt = payload(&mut c.rng, 16);
        let path = any_path(&mut c.rng);
        let own = *c.rng.pick(&[None, Some("low"), Some("med"), Some("high"), Some("bogus")]);
        let size = *c.rng.pick(&[4usize, 5, 16, 31, 32, 33, 63, 64, 65, 96, 128]);
        let tier = *c.rng.pick(&[None, Some("low"), Some("med"), Some("high"), Some("nonsense")]);
        c.input(format!("salt={} path={path:?} own={own:?} tier={tier:?} size={size} temp", hex(&salt)));
        let Some(s) = salter(c, &salt, own) else { return };
        c.eq("own-tier-kept", "", &s.tier(), &own.unwrap_or("low").to_string());
        // the temporary flag forces the cheapest parameters whatever the tiers
        let want = ref_stretch(path.as_bytes(), &salt, size, "min").unwrap();
        let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(&path), tier, Some(true)));
        c.must_eq("temp-wins", "", o, &want);
        let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(&path), Some("min"), None));
        c.must_eq("stretched", "min", o, &want);
        let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(&path), Some("min"), Some(false)));
        c.must_eq("stretched", "min again", o, &want);
        // defaults
        let d = ref_stretch(b"", &salt, 32, "min").unwrap();
        let o = c.call("Salter::stretch", || s.stretch(None, None, None, Some(true)));
        c.must_eq("stretched", "defaults", o, &d);
        // separation
        let mut p2 = path.clone();
        match c.rng.below(3) { 0 => p2.push('0'), 1 => p2.insert(0, '0'), _ => p2.push('\0') }
        let o = c.call("Salter::stretch", || s.stretch(Some(size.max(16)), Some(&p2), None, Some(true)));
        if let Some(x) = c.must("separates", "", o) {
            c.check("separates", "path", x[..4.max(size.min(16))] != want[..4.max(size.min(16))] || size < 16, || "same key for two paths".into());
        }
        let mut s2 = salt.clone();
        s2[c.rng.below(16)] ^= 1 << c.rng.below(8);
        if let Some(t) = salter(c, &s2, own) {
            let o = c.call("Salter::stretch", || t.stretch(Some(size), Some(&path), None, Some(true)));
            if let Some(x) = c.must("separates", "", o) {
                c.check("separates", "salt", x != want || size < 16, || "same key for two salts".into());
            }
        }
        let sz = c.rng.below(4);
        let o = c.call("Salter::stretch", || s.stretch(Some(sz), Some(&path), Some("min"), None));
        c.refuse("bad-size-refused", "", &o);
        let bad = *c.rng.pick(&["", "LOW", "lo", "Low", "lower", "max", "mid", "minimum", " low"]);
        let o = c.call("Salter::stretch", || s.stretch(Some(32), Some(&path), Some(bad), None));
        c.refuse("unknown-tier-refused", "", &o);
        if own == Some("bogus") {
            let o = c.call("Salter::stretch", || s.stretch(Some(32), Some(&path), None, Some(false)));
            c.refuse("unknown-tier-refused", "own", &o);
        }
    });
    // one argument taking every value, the others at random
    let one = |c: &mut Case, salt: &[u8], path: &str, size: usize| {
        c.input(format!("salt={} path of {} bytes {:?} size={size}", hex(salt), path.len(), path.chars().take(80).collect::<String>()));
        let Some(s) = salter(c, salt, None) else { return };
        let want = ref_stretch(path.as_bytes(), salt, size, "min").unwrap();
        let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(path), None, Some(true)));
        c.must_eq("temp-wins", "", o, &want);
        let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(path), Some("min"), Some(false)));
        c.must_eq("stretched", "min", o, &want);
        if size == 32 {
            let o = c.call("Salter::signer", || s.signer(Some("A"), None, Some(path), Some("min"), None));
            judge_signer(c, "signer", o, "A", &want, true);
        }
    };
    let sizes: Vec<usize> = (4..400).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]).collect();
    run.enumerate("every size", sizes.len() as u64, |c| { let (salt, path) = (payload(&mut c.rng, 16), any_path(&mut c.rng)); one(c, &salt, &path, sizes[c.idx as usize]) });
    let lens: Vec<usize> = (0..700).chain([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 1 << 20]).collect();
    run.enumerate("every path length", lens.len() as u64, |c| {
        let n = lens[c.idx as usize];
        let salt = payload(&mut c.rng, 16);
        let p: String = gen::b64n(&mut c.rng, n);
        one(c, &salt, &p, 32);
    });
    run.enumerate("strangers in the path", 3, |c| {
        let salt = payload(&mut c.rng, 16);
        for p in gen::injections(["signify:aid0a", "", "é 0"][c.idx as usize]) { one(c, &salt, &p, 32) }
    });
    run.enumerate("every byte of the salt", 16 * 256, |c| {
        let base = *c.rng.pick(&[0u8, 0, 0x30, 0xff]);
        let mut salt = vec![base; 16];
        salt[c.idx as usize / 256] = (c.idx % 256) as u8;
        let p = any_path(&mut c.rng);
        one(c, &salt, &p, 32);
    });
    // every start of a short run, and every length of a run
    let starts: Vec<usize> = (0..600).chain((10..60).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).chain([999, 1000, 1001, 9999, 10000, 99999, 100000]).collect();
    let counts: Vec<usize> = (0..70).chain([99, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    let run_of = |c: &mut Case, count: usize, start: usize| {
        let salt = payload(&mut c.rng, 16);
        let path = any_path(&mut c.rng);
        let path = if path.len() > 2000 { String::new() } else { path };
        let code = *c.rng.pick(SEEDS);
        let t = c.rng.bool();
        c.input(format!("salt={} path={path:?} code={code} transferable={t} count={count} start={start}", hex(&salt)));
        let Some(s) = salter(c, &salt, None) else { return };
        let o = c.call("Salter::signers", || s.signers(Some(count), Some(start), Some(&path), Some(code), Some(t), None, Some(true)));
        if let Some(v) = c.must("signers", code, o) {
            c.eq("signers", "count", &v.len(), &count);
            for (i, g) in v.into_iter().enumerate() {
                let w = ref_stretch(format!("{path}{:x}", start + i).as_bytes(), &salt, 32, "min").unwrap();
                judge_signer(c, "signers", Obs::Ok(g), code, &w, t);
            }
        }
    };
    run.enumerate("every start", starts.len() as u64, |c| { let n = c.rng.range(1, 3); run_of(c, n, starts[c.idx as usize]) });
    run.enumerate("every count", counts.len() as u64, |c| { let s = *c.rng.pick(&[0usize, 1, 3, 10, 250]); run_of(c, counts[c.idx as usize], s) });
    run.section("signers from cheap stretches", 900, |c| {
        let salt = payload(&mut c.rng, 16);
        let path = any_path(&mut c.rng);
        let t = c.rng.bool();
        let code = *c.rng.pick(SEEDS);
        let (count, start) = (c.rng.below(5), *c.rng.pick(&[0usize, 1, 7, 9, 10, 15, 16, 255, 4095]));
        c.input(format!("salt={} path={path:?} code={code} transferable={t} count={count} start={start}", hex(&salt)));
        let Some(s) = salter(c, &salt, None) else { return };
        let want = ref_stretch(path.as_bytes(), &salt, 32, "min").unwrap();
        let o = if c.rng.bool() {
            c.call("Salter::signer", || s.signer(Some(code), Some(t), Some(&path), Some("low"), Some(true)))
        } else {
            c.call("Salter::signer", || s.signer(Some(code), Some(t), Some(&path), Some("min"), None))
        };
        judge_signer(c, "signer", o, code, &want, t);
        let w = ref_stretch(b"", &salt, 32, "min").unwrap();
        let o = c.call("Salter::signer", || s.signer(None, None, None, None, Some(true)));
        judge_signer(c, "signer", o, "A", &w, true);
        let o = c.call("Salter::signers", || s.signers(Some(count), Some(start), Some(&path), Some(code), Some(t), None, Some(true)));
        if let Some(v) = c.must("signers", code, o) {
            c.eq("signers", "count", &v.len(), &count);
            for (i, g) in v.into_iter().enumerate() {
                let w = ref_stretch(format!("{path}{:x}", start + i).as_bytes(), &salt, 32, "min").unwrap();
                judge_signer(c, "signers", Obs::Ok(g), code, &w, t);
            }
        }
        // every argument given or left out on its own, the cheapest tier asked for in four ways, long runs
        let (gc, gs, gp, gk, gt) = (c.rng.bool(), c.rng.bool(), c.rng.bool(), c.rng.bool(), c.rng.bool());
        let count = if c.rng.chance(1, 30) { *c.rng.pick(&[17usize, 64, 65, 100, 256, 257]) } else { c.rng.below(4) };
        let start = match c.rng.below(4) { 0 => c.rng.below(5000), 1 => *c.rng.pick(&[254usize, 255, 256, 65534, 65535, 65536, u32::MAX as usize, u32::MAX as usize - 1, 1 << 32, (1 << 40) - 1]), 2 => c.rng.next() as usize >> 8, _ => c.rng.below(20) };
        let t = c.rng.bool();
        let how = c.rng.below(4);
        let (own, tier, temp) = [(Some("min"), None, None), (Some("high"), Some("min"), Some(false)), (Some("high"), Some("high"), Some(true)), (Some("min"), None, Some(false))][how];
        c.input(format!("salt={} path={path:?} code={code} transferable={t} count={count} start={start} given {gc} {gs} {gp} {gk} {gt} how {how}", hex(&salt)));
        let Some(s2) = salter(c, &salt, own) else { return };
        let o = c.call("Salter::signers", || s2.signers(gc.then_some(count), gs.then_some(start), gp.then_some(path.as_str()), gk.then_some(code), gt.then_some(t), tier, temp));
        if let Some(v) = c.must("signers", "arguments", o) {
            c.eq("signers", "count", &v.len(), &if gc { count } else { 1 });
            for (i, g) in v.into_iter().enumerate() {
                let w = ref_stretch(format!("{}{:x}", if gp { path.as_str() } else { "" }, if gs { start } else { 0 } + i).as_bytes(), &salt, 32, "min").unwrap();
                judge_signer(c, "signers", Obs::Ok(g), if gk { code } else { "A" }, &w, !gt || t);
            }
        }
        let o = c.call("Salter::signer", || s2.signer(gk.then_some(code), gt.then_some(t), gp.then_some(path.as_str()), tier, temp));
        let w = ref_stretch(if gp { path.as_bytes() } else { b"" }, &salt, 32, "min").unwrap();
        judge_signer(c, "signer", o, if gk { code } else { "A" }, &w, !gt || t);
        let o = c.call("Salter::signers", || s.signers(None, None, None, None, None, None, Some(true)));
        if let Some(v) = c.must("signers", "defaults", o) {
            let w = ref_stretch(b"0", &salt, 32, "min").unwrap();
            c.eq("signers", "count", &v.len(), &1);
            for g in v {
                judge_signer(c, "signers", Obs::Ok(g), "A", &w, true);
            }
        }
        let bad = MATTER[c.rng.below(MATTER.len())].code;
        if !SEEDS.contains(&bad) {
            let o = c.call("Salter::signer", || Ok(s.signer(Some(bad), None, Some(&path), None, Some(true))?.code()));
            c.refuse("bad-code-refused", bad, &o);
        }
    });
    // the real parameters; the expensive tiers on few threads because of their memory
    let tiers = [("low", 40u64, 4usize), ("med", 12, 3), ("high", 8, 2)];
    for (k, (tier, n, th)) in tiers.iter().enumerate() {
        let n = if run.tier == Tier::Thorough { n * 12 } else { *n };
        let name = ["tier low", "tier med", "tier high"][k];
        run.section_exact(name, n, *th, |c| {
            let salt = payload(&mut c.rng, 16);
            let path = any_path(&mut c.rng);
            let size = *c.rng.pick(if c.idx % 2 == 0 { &[33usize, 48, 64, 65, 128, 1000] } else { &[4usize, 16, 31, 32] });
            c.input(format!("salt={} path={path:?} tier={tier} size={size}", hex(&salt)));
            let want = ref_stretch(path.as_bytes(), &salt, size, tier).unwrap();
            match c.idx % 4 {
                0 => {
                    // the requested tier wins over the salt's own
                    let Some(s) = salter(c, &salt, Some(if *tier == "low" { "high" } else { "low" })) else { return };
                    let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(&path), Some(tier), Some(false)));
                    c.must_eq("tier-wins", tier, o, &want);
                }
                1 => {
                    let Some(s) = salter(c, &salt, Some(tier)) else { return };
                    let o = c.call("Salter::stretch", || s.stretch(Some(size), Some(&path), None, None));
                    c.must_eq("own-tier", tier, o, &want);
                }
                2 => {
                    let Some(s) = salter(c, &salt, if *tier == "low" { None } else { Some(tier) }) else { return };
                    let want = ref_stretch(path.as_bytes(), &salt, 32, tier).unwrap();
                    let o = c.call("Salter::signer", || s.signer(Some("A"), Some(false), Some(&path), None, None));
                    judge_signer(c, "signer", o, "A", &want, false);
                }
                _ => {
                    let Some(s) = salter(c, &salt, Some("med")) else { return };
                    let want = ref_stretch(format!("{path}a").as_bytes(), &salt, 32, tier).unwrap();
                    let o = c.call("Salter::signers", || s.signers(Some(1), Some(10), Some(&path), Some("Q"), Some(true), Some(tier), None));
                    if let Some(mut v) = c.must("signers", tier, o) {
                        c.eq("signers", "count", &v.len(), &1);
                        if let Some(g) = v.pop() {
                            judge_signer(c, "signers", Obs::Ok(g), "Q", &want, true);
                        }
                    }
                }
            }
        });
    }
}
fn judge_signer(c: &mut Case, rule: &'static str, o: Obs<Signer>, code: &str, want: &[u8], t: bool) {
    if !valid_seed(code, want) {
        return;
    }
    if let Some(g) = c.must(rule, code, o) {
        let v = g.verfer();
        c.eq(rule, code, &(g.code(), g.raw(), v.code(), v.raw()), &(code.to_string(), want.to_vec(), pub_code(code, t).to_string(), ref_pub(code, want)));
    }
}

// ------------------------------------------------------------------ C23
/// everything a creation depends on
struct Creation {
    salt: Vec<u8>,
    own: Option<String>,
    arg: Option<String>,
    pidx: Option<u16>,
    ridx: Option<u16>,
    kidx: Option<u16>,
    count: Option<u16>,
    codes: Option<Vec<&'static str>>,
    code: Option<&'static str>,
    t: Option<bool>,
    tier: Option<&'static str>,
    by_salter: bool,
    temp: bool,
}
fn any_stem(r: &mut Rng) -> String {
    match r.below(8) {
        0..=4 => r.pick(&["signify:aid", "red", "0", "a b", "é", "0123456789abcdefghijk"]).to_string(),
        5 => { let n = gen::size(r); gen::b64n(r, n) }
        // an empty stem is the same as none given
        _ => { let s = gen::text(r); if s.is_empty() { "x".into() } else { s } }
    }
}
fn creation(c: &mut Case, z: Creation) {
    let Creation { salt, own, arg, pidx, ridx, kidx, count, codes, code, t, tier, by_salter, temp } = z;
    let (own, arg) = (own.as_deref(), arg.as_deref());
    let q = qualify("0A", &salt);
    c.input(format!("salt={q} stem={own:?}/{arg:?} pidx={pidx:?} ridx={ridx:?} kidx={kidx:?} count={count:?} codes={codes:?} code={code:?} transferable={t:?} temp={temp} tier={tier:?} by_salter={by_salter}"));
    let o = c.call("SaltyCreator::new", || {
        if by_salter {
            SaltyCreator::new(None, own, None, Some(Salter::new_with_qb64(&q, tier)?))
        } else {
            SaltyCreator::new(Some(&q), own, tier, None)
        }
    });
    let Some(sc) = c.must("creator-made", "", o) else { return };
    let want: Vec<&str> = match &codes {
        Some(v) if !v.is_empty() => v.clone(),
        _ => vec![code.unwrap_or("A"); count.unwrap_or(1) as usize],
    };
    let stem = own.map(|s| s.to_string()).or(arg.map(|s| s.to_string())).unwrap_or(format!("{:x}", pidx.unwrap_or(0)));
    let mut seeds = vec![];
    for i in 0..want.len() {
        let path = format!("{stem}{:x}{:x}", ridx.unwrap_or(0), kidx.unwrap_or(0) as usize + i);
        seeds.push(ref_stretch(path.as_bytes(), &salt, 32, "min").unwrap());
    }
    if want.iter().zip(&seeds).any(|(c, s)| !valid_seed(c, s)) {
        return;
    }
    c.seen("shape", &format!("{}{}{:?}{}", own.is_some(), arg.is_some(), count, want.len()));
    for round in 0..2 {
        let rule = if round == 0 { "created" } else { "repeatable" };
        let o = c.val("SaltyCreator::create", || sc.create(codes.clone(), count, code, pidx, ridx, kidx, arg, t, temp));
        let Some(v) = c.must(rule, "", o) else { return };
        c.eq("count", "", &v.len(), &want.len());
        for (i, g) in v.into_iter().enumerate().take(want.len()) {
            judge_signer(c, rule, Obs::Ok(g), want[i], &seeds[i], t.unwrap_or(true));
        }
    }
}
pub fn c23(run: &Run) {
    run.require(&["creator-made", "created", "count", "repeatable", "tier", "fresh-salt", "refuses-bad-salt"]);
    run.section("cheap creations", 1200, |c| {
        let salt = payload(&mut c.rng, 16);
        let own = if c.rng.bool() { Some(any_stem(&mut c.rng)) } else { None };
        let arg = if c.rng.bool() { Some(any_stem(&mut c.rng)) } else { None };
        let num = |c: &mut Case| match c.rng.below(4) {
            0 => None,
            1 => Some(*c.rng.pick(&[0u16, 1, 9, 10, 15, 16, 17, 255, 256, 4095, 4096, 65535])),
            _ => Some(c.rng.below(40) as u16),
        };
        let (pidx, ridx, kidx) = (num(c), num(c), num(c));
        let count = *c.rng.pick(&[None, Some(0u16), Some(1), Some(2), Some(3), Some(5), Some(17)]);
        let count = if c.rng.chance(1, 60) { Some(*c.rng.pick(&[255u16, 256, 257, 300])) } else { count };
        let codes: Option<Vec<&str>> = match c.rng.below(4) {
            0 => Some((0..if c.rng.chance(1, 30) { c.rng.range(30, 280) } else { c.rng.range(1, 4) }).map(|_| *c.rng.pick(SEEDS)).collect()),
            1 => Some(vec![]),
            _ => None,
        };
        let code = *c.rng.pick(&[None, Some("A"), Some("J"), Some("Q")]);
        let t = *c.rng.pick(&[None, Some(true), Some(false)]);
        let (tier, by_salter, temp) = match c.rng.below(3) {
            0 => (None, false, true),
            1 => (None, true, true),
            _ => (Some("min"), c.rng.bool(), false),
        };
        creation(c, Creation { salt, own, arg, pidx, ridx, kidx, count, codes, code, t, tier, by_salter, temp });
    });
    // one number taking every small and every notable value, the others small
    let nums: Vec<u16> = (0..600).chain((10..16).flat_map(|k| [(1u16 << k) - 1, 1 << k, (1 << k) + 1])).chain([999, 1000, 1001, 9999, 10000, 65533, 65534, 65535]).collect();
    run.enumerate("every number in every place", (nums.len() * 3) as u64, |c| {
        let n = nums[c.idx as usize / 3];
        let mut v = [c.rng.below(20) as u16, c.rng.below(20) as u16, c.rng.below(20) as u16];
        v[c.idx as usize % 3] = n;
        let own = if c.idx % 3 != 0 && c.rng.chance(1, 3) { Some(any_stem(&mut c.rng)) } else { None };
        let code = *c.rng.pick(&[None, Some("A"), Some("J"), Some("Q")]);
        let count = Some(c.rng.range(1, 3) as u16);
        let salt = payload(&mut c.rng, 16);
        creation(c, Creation { salt, own, arg: None, pidx: Some(v[0]), ridx: Some(v[1]), kidx: Some(v[2]), count, codes: None, code, t: None, tier: None, by_salter: false, temp: true });
    });
    let counts: Vec<u16> = (0..70).chain([99, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    run.enumerate("every count", (counts.len() * 2) as u64, |c| {
        let n = counts[c.idx as usize / 2];
        let salt = payload(&mut c.rng, 16);
        let code = *c.rng.pick(&[None, Some("A"), Some("J"), Some("Q")]);
        let kidx = *c.rng.pick(&[None, Some(0u16), Some(5), Some(250), Some(65530)]);
        let (count, codes) = if c.idx % 2 == 0 { (Some(n), None) } else { (Some(c.rng.below(90) as u16), Some((0..n).map(|_| *c.rng.pick(SEEDS)).collect())) };
        creation(c, Creation { salt, own: None, arg: None, pidx: None, ridx: None, kidx, count, codes, code, t: Some(false), tier: None, by_salter: true, temp: true });
    });
    run.enumerate("strangers in the stem", 3, |c| {
        for (i, st) in gen::injections(["signify:aid", "", "é 0"][c.idx as usize]).into_iter().enumerate() {
            if st.is_empty() { continue }
            let salt = payload(&mut c.rng, 16);
            let (own, arg) = if i % 2 == 0 { (Some(st), None) } else { (None, Some(st)) };
            creation(c, Creation { salt, own, arg, pidx: Some(3), ridx: None, kidx: Some(4), count: None, codes: None, code: None, t: None, tier: None, by_salter: false, temp: true });
        }
    });
    run.section_exact("real tiers", if run.tier == Tier::Quick { 12 } else { 120 }, 2, |c| {
        let salt = c.rng.bytes(16);
        let q = qualify("0A", &salt);
        let tier = [None, Some("low"), Some("med"), None][(c.idx % 4) as usize];
        let by_salter = c.idx % 8 >= 4;
        let kidx = c.rng.below(20) as u16;
        c.input(format!("salt={q} tier={tier:?} by_salter={by_salter} kidx={kidx}"));
        let o = c.call("SaltyCreator::new", || {
            if by_salter {
                SaltyCreator::new(None, Some("st"), None, Some(Salter::new_with_qb64(&q, tier)?))
            } else {
                SaltyCreator::new(Some(&q), Some("st"), tier, None)
            }
        });
        let Some(sc) = c.must("creator-made", "", o) else { return };
        let o = c.val("SaltyCreator::create", || sc.create(None, None, None, None, None, Some(kidx), None, None, false));
        let want = ref_stretch(format!("st0{kidx:x}").as_bytes(), &salt, 32, tier.unwrap_or("low")).unwrap();
        if let Some(mut v) = c.must("tier", "", o) {
            if c.eq("count", "", &v.len(), &1) {
                judge_signer(c, "tier", Obs::Ok(v.pop().unwrap()), "A", &want, true);
            }
        }
    });
    let seen = Mutex::new(HashSet::new());
    run.section("creators without a salt", 200, |c| {
        c.input(format!("{}", c.idx));
        let o = c.call("SaltyCreator::new", || SaltyCreator::new(None, None, None, None));
        let Some(sc) = c.must("creator-made", "no salt", o) else { return };
        let o = c.val("SaltyCreator::create", || sc.create(None, Some(2), None, None, None, None, None, None, true));
        if let Some(v) = c.must("fresh-salt", "", o) {
            c.eq("count", "", &v.len(), &2);
            for g in v {
                let fresh = seen.lock().unwrap().insert(g.raw());
                c.check("fresh-salt", "", fresh, || "two keys coincide".into());
            }
        }
        let bad = *c.rng.pick(&["", "0A", "0AAwMTIzNDU2Nzg5YWJjZGV", "AMPsqBZxWdtYpBhrWnKYitwFa77s902Q-nX3sPTzqs0R", "é", "0AAwMTIzNDU2Nzg5YWJjZGV=", "junk"]);
        let o = c.call("SaltyCreator::new", || Ok(format!("{:?}", SaltyCreator::new(Some(bad), None, None, None)?)));
        c.refuse("refuses-bad-salt", "", &o);
    });
}

// ------------------------------------------------------------------ C24
/// the secrets of one process, one per line (run as a child process)
pub fn emit_secrets() {
    for i in 0..24 {
        for code in SEEDS {
            let s = Signer::new_with_defaults(None, Some(code)).unwrap();
            println!("{}", hex(&s.raw()));
        }
        println!("{}", hex(&Salter::new_with_defaults(None).unwrap().raw()));
        if i < 4 {
            for s in keride::signify::creating::monitor_randy(None, Some(3), None, None) {
                println!("{}", hex(&s.raw()));
            }
            for s in SaltyCreator::new(None, None, None, None).unwrap().create(None, Some(1), None, None, None, None, None, None, true) {
                println!("{}", hex(&s.raw()));
            }
        }
    }
}
/// the rank of the rows over two elements, a constant one added to each
fn bit_rank(rows: Vec<Vec<u8>>) -> usize {
    let mut rows: Vec<Vec<u8>> = rows.into_iter().map(|mut r| { r.push(1); r }).collect();
    let bits = rows[0].len() * 8;
    let mut rank = 0;
    for b in 0..bits {
        let Some(p) = (rank..rows.len()).find(|i| rows[*i][b / 8] >> (b % 8) & 1 == 1) else { continue };
        rows.swap(rank, p);
        let pivot = rows[rank].clone();
        for (i, r) in rows.iter_mut().enumerate() {
            if i != rank && r[b / 8] >> (b % 8) & 1 == 1 { for (x, y) in r.iter_mut().zip(&pivot) { *x ^= y } }
        }
        rank += 1;
    }
    rank
}
pub fn c24(run: &Run) {
    run.require(&["generated", "length", "unique", "valid-key", "halves-differ", "varying-bytes", "balanced-bits", "independent-bits", "unique-pieces", "unique-across-processes"]);
    let seen: Vec<Mutex<HashSet<Vec<u8>>>> = (0..16).map(|_| Mutex::new(HashSet::new())).collect();
    // per origin: for every byte position, a bitmap of values; for every bit, the number of ones
    struct Pop { n: u64, vals: Vec<[bool; 256]>, ones: Vec<u64> }
    let origins = ["signer A", "signer J", "signer Q", "salter", "randy", "salty"];
    let pops: Vec<Mutex<Pop>> = origins.iter().map(|o| {
        let w = if *o == "salter" { 16 } else { 32 };
        Mutex::new(Pop { n: 0, vals: vec![[false; 256]; w], ones: vec![0; w * 8] })
    }).collect();
    run.section("generations", 12000, |c| {
        let k = (c.idx % 6) as usize;
        let o = origins[k];
        c.input(format!("{o} {}", c.idx));
        let t = c.rng.bool();
        let route = c.rng.below(3);
        let n = if k == 4 && c.rng.chance(1, 20) { *c.rng.pick(&[0usize, 1, 2, 5, 16, 17, 50, 64, 65, 300]) } else { 3 };
        let mixed: Vec<&str> = (0..n).map(|_| *c.rng.pick(SEEDS)).collect();
        let made: Obs<Vec<(Vec<u8>, Option<Signer>)>> = match k {
            0..=2 => {
                let code = SEEDS[k];
                c.call("Signer::new(fresh)", || {
                    let s = if route == 0 { Signer::new(Some(t), Some(code), None, None, None, None)? } else if route == 1 && k == 0 { Signer::new(Some(t), None, None, None, None, None)? } else { Signer::new_with_defaults(Some(t), Some(code))? };
                    Ok(vec![(s.raw(), Some(s))])
                })
            }
            3 => c.call("Salter::new(fresh)", || {
                let s = if route == 0 { Salter::new(None, None, None, None, None, None)? } else if route == 1 { Salter::new(Some("high"), Some("0A"), None, None, None, None)? } else { Salter::new_with_defaults(None)? };
                Ok(vec![(s.raw(), None)])
            }),
            4 => {
                let code = SEEDS[c.rng.below(3)];
                c.val("RandyCreator::create", || keride::signify::creating::monitor_randy(if route == 0 && n > 0 { Some(mixed.clone()) } else { None }, if n == 1 { None } else { Some(n as u16) }, if n == 2 { None } else { Some(code) }, Some(t)).into_iter().map(|s| (s.raw(), Some(s))).collect())
            }
            _ => c.call("SaltyCreator::new(fresh)", || Ok(SaltyCreator::new(None, None, None, None)?.create(None, Some(1), None, None, None, None, None, Some(t), true).into_iter().map(|s| (s.raw(), Some(s))).collect())),
        };
        let Some(made) = c.must("generated", o, made) else { return };
        let want = if k == 4 { n } else { 1 };
        if k == 4 && route == 0 && n > 0 {
            let codes: Vec<String> = made.iter().filter_map(|(_, s)| s.as_ref().map(|s| s.code())).collect();
            c.eq("generated", "codes", &codes, &mixed.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        }
        c.eq("generated", o, &made.len(), &want);
        for (raw, s) in made {
            let w = if k == 3 { 16 } else { 32 };
            if !c.eq("length", o, &raw.len(), &w) { continue }
            let fresh = seen[raw[0] as usize % 16].lock().unwrap().insert(raw.clone());
            c.check("unique", o, fresh, || "the same secret was generated twice".into());
            c.check("halves-differ", o, raw[..w / 2] != raw[w / 2..] && raw[..w / 4] != raw[w / 4..w / 2] && raw[w - 8..] != [0; 8] && raw[..8] != [0; 8], || hex(&raw));
            if let Some(s) = s {
                let code = s.code();
                let ok = valid_seed(&code, &raw) && s.verfer().raw() == ref_pub(&code, &raw) && s.verfer().code() == pub_code(&code, t);
                c.check("valid-key", o, ok, || format!("{code} {} {:?}", hex(&raw), s.verfer()));
            }
            let mut p = pops[k].lock().unwrap();
            p.n += 1;
            for (i, b) in raw.iter().enumerate() {
                p.vals[i][*b as usize] = true;
                for j in 0..8 {
                    p.ones[i * 8 + j] += (b >> j & 1) as u64;
                }
            }
        }
    });
    run.enumerate("population", 6, |c| {
        let p = pops[c.idx as usize].lock().unwrap();
        let o = origins[c.idx as usize];
        c.input(format!("{o}: {} secrets", p.n));
        if p.n < 1000 {
            return;
        }
        for i in 0..p.vals.len() {
            let d = p.vals[i].iter().filter(|x| **x).count();
            c.check("varying-bytes", o, d > 200, || format!("byte {i} took only {d} values in {} secrets", p.n));
        }
        for (i, n) in p.ones.iter().enumerate() {
            // eight standard deviations
            let dev = (*n as f64 - p.n as f64 / 2.0).abs() / (p.n as f64 / 4.0).sqrt();
            c.check("balanced-bits", o, dev < 8.0, || format!("bit {i}: {n} ones in {}", p.n));
        }
    });
    // sums of bits that always come out the same: secrets alone, and four in a row
    run.enumerate("sums of bits", 6, |c| {
        let o = ["salter", "signer A", "signer J", "signer Q", "salters in a row", "seeds in a row"][c.idx as usize];
        let per = if c.idx < 4 { 1 } else { 4 };
        let idx = c.idx;
        let one = move || -> anyhow::Result<Vec<u8>> { Ok(if idx == 0 || idx == 4 { Salter::new_with_defaults(None)?.raw() } else { Signer::new_with_defaults(None, Some(match idx { 2 => "J", 3 => "Q", _ => "A" }))?.raw() }) };
        let width = per * if c.idx == 0 || c.idx == 4 { 16 } else { 32 };
        let rows = width * 8 + 1 + 80;
        let made = c.call("fresh rows", || {
            (0..rows).map(|_| { let mut v = vec![]; for _ in 0..per { v.extend(one()?) } Ok(v) }).collect::<anyhow::Result<Vec<Vec<u8>>>>()
        });
        let Some(made) = c.must("generated", o, made) else { return };
        c.input(format!("{o}: {rows} rows of {width} bytes"));
        let rank = bit_rank(made);
        // 80 rows to spare: by chance alone once in 2^80
        c.check("independent-bits", o, rank == width * 8 + 1, || format!("only {rank} of {} sums of bits are independent", width * 8 + 1));
    });
    // many more, remembered by eight-byte pieces: generators with little state repeat themselves
    let pieces: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    run.section_exact("many", if run.tier == Tier::Quick { 48 } else { 480 }, 8, |c| {
        c.input(format!("batch {}", c.idx));
        for (o, n) in [("salter", 8000), ("signer A", 5000), ("signer J", 1200), ("signer Q", 800)] {
            let made = c.call("fresh batch", || {
                (0..n).map(|_| Ok(if o == "salter" { Salter::new_with_defaults(None)?.raw() } else { Signer::new_with_defaults(None, Some(match o { "signer A" => "A", "signer J" => "J", _ => "Q" }))?.raw() })).collect::<anyhow::Result<Vec<_>>>()
            });
            let Some(made) = c.must("generated", o, made) else { return };
            let mut again = None;
            for raw in made {
                for q in raw.chunks_exact(8) {
                    let v = u64::from_le_bytes(q.try_into().unwrap());
                    if !pieces[(v % 64) as usize].lock().unwrap().insert(v) { again = Some(hex(&raw)); }
                }
            }
            c.check("unique-pieces", o, again.is_none(), || format!("eight bytes of {} were generated before", again.clone().unwrap()));
        }
    });
    run.section_exact("across processes", if run.tier == Tier::Quick { 6 } else { 60 }, 3, |c| {
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).arg("emit-secrets").output().expect("child");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        c.input(format!("process {}", c.idx));
        c.check("generated", "child process", text.lines().count() == 24 * 4 + 16, || format!("{} secrets, {}", text.lines().count(), out.status));
        for l in text.lines() {
            let raw: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
            let fresh = seen[raw[0] as usize % 16].lock().unwrap().insert(raw.clone());
            c.check("unique-across-processes", "", fresh, || "another process generated the same secret".into());
        }
    });
}
