mod fw;
mod gen;
mod lib_api;
mod model;
mod p_cesr;
mod p_crypto;
mod ops;
mod p_docs;
mod p_hist;
mod p_misc;
mod p_secret;
mod p_types;
mod spy;

#[global_allocator]
static ALLOC: spy::Spy = spy::Spy;

use fw::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Prop = (&'static str, (u64, u64), &'static str, fn(&Run));
/// id, scales of the quick and the thorough tier, rule of evidence, monitor
static PROPS: &[Prop] = &[
    ("C01", (8, 48), "cases are (code, payload) pairs over every code table entry, boundary and random lengths; distinct by code, length and leading payload bytes", p_cesr::c01),
    ("C02", (1, 60), "cases are text or binary inputs: canonical encodings with trailing material, mutations, truncations, enumerated short strings; distinct by the input itself", p_cesr::c02),
    ("C03", (12, 72), "cases are streams of up to 1200 random elements; distinct by the sequence of element heads", p_cesr::c03),
    ("C04", (5, 60), "cases are (code, index, other index, payload); distinct by those", p_cesr::c04),
    ("C05", (1, 60), "cases are text or binary inputs; distinct by the input itself", p_cesr::c05),
    ("C06", (1, 60), "cases are (code, count) pairs, texts, binaries and versions; distinct by the input itself", p_cesr::c06),
    ("C07", (1, 40), "cases are hostile operations of one kind (several calls and all accessors of what was accepted); distinct by arguments", p_misc::c07),
    ("C08", (3, 20), "cases are (seed, message) pairs with every genuine form verified and dozens of altered signatures, messages and keys tried, and hostile (key, signature, message) triples; distinct by seed and message", p_crypto::c08),
    ("C09", (4, 24), "cases are seeds with flags, and (curve, only, index, other index) tuples with a random seed; distinct by those", p_crypto::c09),
    ("C10", (12, 72), "cases are (digest code, content) pairs and pairs of digests over a content; distinct by those", p_crypto::c10),
    ("C11", (5, 60), "cases are documents with options; each is identified and altered a dozen ways; distinct by document and options", p_docs::c11),
    ("C12", (8, 60), "cases are version strings, documents to size and bytes to sniff; distinct by those", p_docs::c12),
    ("C13", (5, 60), "cases are messages read back, truncated, mis-declared, of the wrong kind, and streams of messages; distinct by the document", p_docs::c13),
    ("C14", (8, 60), "cases are (code, inception document) pairs, each altered; distinct by those", p_docs::c14),
    ("C15", (20, 120), "cases are (threshold, index list) pairs; distinct by those", p_types::c15),
    ("C16", (4, 60), "cases are thresholds in up to a dozen notations each, and malformed expressions; distinct by the expression", p_types::c16),
    ("C17", (8, 60), "cases are integers in every representation, refused texts and pairs for order; distinct by those", p_types::c17),
    ("C18", (15, 90), "cases are timestamps and texts of other lengths; distinct by the text", p_types::c18),
    ("C19", (15, 90), "cases are texts through seven construction routes; distinct by the text", p_types::c19),
    ("C20", (2, 60), "cases are component lists, (document, path) pairs and (root, path, other) triples; distinct by those", p_types::c20),
    ("C21", (1, 60), "cases are JSON documents, replacements and numbers; distinct by those", p_types::c21),
    ("C22", (1, 12), "cases are (salt, path, tiers, size) tuples; distinct by those", p_crypto::c22),
    ("C23", (2, 12), "cases are creator configurations with creation arguments; distinct by those", p_crypto::c23),
    ("C24", (4, 24), "cases are generations of one to three fresh secrets; every one is a distinct observation", p_crypto::c24),
    ("C25", (1, 6), "cases are histories of thousands of call traces replayed in other orders, processes and threads, and sets of shared objects; distinct by content", p_misc::c25),
    ("C26", (10, 60), "cases are (type, code, payload) triples through eight or more construction routes; distinct by those", p_cesr::c26),
    ("C27", (1, 30), "cases are secrets with a way of making the object, uses of it and a way of dropping it, and histories of such objects; distinct by the secret", p_secret::c27),
    ("C28", (15, 90), "cases are (event, signature groups, seal) combinations and receipts; distinct by those", p_docs::c28),
    ("C29", (1, 20), "cases are hostile operations, groups of threads making the same calls, and sets of objects shared or exchanged by threads, each watched by a sanitizer; distinct by arguments", p_misc::c29),
    ("C30", (6, 60), "cases are events and credentials with one malformed variant each; distinct by the document", p_docs::c30),
];
pub fn rule_of(pid: &str) -> &'static str {
    PROPS.iter().find(|p| p.0 == pid).map(|p| p.2).unwrap_or("")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let pid = args.get(1).cloned().unwrap_or_default();
    if pid == "emit-secrets" {
        return p_crypto::emit_secrets();
    }
    if pid == "interp" {
        install_panic_hook();
        return p_misc::interp(&args);
    }
    if pid == "corpus" {
        install_panic_hook();
        return p_misc::corpus(&args);
    }
    if pid == "related" {
        install_panic_hook();
        return p_hist::child(&args);
    }
    if pid == "purity" {
        install_panic_hook();
        return p_misc::purity_child(&args);
    }
    let Some(prop) = PROPS.iter().find(|p| p.0 == pid) else {
        eprintln!("usage: kmon <property> [quick|thorough|replay <section> <case>]");
        std::process::exit(2);
    };
    let mode = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if mode == "thorough" || (mode == "replay" && std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) { Tier::Thorough } else { Tier::Quick };
    let only = if mode == "replay" { Some((args[3].clone(), args[4].parse().unwrap())) } else { None };
    if std::env::var_os("KMON_CHILD").is_none() {
        std::process::exit(supervise(&args));
    }
    if let Ok(j) = std::env::var("KMON_JOURNAL") {
        map_journal(&j, false);
    }
    install_panic_hook();
    let budget = std::env::var("KMON_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 300 } else { 600 });
    let threads = std::env::var("KMON_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16));
    let run: &'static Run = Box::leak(Box::new(Run {
        pid: pid.clone(), tier, seed, only, stats: Mutex::new(Stats::default()), t0: Instant::now(),
        budget: Duration::from_secs(budget), threads, required: Mutex::new(vec![]), scale: std::env::var("KMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { prop.1.0 } else { prop.1.1 }),
    }));
    start_watchdog(run, 60);
    (prop.3)(run);
    let code = finish(run);
    std::process::exit(code);
}

/// Runs the monitor in a child so that an abort, a stack overflow or a crash is itself an observation.
fn supervise(args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let journal = format!("{}/evidence/.journal-{}-{}", verif_dir(), args[1], std::process::id());
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    map_journal(&journal, true);
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(&args[1..]).env("KMON_CHILD", "1").env("KMON_JOURNAL", &journal).status();
    let mut rc = 2;
    if let Ok(st) = st {
        if let Some(c) = st.code() {
            rc = c;
        } else {
            let sig = st.signal().unwrap_or(0);
            println!("the monitored process died of signal {sig}");
            if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig) {
                let inflight = journal_read();
                let mut culprit = None;
                if args.get(2).map(|s| s.as_str()) != Some("replay") {
                    for (s, i) in &inflight {
                        let r = std::process::Command::new(&exe).args([&args[1], "replay", s, &i.to_string()]).env("KMON_CHILD", "1").env("VERIF_TIER", args.get(2).map(|s| s.as_str()).unwrap_or("quick")).output();
                        if let Ok(o) = r {
                            if o.status.code().is_none() {
                                culprit = Some((s.clone(), *i));
                                break;
                            }
                        }
                    }
                }
                let path = format!("{}/evidence/replay-{}-crash.json", verif_dir(), args[1]);
                let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                let j = serde_json::json!({"property": args[1], "signature": format!("process death|signal {sig}"), "seed": seed,
                    "reproduced_alone_by": culprit, "in_flight": inflight});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                let ev = serde_json::json!({"property": args[1], "tier": args.get(2).cloned().unwrap_or("quick".into()), "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the monitored process died; the cases in flight are the evidence", "samples": [j]},
                    "wall_s": 0.0, "violations": 1});
                let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), args[1]), serde_json::to_string_pretty(&ev).unwrap());
                println!("VIOLATION property={} replay={path}", args[1]);
                rc = 1;
            }
        }
    }
    let _ = std::fs::remove_file(&journal);
    rc
}
