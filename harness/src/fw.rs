//! Monitoring framework: cases, probes, judgements, evidence.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    pub draws: u64,
    /// the one draw that comes out differently, and by how much (a neighbouring case)
    twist: Option<(u64, u64)>,
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)], draws: 0, twist: None }
    }
    /// the same stream but for one draw
    pub fn twisted(seed: u64, at: u64) -> Self {
        let mut x = seed ^ at;
        let by = splitmix(&mut x);
        Rng { twist: Some((at, if by & 3 == 0 { 1 << 11 | 1 } else { by })), ..Rng::new(seed) }
    }
    pub fn next(&mut self) -> u64 {
        let mut r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        if let Some((at, by)) = self.twist {
            if at == self.draws { r = r.wrapping_add(by) }
        }
        self.draws += 1;
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 11) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let a: String = s.chars().take(300).collect();
        format!("{a}…[{} bytes]", s.len())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- observations
#[derive(Debug, Clone)]
pub enum Obs<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Obs<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Obs::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Obs::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Obs::Err(_))
    }
    pub fn as_ref(&self) -> Option<&T> {
        match self {
            Obs::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Obs::Ok(_) => "Ok".into(),
            Obs::Err(e) => format!("Err({e})"),
            Obs::Panic(p) => format!("Panic({p})"),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("KMON_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = Some((msg, loc)));
    }));
}
/// Run something of the harness or library; Err(message @ location) on panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC.with(|c| c.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))),
    }
}

// ---------------------------------------------------------------- stats
#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub events: BTreeMap<(&'static str, &'static str), u64>,
    pub judged: BTreeMap<&'static str, u64>,
    pub seen: BTreeMap<&'static str, HashSet<u64>>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<J>,
    pub sections: BTreeMap<&'static str, (u64, u64)>,
    pub violations: BTreeMap<String, (u64, J)>,
    pub notes: BTreeMap<String, J>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.judged {
            *self.judged.entry(k).or_default() += v;
        }
        for (k, v) in o.seen {
            self.seen.entry(k).or_default().extend(v);
        }
        if self.distinct.len() < 20_000_000 {
            self.distinct.extend(o.distinct);
        }
        self.samples.extend(o.samples);
        for (k, (n, j)) in o.violations {
            let e = self.violations.entry(k).or_insert((0, j));
            e.0 += n;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub pid: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub stats: Mutex<Stats>,
    pub t0: Instant,
    pub budget: Duration,
    pub threads: usize,
    pub required: Mutex<Vec<&'static str>>,
    pub scale: u64,
}

const SLOTS: usize = 64;
const SLOT: usize = 128;
static JOURNAL: AtomicUsize = AtomicUsize::new(0);
struct Watch {
    clock: AtomicI64,
    start_ns: AtomicI64,
    active: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const W0: Watch =
    Watch { clock: AtomicI64::new(0), start_ns: AtomicI64::new(0), active: AtomicBool::new(false) };
static WATCH: [Watch; SLOTS] = [W0; SLOTS];

fn thread_clock() -> i64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c as i64
    }
}
fn clock_ns(c: i64) -> i64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c as libc::clockid_t, &mut t) != 0 {
            return -1;
        }
        t.tv_sec as i64 * 1_000_000_000 + t.tv_nsec as i64
    }
}
pub fn cpu_now() -> i64 {
    clock_ns(libc::CLOCK_THREAD_CPUTIME_ID as i64)
}
pub fn map_journal(path: &str, create: bool) {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let flags = if create { libc::O_RDWR | libc::O_CREAT } else { libc::O_RDWR };
        let fd = libc::open(p.as_ptr(), flags, 0o600);
        if fd < 0 {
            return;
        }
        libc::ftruncate(fd, (SLOTS * SLOT) as i64);
        let m = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        libc::close(fd);
        if m != libc::MAP_FAILED {
            JOURNAL.store(m as usize, Ordering::SeqCst);
        }
    }
}
fn journal_write(slot: usize, section: &str, idx: u64) {
    let base = JOURNAL.load(Ordering::Relaxed);
    if base == 0 || slot >= SLOTS {
        return;
    }
    unsafe {
        let p = (base + slot * SLOT) as *mut u8;
        let n = section.len().min(SLOT - 16);
        std::ptr::write_volatile(p as *mut u64, idx);
        std::ptr::write_volatile(p.add(8), n as u8);
        std::ptr::copy_nonoverlapping(section.as_ptr(), p.add(9), n);
    }
}
pub fn journal_read() -> Vec<(String, u64)> {
    let base = JOURNAL.load(Ordering::Relaxed);
    let mut v = vec![];
    if base == 0 {
        return v;
    }
    for s in 0..SLOTS {
        unsafe {
            let p = (base + s * SLOT) as *const u8;
            let n = *p.add(8) as usize;
            if n > 0 && n <= SLOT - 16 {
                let name = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(9), n)).to_string();
                v.push((name, *(p as *const u64)));
            }
        }
    }
    v
}

impl Run {
    /// the number of cases is multiplied by the scale of the tier
    pub fn section<F: Fn(&mut Case) + Sync>(&self, name: &'static str, n: u64, f: F) {
        let n = n.saturating_mul(self.scale);
        self.cases(name, n, self.threads, true, f)
    }
    /// exhaustive sections: the same number of cases in both tiers
    pub fn enumerate<F: Fn(&mut Case) + Sync>(&self, name: &'static str, n: u64, f: F) {
        self.cases(name, n, self.threads, true, f)
    }
    pub fn section_exact<F: Fn(&mut Case) + Sync>(&self, name: &'static str, n: u64, threads: usize, f: F) {
        self.cases(name, n, threads, false, f)
    }
    /// With `pairs`, a case is often followed in the same thread by a neighbour that differs from it in
    /// a single draw, so that whatever the library might remember of one call meets an almost equal one.
    /// A neighbour's number is the case's number plus the number of the draw (counted from 1) times 2^40.
    fn cases<F: Fn(&mut Case) + Sync>(&self, name: &'static str, n: u64, threads: usize, pairs: bool, f: F) {
        if let Some((s, i)) = &self.only {
            if s == name {
                let mut st = Stats::default();
                if *i >= PAIR {
                    self.one(name, *i % PAIR, 0, &mut st, &f);
                }
                self.one(name, *i, 0, &mut st, &f);
                self.stats.lock().unwrap().merge(st);
            }
            return;
        }
        let pairs = pairs && !["C25", "C29"].contains(&self.pid.as_str());
        let next = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 256);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, ran, f) = (&next, &ran, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        WATCH[t].clock.store(thread_clock(), Ordering::SeqCst);
                        loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n || self.t0.elapsed() > self.budget {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                let d = self.one(name, i, t, &mut st, f);
                                ran.fetch_add(1, Ordering::Relaxed);
                                if !pairs { continue }
                                let mut h = i ^ self.seed;
                                let x = splitmix(&mut h);
                                let k = match x % 8 {
                                    // the same case again
                                    0 => d,
                                    _ if d == 0 => continue,
                                    1 | 2 => (x >> 8) % d.min(6),
                                    3 | 4 => (x >> 8) % d.min(24),
                                    _ => (x >> 8) % d,
                                };
                                self.one(name, i + PAIR * (k + 1), t, &mut st, f);
                            }
                        }
                        WATCH[t].active.store(false, Ordering::SeqCst);
                        journal_write(t, "", 0);
                        self.stats.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        let mut st = self.stats.lock().unwrap();
        let e = st.sections.entry(name).or_default();
        e.0 += ran.load(Ordering::Relaxed);
        e.1 += n;
    }
    fn one<F: Fn(&mut Case)>(&self, name: &'static str, id: u64, slot: usize, st: &mut Stats, f: &F) -> u64 {
        let i = id % PAIR;
        let mut h = self.seed ^ 0x5bd1e995;
        let mut k = splitmix(&mut h) ^ fnv(self.pid.as_bytes());
        k = splitmix(&mut k) ^ fnv(name.as_bytes());
        k = splitmix(&mut k) ^ i;
        journal_write(slot, name, id);
        let w = &WATCH[slot];
        if self.only.is_some() {
            w.clock.store(thread_clock(), Ordering::SeqCst);
        }
        w.start_ns.store(clock_ns(w.clock.load(Ordering::Relaxed)), Ordering::Relaxed);
        w.active.store(true, Ordering::Relaxed);
        let mut c = Case {
            rng: if id >= PAIR { Rng::twisted(k, id / PAIR - 1) } else { Rng::new(k) },
            run: self,
            section: name,
            idx: i,
            id,
            input: String::new(),
            judged: 0,
            st,
        };
        let r = guarded(|| f(&mut c));
        if let Err((m, l)) = r {
            // a panic outside a probed call is an error of the harness, never a verdict
            let note = format!("{name}#{i}: {m} @ {l}");
            c.st.samples.push(json!({ "harness_panic": note }));
            self.stats.lock().unwrap().notes.insert("harness_panic".into(), json!(note));
        }
        if c.judged > 0 {
            let d = if c.input.is_empty() { format!("{i}") } else { c.input.clone() };
            c.st.distinct.insert(fnv(format!("{name}|{d}").as_bytes()));
            if id < 2 && c.st.samples.len() < 64 {
                let s = json!({"section": name, "case": i, "input": short(&c.input), "judgements": c.judged});
                c.st.samples.push(s);
            }
        }
        if c.run.only.is_some() {
            println!("case {name}#{id}: input={} judgements={}", c.input, c.judged);
        }
        c.st.cases += 1;
        let d = c.rng.draws;
        w.active.store(false, Ordering::Relaxed);
        d
    }
    pub fn require(&self, rules: &[&'static str]) {
        self.required.lock().unwrap().extend_from_slice(rules);
    }
    pub fn note(&self, k: &str, v: J) {
        self.stats.lock().unwrap().notes.insert(k.into(), v);
    }
}

/// neighbours of a case are numbered in steps of this
const PAIR: u64 = 1 << 40;
pub struct Case<'a> {
    pub rng: Rng,
    pub run: &'a Run,
    pub section: &'static str,
    pub idx: u64,
    pub id: u64,
    pub input: String,
    pub judged: u64,
    pub st: &'a mut Stats,
}

fn normalize(m: &str) -> String {
    // digits and quoted material vary with the input; keep the shape
    let mut out = String::new();
    let mut last_d = false;
    for ch in m.chars().take(160) {
        if ch.is_ascii_digit() {
            if !last_d {
                out.push('N');
            }
            last_d = true;
        } else {
            last_d = false;
            out.push(if ch == '\n' { ' ' } else { ch });
        }
    }
    if let Some(p) = out.find(['`', '"', '\'']) {
        out.truncate(p);
    }
    out
}

impl<'a> Case<'a> {
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    /// probe one library call
    pub fn call<T>(&mut self, api: &'static str, f: impl FnOnce() -> anyhow::Result<T>) -> Obs<T> {
        match guarded(f) {
            Ok(Ok(t)) => {
                *self.st.events.entry((api, "ok")).or_default() += 1;
                Obs::Ok(t)
            }
            Ok(Err(e)) => {
                *self.st.events.entry((api, "refused")).or_default() += 1;
                Obs::Err(short(&e.to_string()))
            }
            Err((m, l)) => {
                *self.st.events.entry((api, "panic")).or_default() += 1;
                let file = l.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or_default();
                let file = file.rsplit("/registry/src/").next().unwrap_or("").to_string();
                let sig = format!("panic|{api}|{file}|{}", normalize(&m));
                self.violation(sig, format!("{api} panicked: {m} at {l}"));
                Obs::Panic(format!("{m} @ {l}"))
            }
        }
    }
    pub fn val<T>(&mut self, api: &'static str, f: impl FnOnce() -> T) -> Obs<T> {
        self.call(api, || Ok(f()))
    }
    pub fn violation(&mut self, sig: String, detail: String) {
        let input = self.input.clone();
        let (pid, seed) = (self.run.pid.clone(), self.run.seed);
        let (sec, idx) = (self.section, self.id);
        let e = self.st.violations.entry(sig.clone()).or_insert_with(|| {
            (0, json!({"property": pid, "signature": sig, "section": sec, "case": idx, "seed": seed,
                       "input": short(&input), "detail": short(&detail)}))
        });
        e.0 += 1;
    }
    pub fn judge(&mut self, rule: &'static str) {
        self.judged += 1;
        *self.st.judged.entry(rule).or_default() += 1;
    }
    /// distinct things the monitor saw (states, combinations)
    pub fn seen(&mut self, kind: &'static str, what: &str) {
        self.st.seen.entry(kind).or_default().insert(fnv(what.as_bytes()));
    }
    pub fn check(&mut self, rule: &'static str, key: &str, cond: bool, detail: impl FnOnce() -> String) -> bool {
        self.judge(rule);
        if !cond {
            let d = detail();
            self.violation(format!("{rule}|{key}"), d);
        }
        cond
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, rule: &'static str, key: &str, got: &T, want: &T) -> bool {
        self.check(rule, key, got == want, || format!("observed {got:?}, expected {want:?}"))
    }
    /// the call must have produced a value
    pub fn must<T>(&mut self, rule: &'static str, key: &str, o: Obs<T>) -> Option<T> {
        self.judge(rule);
        match o {
            Obs::Ok(t) => Some(t),
            Obs::Err(e) => {
                self.violation(format!("{rule}|{key}|refused"), format!("refused: {e}"));
                None
            }
            Obs::Panic(_) => None, // already recorded by the probe
        }
    }
    /// the call must have been refused
    pub fn refuse<T: std::fmt::Debug>(&mut self, rule: &'static str, key: &str, o: &Obs<T>) -> bool {
        self.judge(rule);
        match o {
            Obs::Err(_) => true,
            Obs::Ok(v) => {
                let d = format!("accepted: {v:?}");
                self.violation(format!("{rule}|{key}|accepted"), d);
                false
            }
            Obs::Panic(_) => false,
        }
    }
    pub fn must_eq<T: PartialEq + std::fmt::Debug>(&mut self, rule: &'static str, key: &str, o: Obs<T>, want: &T) -> bool {
        match self.must(rule, key, o) {
            Some(t) => self.eq(rule, key, &t, want),
            None => false,
        }
    }
}

// ---------------------------------------------------------------- watchdog
pub fn start_watchdog(run: &'static Run, cpu_limit_s: i64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for w in WATCH.iter() {
            if !w.active.load(Ordering::Relaxed) {
                continue;
            }
            let s0 = w.start_ns.load(Ordering::Relaxed);
            let now = clock_ns(w.clock.load(Ordering::Relaxed));
            if now > 0 && now - s0 > cpu_limit_s * 1_000_000_000
                && w.active.load(Ordering::Relaxed)
                && w.start_ns.load(Ordering::Relaxed) == s0
            {
                let inflight: Vec<String> =
                    journal_read().iter().map(|(s, i)| format!("{s}#{i}")).collect();
                let mut st = run.stats.lock().unwrap();
                st.violations.insert(
                    "nontermination".into(),
                    (1, json!({"property": run.pid, "signature": "nontermination", "seed": run.seed,
                      "detail": format!("a case used more than {cpu_limit_s} s of CPU time"),
                      "in_flight": inflight})),
                );
                drop(st);
                let code = finish(run);
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(code) };
            }
        }
    });
}

// ---------------------------------------------------------------- finish
pub fn verif_dir() -> String {
    std::env::var("KMON_VERIF").unwrap_or_else(|_| "/verif".into())
}
fn known_signatures(pid: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in t.lines() {
            // known: property=<id> signature=<sig> :: <what fails>
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((p, rest)) = r.split_once(" signature=") {
                    let (sig, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    if p == pid {
                        v.push((sig.to_string(), what.to_string()));
                    }
                }
            }
        }
    }
    v
}
pub fn finish(run: &Run) -> i32 {
    let st = run.stats.lock().unwrap();
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let tier = if run.tier == Tier::Quick { "quick" } else { "thorough" };
    let known = known_signatures(&run.pid);
    let mut code = 0;
    let mut nviol = 0;
    let replaying = run.only.is_some();
    for (i, (sig, (n, j))) in st.violations.iter().enumerate() {
        if let Some((_, what)) = known.iter().find(|k| &k.0 == sig) {
            println!("KNOWN-FINDING: property={} {}", run.pid, what);
            continue;
        }
        nviol += 1;
        code = 1;
        if nviol > 12 {
            continue;
        }
        let path = format!("{dir}/replay-{}-{i}.json", run.pid);
        let mut j = j.clone();
        j["occurrences"] = json!(n);
        j["tier"] = json!(tier);
        j["how"] = json!(format!("VERIF_SEED={} ./run.sh {} replay <section> <case>", run.seed, run.pid));
        if !replaying {
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        }
        println!("  {} x{n}: {}", sig, short(j["detail"].as_str().unwrap_or("")));
        println!("    at {}#{} input={}", j["section"].as_str().unwrap_or(""), j["case"], j["input"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={path}", run.pid);
    }
    if replaying {
        return code;
    }
    let mut inconclusive: Vec<String> = vec![];
    for r in run.required.lock().unwrap().iter() {
        if st.judged.get(r).copied().unwrap_or(0) == 0 {
            inconclusive.push(format!("no judgement of rule '{r}' was made"));
        }
    }
    if let Some(h) = st.notes.get("harness_panic") {
        inconclusive.push(format!("harness panic: {h}"));
    }
    let events: BTreeMap<String, u64> =
        st.events.iter().map(|((a, o), n)| (format!("{a}:{o}"), *n)).collect();
    let judged: u64 = st.judged.values().sum();
    let seen: BTreeMap<&str, usize> = st.seen.iter().map(|(k, v)| (*k, v.len())).collect();
    let mut samples = st.samples.clone();
    samples.truncate(24);
    let rule = crate::rule_of(&run.pid);
    let ev = json!({
        "property": run.pid, "tier": tier, "seed": run.seed, "level": "exploration",
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": st.distinct.len(),
            "rule": rule,
            "samples": samples,
            "judgements": judged,
            "judgements_by_rule": st.judged.iter().map(|(k,v)|(k.to_string(),*v)).collect::<BTreeMap<_,_>>(),
            "library_events": events.values().sum::<u64>(),
            "library_events_by_api_and_outcome": events,
            "distinct_states_seen": seen,
            "sections_run_of_planned": st.sections.iter().map(|(k,v)|(k.to_string(),json!([v.0,v.1]))).collect::<BTreeMap<_,_>>(),
            "notes": st.notes,
            "inconclusive": inconclusive,
        },
        "assumptions": ["the harness's reference models and the dependency crates used as oracles are right",
            "only what the workload exercised is judged: no claim beyond the executions observed"],
        "wall_s": run.t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let _ = std::fs::write(
        format!("{dir}/{}.json", run.pid),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
    println!(
        "{} {tier} seed={} cases={} distinct={} judgements={} events={} violations={} wall={:.1}s",
        run.pid, run.seed, st.cases, st.distinct.len(), judged, events.values().sum::<u64>(), nviol,
        run.t0.elapsed().as_secs_f64()
    );
    if code == 0 && !inconclusive.is_empty() {
        for i in &inconclusive {
            println!("INCONCLUSIVE: {i}");
        }
        code = 2;
    }
    code
}
