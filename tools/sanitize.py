#!/usr/bin/env python3
"""C29: builds the monitors under AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri against /repo's working tree,
runs the hostile and concurrent workloads and judges what the sanitizers report.
usage: sanitize.py quick|thorough|build | sanitize.py replay <replay file>"""
import json, os, re, signal, struct, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = os.environ.get("VERIF_SEED", "1")
MODE = sys.argv[1] if len(sys.argv) > 1 else "quick"
T0 = time.time()
BUILD_LIMIT = 1100 if MODE in ("thorough", "build") else 430
RUN = 1200 if MODE == "thorough" else 75
HARD = 4000 if MODE == "thorough" else 780
SLOT, SLOTS = 128, 64

def env(tool):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", VERIF_SEED=SEED,
             CARGO_TARGET_DIR=os.path.join(T, tool), KMON_VERIF=os.path.join(T, "san-" + tool), KMON_CHILD="1")
    flags = "--cfg keride_monitor"
    if tool == "asan": flags += " -Zsanitizer=address"
    if tool == "tsan": flags += " -Zsanitizer=thread"
    if tool == "msan":
        flags += " -Zsanitizer=memory"
        e["CARGO_FEATURE_PURE"] = "1"  # blake3 without its assembly, which no sanitizer sees write
        e["KMON_SOLO"] = "1"
    e["RUSTFLAGS"] = flags
    if tool == "miri":
        e["XDG_CACHE_HOME"] = os.path.join(T, "miri-cache")
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:allocator_may_return_null=1"
    os.makedirs(os.path.join(e["KMON_VERIF"], "evidence"), exist_ok=True)
    return e
def build_cmd(tool):
    subprocess.call([os.path.join(V, "tools", "fresh.sh"), os.path.join(T, tool)])
    c = ["cargo", "+nightly"]
    if tool == "miri":
        empty = os.path.join(T, "san-miri", "empty")
        os.makedirs(os.path.dirname(empty), exist_ok=True)
        open(empty, "w").close()
        return c + ["miri", "run", "--offline", "--", "interp", empty, "0", "1", "1", "1"]
    c += ["build", "--offline", "--target", TRIPLE]
    if tool in ("tsan", "msan"): c.append("-Zbuild-std")
    return c
def binary(tool):
    return os.path.join(T, tool, TRIPLE, "debug", "kmon")
def start(cmd, tool, out, extra=None, cwd=None):
    e = env(tool)
    e.update(extra or {})
    f = open(out, "wb")
    return subprocess.Popen(cmd, cwd=cwd or os.path.join(V, "harness"), env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
def end(p, t):
    try:
        return p.wait(max(1, t))
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
        return None
def text(path):
    return open(path, errors="replace").read() if os.path.exists(path) else ""
def journal(path):
    r = []
    b = open(path, "rb").read()
    for s in range(SLOTS):
        o = s * SLOT
        n = b[o + 8] if len(b) > o + 8 else 0
        if 0 < n <= SLOT - 16:
            r.append([b[o + 9:o + 9 + n].decode(errors="replace"), struct.unpack_from("<Q", b, o)[0]])
    return r
REPORT = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|error: (?:data race|deadlock|memory leaked)[^\n]*|unsafe precondition\(s\) violated: [^\n]*|panicked at [^\n]*unsafe precondition[^\n]*|has overflowed its stack|free\(\): [^\n]*|double free[^\n]*|malloc[_a-z]*\(\): [^\n]*|corrupted [^\n]*)")
def report(log):
    m = REPORT.search(log)
    if not m: return None
    # the first place in the library named after the report
    w = re.search(r"/repo/src/([\w/]+\.rs):(\d+)", log[m.start():])
    fr = re.search(r"(keride::[\w:<>]+)", log[m.start():])
    return m.group(1)[:160], (w.group(1) if w else fr.group(1) if fr else "?"), log[m.start():m.start() + 6000]

violations, notes, cov = [], {}, {}
def judge(tool, rc, log, inflight, how):
    """None: clean; a string: no answer; otherwise a violation was recorded"""
    r = report(log)
    if r:
        violations.append({"property": "C29", "tool": tool, "signature": f"{tool}|{re.sub('[0-9a-fx]{6,}', 'N', r[0])}|{r[1]}", "report": r[2], "in_flight": inflight, "seed": int(SEED), "how": how})
        return True
    if rc is None: return "stopped at its time limit"
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        if "FATAL: ThreadSanitizer" in log or "FATAL: MemorySanitizer" in log or "Sanitizer CHECK failed" in log or "Shadow memory range interleaves" in log or "failed to allocate" in log:
            return "the sanitizer itself failed: " + log[-300:]
        violations.append({"property": "C29", "tool": tool, "signature": f"{tool}|process death|signal {-rc}", "report": log[-4000:], "in_flight": inflight, "seed": int(SEED), "how": how})
        return True
    if rc == 1 and "VIOLATION property=C29" in log:
        violations.append({"property": "C29", "tool": tool, "signature": f"{tool}|wrong result under threads", "report": log[-4000:], "in_flight": inflight, "seed": int(SEED), "how": how})
        return True
    if rc != 0: return f"ended with {rc}: " + log[-300:]
    return None

def builds():
    ps = {t: start(build_cmd(t), t, os.path.join(T, f"san-{t}.log")) for t in ("asan", "tsan", "msan", "miri")}
    ok = []
    for t, p in ps.items():
        rc = end(p, BUILD_LIMIT - (time.time() - T0))
        if rc == 0: ok.append(t)
        else: notes[t + " build"] = f"no build ({rc}): " + text(os.path.join(T, f"san-{t}.log"))[-400:]
    return ok
def main():
    os.makedirs(T, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ok = builds()
    print("built:", " ".join(ok), f"{time.time() - T0:.0f} s")
    if MODE == "build":
        return 0
    run_s = int(max(20, min(RUN, HARD - (time.time() - T0) - 60)))
    jobs = []
    for t in ("asan", "tsan", "msan"):
        if t not in ok: continue
        j = os.path.join(T, f"san-{t}", "journal")
        with open(j, "wb") as f: f.truncate(SLOT * SLOTS)
        out = os.path.join(T, f"san-{t}", "out")
        p = start([binary(t), "C29", "thorough" if MODE == "thorough" else "quick"], t, out, {"KMON_JOURNAL": j, "KMON_THREADS": "3", "KMON_BUDGET_S": str(run_s)}, V)
        jobs.append((t, p, out, j))
    if "miri" in ok:
        n = 60000 if MODE == "thorough" else 3000
        c = subprocess.run([os.path.join(T, "debug", "kmon"), "corpus", SEED, str(n)], env=dict(os.environ, KMON_CHILD="1"), capture_output=True, text=True)
        lines = [l for l in c.stdout.splitlines() if len(l) < (600 if MODE == "thorough" else 260)]
        W = 4 if MODE == "thorough" else 3
        for w in range(W):
            f = os.path.join(T, "san-miri", f"corpus{w}")
            mine = lines[w::W][:4000]
            open(f, "w").write("\n".join(mine) + "\n")
            out = os.path.join(T, "san-miri", f"out{w}")
            flags = ["-Zmiri-disable-stacked-borrows", "", "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.05", "-Zmiri-tree-borrows"][w]
            p = start(["cargo", "+nightly", "miri", "run", "--offline", "--", "interp", f, "0", "1", str(run_s - 10), "2" if w == 2 else "1"], "miri", out, {"MIRIFLAGS": f"-Zmiri-disable-isolation -Zmiri-seed={SEED} {flags}"})
            jobs.append((f"miri{w}", p, out, f))
    evals = distinct = events = answered = 0
    samples = []
    for t, p, out, j in jobs:
        rc = end(p, HARD - (time.time() - T0) if MODE != "thorough" else RUN + 900)
        log = text(out)
        if t.startswith("miri"):
            at = re.findall(r"^at (\d+) (.*)$", log, re.M)
            done = re.findall(r"^done (\d+) (\w+) (\d+)", log, re.M)
            evals += len(done)
            distinct += len(set(a[1] for a in at[:len(done)]))
            events += sum(int(d[2]) for d in done)
            kinds = {}
            for d in done: kinds[d[1]] = kinds.get(d[1], 0) + 1
            cov[t] = {"lines interpreted": len(done), "by kind": kinds, "threads": 2 if t == "miri2" else 1}
            samples += [{"tool": t, "line": a[1]} for a in at[:2]]
            # a refused system call is the interpreter's limit, not a finding
            how = f"./run.sh C29 replay interp '{at[-1][1] if at else ''}'"
            r = judge(t, rc if done or rc != 1 else 2, log, [at[-1]] if at else [], how)
            if r is None or (r is not True and rc is None and done): answered += 1
            if isinstance(r, str): notes[t] = r
        else:
            inflight = journal(j)
            r = judge(t, rc, log, inflight, "./run.sh C29 replay <section> <case> (sections and cases in flight are listed)")
            if r is None: answered += 1
            if isinstance(r, str): notes[t] = r
            evp = os.path.join(T, f"san-{t}", "evidence", "C29.json")
            if r is None and os.path.exists(evp):
                e = json.load(open(evp))["coverage"]
                evals += e["evaluations"]; distinct += e["distinct_nontrivial"]; events += e["library_events"]
                cov[t] = {k: e[k] for k in ("evaluations", "judgements_by_rule", "library_events", "distinct_states_seen", "sections_run_of_planned")}
                samples += [dict(s, tool=t) for s in e["samples"][:3]]
                os.remove(evp)
            elif r is True:
                evals += 1; distinct += 1
                samples.append({"tool": t, "in_flight": inflight})
    seen = set()
    k = 0
    for v in violations:
        if v["signature"] in seen: continue
        seen.add(v["signature"])
        path = os.path.join(V, "evidence", f"replay-C29-{k}.json")
        json.dump(v, open(path, "w"), indent=1)
        print("  " + v["signature"])
        print("    " + "\n    ".join(v["report"].splitlines()[:14]))
        print(f"VIOLATION property=C29 replay={path}")
        k += 1
    ev = {"property": "C29", "tier": "thorough" if MODE == "thorough" else "quick", "seed": int(SEED), "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct,
                       "rule": "cases are hostile operations, groups of threads making the same calls, and sets of objects shared or exchanged by threads, run under AddressSanitizer, ThreadSanitizer and MemorySanitizer (all of std rebuilt for the last two), and single calls interpreted by Miri; distinct by arguments",
                       "samples": samples[:12], "library_events": events, "by_tool": cov, "tools_that_gave_an_answer": answered, "notes": notes},
          "assumptions": ["only the executions observed are judged", "dependency code is instrumented too, assembly in blake3 is not (MemorySanitizer watches its portable code instead)"],
          "wall_s": time.time() - T0, "violations": k}
    json.dump(ev, open(os.path.join(V, "evidence", "C29.json"), "w"), indent=1)
    print(f"C29 {MODE} seed={SEED} cases={evals} events={events} tools={answered}/{len(jobs)} violations={k} wall={time.time() - T0:.0f}s", json.dumps(notes) if notes else "")
    if k: return 1
    return 0 if answered else 2
def replay():
    section, case = sys.argv[2], sys.argv[3]
    ok = builds()
    bad = 0
    if section == "interp":
        f = os.path.join(T, "san-miri", "replay")
        open(f, "w").write(case + "\n")
        return subprocess.call(["cargo", "+nightly", "miri", "run", "--offline", "--", "interp", f, "0", "1", "300", "2"], cwd=os.path.join(V, "harness"), env=env("miri"))
    for t in ("asan", "tsan", "msan"):
        if t in ok:
            rc = subprocess.call([binary(t), "C29", "replay", section, case], cwd=V, env=env(t))
            bad |= rc != 0
    return int(bad)
sys.exit(replay() if MODE == "replay" else main())
