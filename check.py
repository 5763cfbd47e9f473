#!/usr/bin/env python3
"""check.py ID: builds the simulator against /repo's working tree and searches for violations of one property.

Exit 0: none found. Exit 1 and a VIOLATION line: found, with a replay file. Exit 2: the check itself failed.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
WORKERS = 8
# Seconds of search: with interning, without.
QUICK = {"C13": (28, 10), "C22": (22, 10), "C02": (34, 0), "C06": (28, 12), "C07": (28, 12), "C08": (22, 10), "C23": (20, 8)}
QUICK_DEFAULT = (28, 10)
THOROUGH_FACTOR = 17

RULES = {
    "C01": "Programs of up to 8 threads make names by 27 routes (borrowed, owned, custom conversions, parsers, wrappers) from texts chosen to collide, hold, clone, drop, compare and re-read them; a few runs make thousands of distinct names.",
    "C02": "As C01, with interning; every pair of live interned names with equal text is compared by the address of its text, also names inside parsed values.",
    "C03": "Programs of C01/C05 in which conversions panic, allocations fail, and names are made during unwinding and thread exit; what fails is run again without faults, and only what then passes counts.",
    "C04": "Programs of C01 whose conversions call back into the library, stop for ever, panic or are preempted at every point; spurious wake-ups; deadlock, waiting for a stalled call, and operations that take too many steps of their own are violations.",
    "C05": "Documents for all parser entry points are parsed from reused buffers by up to 6 threads, amid other parses, failures, names, clock jumps; every result is compared with the one of a fresh process that parses only this text.",
    "C06": "Well-formed domain and problem documents are torn at cut points before their last parenthesis; the rest is lost, zeroed, blank, garbage, or replaced by a line break and other, balanced text (another document); every result is judged.",
    "C07": "Documents for all entry points are damaged by chains of 15 kinds of storage fault (flipped bits, lost, duplicated, swapped, misdirected, zeroed blocks, torn or spliced files, floods, changed numbers) and parsed; very long lists and deep nests of every construct too.",
    "C08": "The public combinators run with element parsers that fail for good, ask for more input, panic, fail softly, stall, re-enter, or run out of memory at their n-th call.",
    "C09": "The programs of the other families (each thread with slots of its own, faults included) are repeated 12 to 24 times in one process; live bytes and blocks after each round are compared.",
    "C13": "Well-formed texts for all entry points go through chains of 13 kinds of text-mode change (line ends, tabs, blanks, blank lines, trailing blanks, comments changed, added to, removed, put in) at all or some places; value and remainder are compared with those of the text as written.",
    "C22": "Well-formed texts for all entry points are followed by what an overwritten longer file, unwritten blocks or a next document leave behind them; value and remainder are compared with those of the text alone.",
    "C23": "Values of all entry points and names are printed in 5 ways by up to 6 threads into sinks that refuse, panic, print or make names themselves, or stop for ever at their n-th write.",
    "C10": "Parsed values are cloned, shared, compared, rebuilt and dropped in any order by up to 6 threads while the buffers they came from are overwritten; each is compared with a digest taken when it was parsed.",
}
# What a search that says anything must have done.
NEED = {
    "C01": ["names_created"], "C02": ["names_created", "storage_comparisons"], "C03": ["names_created", "callback_panics"],
    "C04": ["names_created"], "C05": ["parses_ok"], "C06": ["parses_ok"], "C09": ["memory_rounds", "parses_ok"],
    "C10": ["parses_ok", "cross_thread_reads"], "C13": ["text_mode_transfers"], "C22": ["stale_tails"], "C23": ["prints_into_sinks", "refusing_sinks"],
}
NONTRIVIAL = " A run is non-trivial if at least one preemption or injected fault took place in it; runs are distinct by the hash of their event log and schedule."
REAL = [
    "pddl (all of /repo/src, compiled from the working tree)", "nom, nom_locate, nom-greedyerror, lazy_static, thiserror",
    "the Rust standard library's mutexes, once cells, threads, thread-locals, panics, unwinding, collections",
]
STUB = [
    "thread scheduling (seeded scheduler, preemption at every control-flow edge of pddl, lazy_static and the workload)",
    "futex wait and wake, sched_yield, sleep", "clocks", "getrandom", "the heap (fixed addresses, counted, failing on demand)",
    "storage (documents are torn and damaged by the generator)", "the caller's types and element parsers (workload)",
]
ASSUME = [
    "One thread runs at a time, so effects of weak memory ordering are not simulated; the library has no atomics of its own.",
    "Preemption points are control-flow edges of the instrumented crates and blocking calls; the precompiled standard library runs between two of them without preemption.",
    "Texts come from generators: nesting of at most 60 and arithmetic nesting of at most 5 (see the known findings of C07).",
]


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(variants):
    for v in variants:
        # The code under test is always compiled again, whatever the file times say.
        for f in glob.glob(os.path.join(HERE, "target", v, "debug", ".fingerprint", "pddl-*")) + glob.glob(
            os.path.join(HERE, "target", v, "debug", ".fingerprint", "simdriver-*")
        ):
            shutil.rmtree(f, ignore_errors=True)
    procs = [(v, subprocess.Popen([os.path.join(SIM, "build.sh"), v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for v in variants]
    for v, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode != 0:
            sys.stdout.write(out)
            fail("the simulator does not build (%s)" % v)


def driver(v):
    return os.path.join(HERE, "target", v, "debug", "simdriver")


def merge(files):
    c = {"runs": 0, "switched_runs": 0, "reference_runs": 0, "references_lost": 0, "secs": 0.0}
    counters, ops, ends, samples, viols, harness = {}, {}, {}, [], [], []
    sets = {"seen": set(), "nontrivial": set(), "schedules": set(), "edges": set()}
    edges_total = 0
    for f in files:
        for line in open(f, encoding="utf-8", errors="replace"):
            k, _, r = line.rstrip("\n").partition(" ")
            if k in ("runs", "switched_runs", "reference_runs", "references_lost"):
                c[k] += int(r)
            elif k == "secs":
                c[k] = max(c[k], float(r))
            elif k == "edges_total":
                edges_total = int(r)
            elif k in ("counter", "op", "end"):
                n, x = r.rsplit(" ", 1)
                d = {"counter": counters, "op": ops, "end": ends}[k]
                d[n] = max(d.get(n, 0), int(x)) if n.startswith("max_") else d.get(n, 0) + int(x)
            elif k == "sample":
                samples.append(r)
            elif k == "violation":
                i, p, cl, msg = (r.split(" ", 3) + [""])[:4]
                viols.append((int(i), p, cl, msg))
            elif k == "harness":
                harness.append(r)
            elif k in sets:
                sets[k].update(r.split())
    return c, counters, ops, ends, samples, viols, harness, sets, edges_total


def known(prop):
    """Known findings of this property: (replay file, what fails)."""
    r = []
    for line in open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8"):
        m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line.rstrip("\n"))
        if m and m.group(1) == prop:
            r.append((os.path.join(HERE, m.group(2)), m.group(3)))
    return r


def main():
    if len(sys.argv) < 2:
        fail("usage: check.py ID | --build")
    prop = sys.argv[1]
    os.makedirs(os.path.join(HERE, "target"), exist_ok=True)
    lock = open(os.path.join(HERE, "target", "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if prop == "--build":
        build(["i", "n"])
        return 0
    if prop not in RULES:
        fail("unknown property " + prop)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & (2**63 - 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    secs = QUICK.get(prop, QUICK_DEFAULT)
    if tier == "thorough":
        secs = tuple(s * THOROUGH_FACTOR for s in secs)
    variants = [v for v, s in zip("in", secs) if s]
    build(variants)
    print("%s, %s, seed %d" % (prop, tier, seed), flush=True)

    for path, what in known(prop):
        p = subprocess.run([driver("i"), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = p.stdout.decode(errors="replace")
        m = re.search(r"^class (\S+) \(recorded (\S+)\)", out, re.M)
        if p.returncode == 1 and m and m.group(1) != m.group(2):
            sys.stdout.write(out)
            print("fails in another way than the known finding does (%s)" % what)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        if p.returncode == 1 and m:
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        elif p.returncode == 0:
            print("known finding no longer fails: %s" % what, flush=True)
        else:
            sys.stdout.write(out)
            fail("could not replay " + path)

    tmp = tempfile.mkdtemp(prefix="sim.", dir=os.path.join(HERE, "target"))
    cov_runs, viol = [], None
    try:
        for v, s in zip("in", secs):
            if not s:
                continue
            out = os.path.join(tmp, v)
            cmd = [driver(v), "explore", "--prop", prop, "--seed", str(seed), "--runs", str(10**9), "--workers", str(WORKERS), "--max-secs", str(s), "--out", out]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=s + 420)
            files = sorted(glob.glob(out + ".w*"))
            m = merge(files)
            cov_runs.append((v, m))
            # Of several found at the same time, the first by number.
            found = sorted(m[5])
            if found:
                i, path, cl, msg = found[0]
                os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
                dst = os.path.join(HERE, "out", "%s-%s-%d-%d.replay" % (prop, v, seed, i))
                shutil.copyfile(path, dst)
                viol = (v, i, dst, cl, msg)
                break
            if m[6]:
                for h in glob.glob(out + ".harness.*"):
                    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
                    shutil.copyfile(h, os.path.join(HERE, "out", prop + "-" + os.path.basename(h)))
                fail("the simulator met something it does not understand: " + m[6][0])
            if p.returncode != 0 or len(files) != WORKERS:
                sys.stdout.write(p.stdout.decode(errors="replace"))
                fail("the search ended early")
            if m[0]["runs"] == 0:
                fail("no run took place")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    runs = sum(m[0]["runs"] for _, m in cov_runs)
    secs_used = sum(m[0]["secs"] for _, m in cov_runs)
    counters, ops, samples = {}, {}, []
    sets = {"seen": 0, "nontrivial": 0, "schedules": 0}
    edges = {}
    for v, m in cov_runs:
        for k, n in m[1].items():
            counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
        for k, n in m[2].items():
            ops[k] = ops.get(k, 0) + n
        samples += [("interning: " if v == "i" else "no interning: ") + x for x in m[4]]
        for k in sets:
            sets[k] += len(m[7][k])
        edges["with_interning" if v == "i" else "without_interning"] = {"reached": len(m[7]["edges"]), "compiled_in": m[8]}
    work = ("operations", "names_created", "parses_ok", "parses_err", "reference_parses", "storage_comparisons", "memory_rounds",
            "cross_thread_reads", "calls_completed_while_another_is_stalled", "judgements_of_other_properties", "steps", "simulated_ms",
            "max_budget_permille", "blocking_switches", "futex_wakes", "contended_lock_waits", "clock_reads", "entropy_reads",
            "runs_ended_by_std_without_memory")
    faults = {k: n for k, n in counters.items() if k not in work and n}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sets["nontrivial"],
            "rule": RULES[prop] + NONTRIVIAL,
            "samples": samples[:6],
            "distinct_runs": sets["seen"],
            "runs_with_preemption": sum(m[0]["switched_runs"] for _, m in cov_runs),
            "distinct_schedules": sets["schedules"],
            "distinct_schedules_measure": "hash of the sequence of (thread, operation, step, next thread) of all switches",
            "code_edges": edges,
            "seeds": {"base": seed, "per_run": "mix(base, index); index 0.." + str(runs)},
            "runs_per_hour": round(runs / secs_used * 3600) if secs_used else 0,
            "reference_processes": sum(m[0]["reference_runs"] for _, m in cov_runs),
            "reference_processes_without_answer": sum(m[0]["references_lost"] for _, m in cov_runs),
            "simulated_seconds": counters.get("simulated_ms", 0) / 1000,
            "faults_injected": faults,
            "work": {k: counters[k] for k in work if counters.get(k) and k != "simulated_ms"},
            "operations_planned": ops,
            "components_real": REAL,
            "components_stub": STUB,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if viol:
        v, i, dst, cl, msg = viol
        print("run %d of seed %d (%s interning), %s: %s" % (i, seed, "with" if v == "i" else "without", cl, msg))
        r = subprocess.run([driver(v), "replay", dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        print("replayed in a new process: " + ("fails the same way" if r.returncode == 1 else "DOES NOT FAIL THE SAME WAY"))
        print("replay with: %s replay %s -v" % (driver(v), dst))
        print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
        return 1
    lost, refs = (sum(m[0][k] for _, m in cov_runs) for k in ("references_lost", "reference_runs"))
    missing = [k for k in NEED.get(prop, []) if not counters.get(k)]
    if missing or lost * 2 > refs:
        fail("nothing was decided: %d of %d texts gave no answer alone, none of: %s" % (lost, refs, ", ".join(missing)))
    print("held in %d runs (%d with preemptions), %d distinct non-trivial, in %.0f s" % (runs, ev["coverage"]["runs_with_preemption"], sets["nontrivial"], time.time() - t0))
    return 0


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException as e:
    print("ERROR: %s: %s" % (type(e).__name__, e), flush=True)
    sys.exit(2)
