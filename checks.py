"""What each check builds, runs and requires to have observed (see DESIGN.md)."""
PROPS = ["C%02d" % i for i in range(1, 26)]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-g1", "-pthread", "-Wno-interference-size"]


def seq_units(defs, header_only=False):
    u = [("seq_tx.cc", ["-DGROUP=%d" % g] + defs) for g in range(8)] + [("seq_main.cc", defs)]
    if not header_only:
        u.append(("$REPO/src/Tecs.cc", defs))
    return u


def seq_bin(opt, std, defs, san=False, cxx="g++", header_only=False):
    return {"cxx": cxx, "flags": [opt, "-std=" + std] + BASE + (SAN if san else []),
            "units": seq_units(defs + ["-D_GLIBCXX_ASSERTIONS"], header_only), "libs": ["-lpthread"]}


B5 = ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=5"]
BINS = {
    # default mode of use: checked, C++20
    "seq_b5_san": seq_bin("-O1", "c++20", B5, san=True),
    "seq_b1000": seq_bin("-O1", "c++20", []),
    "seq_b1000_san": seq_bin("-O1", "c++20", [], san=True),
    "seq_b5": seq_bin("-O1", "c++20", B5),
    # other configurations
    "seq_unchecked17": seq_bin("-O2", "c++17", ["-DTECS_UNCHECKED_MODE"] + ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=7"]),
    "seq_small_ho": seq_bin("-O0", "c++20", ["-DTECS_HEADER_ONLY", "-DTECS_ENTITY_INDEX_TYPE=uint16_t",
                                             "-DTECS_ENTITY_GENERATION_TYPE=uint16_t", "-DTECS_ENTITY_ECS_IDENTIFIER_TYPE=uint8_t"],
                            header_only=True),
    "seq_trace": seq_bin("-O3", "c++20", ["-DTECS_ENABLE_PERFORMANCE_TRACING"] + ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=64"], cxx="clang++"),
    "seq_tracy": seq_bin("-O1", "c++17", ["-DTECS_ENABLE_TRACY", "-DTECS_TRACY_INCLUDE_LOCKS", "-DTECS_TRACY_INCLUDE_DETAILED_COMMIT",
                                          "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=3"]),
    "seq_unchecked_san": seq_bin("-O1", "c++17", ["-DTECS_UNCHECKED_MODE"] + B5, san=True),
}


# Concurrent harnesses. Scheduled builds are compiled with the thread sanitizer's instrumentation but linked with our own
# runtime (sched_rt.c), which makes every atomic operation of the library a scheduling point.
SI = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
HOOKS = ["-DTECS_VERIF_HOOKS", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4"]


def conc_bin(main, flags, rt, ldflags=None, defs=()):
    b = {"cxx": "g++", "flags": flags + BASE,
         "units": [(main, HOOKS + list(defs)), ("$REPO/src/Tecs.cc", HOOKS + list(defs)), ("sched.c", [])] +
         ([("sched_rt.c", [])] if rt else []), "libs": ["-lpthread", "-ldl"]}
    if ldflags is not None:
        b["ldflags"] = ldflags
    return b


BINS.update({
    "conc_sched": conc_bin("conc.cc", ["-O1", "-std=c++20"] + SI, True, []),
    "conc_sched17": conc_bin("conc.cc", ["-O1", "-std=c++17"] + SI, True, []),
    "conc_free": conc_bin("conc.cc", ["-O2", "-std=c++20"], False),
    "conc_free17": conc_bin("conc.cc", ["-O2", "-std=c++17", "-DTECS_SPINLOCK_RETRY_YIELD=1"], False),
    "conc_tsan": conc_bin("conc.cc", ["-O1", "-std=c++20", "-fsanitize=thread"], False),
    "conc_asan": conc_bin("conc.cc", ["-O1", "-std=c++20"] + SAN, False),
    "block": conc_bin("block.cc", ["-O1", "-std=c++20"] + SI, True, []),
    "block17": conc_bin("block.cc", ["-O1", "-std=c++17"] + SI, True, []),
    "multi_sched": conc_bin("multi.cc", ["-O1", "-std=c++20"] + SI, True, []),
    "multi_free": conc_bin("multi.cc", ["-O2", "-std=c++17"], False),
    "multi_tsan": conc_bin("multi.cc", ["-O1", "-std=c++20", "-fsanitize=thread"], False),
    "multi_asan": conc_bin("multi.cc", ["-O1", "-std=c++20"] + SAN, False),
})


def conc_sched_jobs(tier, seed, runs=1500, n=8, b="conc_sched"):
    k, n = (1, n) if tier == "quick" else (40, 4 * n)
    js = []
    for i in range(n):
        th = 3 + i % 3
        js.append({"bin": b, "args": ["--sched", "--seed=%d" % seed, "--first=%d" % (i * 1000000), "--runs=%d" % (runs * k * 8 // n),
                                      "--threads=%d" % th, "--txs=%d" % (3 + i % 4)], "timeout": 600, "hang_tags": "C09"})
    return js


def conc_free_jobs(tier, seed, secs=8, b="conc_free", n=2, threads=(4, 6)):
    k = 1 if tier == "quick" else 15
    return [{"bin": b, "args": ["--seed=%d" % (seed + 17 * i), "--runs=1000000", "--secs=%d" % (secs * k), "--txs=%d" % (40 if i % 2 else 120),
                                "--threads=%d" % threads[i % len(threads)], "--fixed=%d" % (3 + 5 * (i % 2)), "--delay-den=%d" % (20 if i % 2 else 200)],
             "timeout": 600, "hang_tags": "C09", "cores": 1} for i in range(n)]


def block_jobs(tier, seed, runs=3000, n=4, b="block", spin=False):
    k, n = (1, n) if tier == "quick" else (40, 4 * n)
    return [{"bin": b, "args": ["--seed=%d" % seed, "--first=%d" % (i * 1000000), "--runs=%d" % (runs * k * 4 // n)] + (["--spin"] if spin else []),
             "timeout": 600, "hang_tags": "C09"} for i in range(n)]


def multi_jobs(b, seed, runs, n, sched=False, delay=60):
    return [{"bin": b, "args": ["--seed=%d" % seed, "--first=%d" % (i * 1000000), "--runs=%d" % (runs // n), "--threads=%d" % (2 + i % 4),
                                "--steps=%d" % (60 if i % 2 else 150), "--delay-den=%d" % delay] + (["--sched"] if sched else []),
             "timeout": 600, "hang_tags": "C09"} for i in range(n)]


def batches(binname, seed, total, njobs, first=0, extra=(), group=None, timeout=300):
    """Splits `total` cases into jobs."""
    js = []
    per = max(1, total // njobs)
    for i in range(njobs):
        j = {"bin": binname, "args": ["--seed=%d" % seed, "--first=%d" % (first + i * per), "--cases=%d" % per] + list(extra),
             "timeout": timeout, "hang_tags": "*"}
        if group:
            j["digest_group"] = "%s-%d" % (group, i)
        js.append(j)
    return js


def seq_jobs(quick_san=2400, quick_plain=4800, deep=20):
    def f(tier, seed):
        k = 1 if tier == "quick" else deep
        n = 8 if tier == "quick" else 32
        return (batches("seq_b5_san", seed, quick_san * k, n) +
                batches("seq_b1000", seed + 1000, quick_plain * k, n, first=500000))
    return f


COMMON_ASSUME = [
    "programs are valid uses of the public API (no data race by the program itself, no use of a reference after the "
    "element it refers to went away, instance outlives its transactions)",
    "generation and instance-id counters stay within their range (documented limit)",
]


def seq_check(rule, keys, **kw):
    a, b = kw.pop("eval", "transactions"), kw.pop("distinct", "distinct")
    floors = dict(cases=500, transactions=3000, entity_checks=3000)
    floors.update(kw.pop("floors", {}))
    return {"jobs": kw.pop("jobs", seq_jobs()), "rule": rule, "assumptions": COMMON_ASSUME + kw.pop("assume", []),
            "counts": lambda s: (s.get(a, 0), s.get(b, 0)), "floors": floors}


GEN = ("generated transaction programs (two instances, two threads, 15 permission sets, derived/read-only/dynamic locks) run "
       "on the real library and on a reference model; ")
CHECKS = {
    "C03": seq_check(GEN + "evaluations = values compared with the model (own reads, previous values, read-only locks, probes "
                     "from a second thread while the transaction is open); distinct = different operation shapes", [],
                     eval="values_compared", floors={"probes": 300}),
    "C05": seq_check(GEN + "evaluations = full comparisons of the committed/working state; distinct = different operation shapes", [],
                     eval="full_checks", floors={"full_checks": 3000}),
    "C06": seq_check(GEN + "evaluations = handle checks (every handle ever returned); distinct = different operation shapes", [],
                     eval="entity_checks", floors={"entities_created": 5000}),
    "C07": seq_check(GEN + "evaluations = entity lists compared; distinct = different operation shapes", [],
                     eval="lists_checked", floors={"lists_checked": 20000}),
    "C08": seq_check(GEN + "evaluations = events received and matched one by one against the expected batch of their commit; distinct = "
                     "different operation shapes", [], eval="events_received", floors={"events_received": 10000, "observers": 500, "stopped_again": 10}),
    "C13": seq_check(GEN + "everything under AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions; evaluations = "
                     "operations executed; distinct = different operation shapes", [], eval="steps"),
    "C14": seq_check(GEN + "evaluations = invalid operations attempted, each followed by comparison with the model; distinct = "
                     "different operation shapes", [], eval="invalid_ops", floors={"invalid_ops": 2000}),
    "C16": seq_check(GEN + "evaluations = derivations attempted and checked against the permission sets", [],
                     eval="derivations", floors={"derivations": 2000}),
    "C17": seq_check(GEN + "evaluations = transactions whose locks were copied, derived and released in random order, with "
                     "probes in between", [], eval="transactions", floors={"probes": 300}),
    "C20": seq_check(GEN + "evaluations = global component comparisons", [], eval="global_checks", floors={"global_checks": 5000}),
    "C22": seq_check(GEN + "two instances at once; evaluations = transactions", [], eval="transactions"),
    "C24": seq_check(GEN + "evaluations = life-time sweeps over every value ever stored (weak references and instance counts)", [],
                     eval="lifetime_values", floors={"lifetime_sweeps": 500}),
}


def c21_jobs(tier, seed):
    k = 1 if tier == "quick" else 20
    n = 4 if tier == "quick" else 16
    js = []
    for b in ("seq_b5", "seq_unchecked17", "seq_small_ho", "seq_trace", "seq_tracy") + (("seq_b1000", "seq_unchecked_san") if tier != "quick" else ()):
        js += batches(b, seed + 77, 800 * k, n, extra=["--valid-only", "--big-every=400"], group="cfg")
    return js


CHECKS["C21"] = seq_check(GEN + "the same valid programs in builds that differ in mode (checked/unchecked), standard (C++17/20), batch "
                          "size, id widths, header-only, tracing, compiler and optimisation: every build is compared with the model and "
                          "the digests of all values, lists, handles and events are compared between builds; evaluations = transactions", [],
                          jobs=c21_jobs, eval="transactions", floors={"configurations_compared": 20, "profiler_reports": 10000})

CONC_RULE = ("concurrent transactions of 17 permission kinds on one instance, run under a token scheduler (PCT and random) in which every "
             "atomic operation and lock step is a scheduling point, and free-running on 4-6 threads with random delays; the recorded history "
             "(what each transaction saw, wrote, its begin/end, the events) is decided by an offline checker; ")
CONC_ASSUME = ["accesses go through the transactions' own locks; one transaction's lock is used by one thread at a time",
               "free-running schedules are those of this x86-64 host"]


def conc_check(rule, jobs, ev, dist, floors, assume=(), focus=True):
    return {"jobs": jobs, "rule": rule, "assumptions": CONC_ASSUME + list(assume), "counts": lambda s: (s.get(ev, 0), s.get(dist, 0)),
            "floors": floors, "focus": focus}


CF = dict(runs=2000, transactions=20000, distinct_schedules=1500, overlapping_pairs=20000)
CHECKS["C01"] = conc_check(CONC_RULE + "evaluations = values, lists and contents seen by transactions and matched against the commit history; "
                           "distinct = different schedules", lambda t, s: conc_sched_jobs(t, s) + conc_free_jobs(t, s),
                           "values_checked", "distinct_schedules", dict(CF, values_checked=50000, structure_commits=1000))
CHECKS["C02"] = conc_check(CONC_RULE + "evaluations = commits placed in the unbroken chain of their component; distinct = different schedules",
                           lambda t, s: conc_sched_jobs(t, s) + conc_free_jobs(t, s) + block_jobs(t, s, n=2),
                           "component_commits", "distinct_schedules", dict(CF, component_commits=10000, must_wait_start=2000))
CHECKS["C04"] = conc_check(CONC_RULE + "evaluations = edges (order of commits, reads, real time, per-thread order) of the graphs checked for "
                           "cycles; distinct = different schedules", lambda t, s: conc_sched_jobs(t, s) + conc_free_jobs(t, s, n=3),
                           "graph_edges", "distinct_schedules", dict(CF, graph_edges=50000))
CHECKS["C09"] = conc_check(CONC_RULE + "plus directed sequences of starts and ends with a wait-for monitor, with futex (C++20) and yielding (C++17) "
                           "waits; a state in which no thread can run, one that runs without progress, or one waiting for a free lock is a "
                           "violation; evaluations = transactions started and ended; distinct = different schedules and situations",
                           lambda t, s: conc_sched_jobs(t, s + 3, n=4) + conc_sched_jobs(t, s + 5, n=4, b="conc_sched17") +
                           block_jobs(t, s, n=4) + conc_free_jobs(t, s, secs=6, n=1) + conc_free_jobs(t, s, secs=6, b="conc_free17", n=1),
                           "transactions", "distinct_schedules", dict(CF, starts=10000))
BLOCK_RULE = ("random sequences of starts, writes, structure changes, lock copies/drops and ends of 17 permission kinds on 2-7 real threads steered "
              "step by step; after each step all that can run is run and a monitor compares who waits with who may and who must; ")
CHECKS["C10"] = conc_check(BLOCK_RULE + "evaluations = starts and ends that had to go through without waiting, plus waits whose reason was checked; "
                           "distinct = different situations (states of all threads and the step taken)",
                           lambda t, s: block_jobs(t, s, runs=4000, n=8) + block_jobs(t, s + 1, runs=250, b="block17", spin=True),
                           "steps", "distinct_situations", dict(runs=1000, must_not_wait_start=10000, must_not_wait_end=10000, distinct_situations=10000))
CHECKS["C11"] = conc_check(BLOCK_RULE + "evaluations = steps taken; distinct = different situations (states of all threads and the step taken)",
                           lambda t, s: block_jobs(t, s + 2, runs=4000, n=8) + block_jobs(t, s + 3, runs=250, b="block17", spin=True),
                           "steps", "distinct_situations", dict(runs=1000, must_wait_end=500, must_wait_commit=200, waits_end=1000, distinct_situations=10000))


def tsan_jobs(tier, seed):
    return (conc_free_jobs(tier, seed, secs=14, b="conc_tsan", n=4, threads=(3, 4, 6, 8)) +
            [dict(j, args=j["args"] + ["--runs=%d" % (1200 if tier == "quick" else 20000)]) for j in conc_sched_jobs("quick", seed, b="conc_tsan", n=4)])


CHECKS["C12"] = conc_check("the concurrent workload under ThreadSanitizer, free-running on 3-8 threads with random delays and under the token scheduler "
                           "(whose own synchronisation is invisible to the race detector); the workload itself shares nothing between threads "
                           "but the instance; evaluations = transactions run under the race detector; distinct = scheduled runs with different schedules",
                           tsan_jobs, "transactions", "distinct_schedules", dict(transactions=20000, distinct_schedules=1000, overlapping_pairs=20000, handles_asked=50000, observers_added=300))

MODEL = "runtime monitoring: model-based differential fuzzing of transaction programs on the real library"
TECHNIQUE = {p: MODEL for p in CHECKS}
TECHNIQUE["C13"] = "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions under generated programs"
TECHNIQUE["C08"] = "runtime monitoring: online event checker (exactly-once, ordered batches) against the committed-state model"
TECHNIQUE["C24"] = "runtime monitoring: object life-time monitor (weak references, live-instance counts), LeakSanitizer"
HIST = "runtime monitoring: recorded concurrent histories (token-scheduled with PCT, and free-running) decided by an offline history checker"
for p in ("C01", "C02", "C04"):
    TECHNIQUE[p] = HIST
TECHNIQUE["C09"] = "runtime monitoring: progress monitor (deadlock, livelock, missed wake-up) over PCT-scheduled and directed executions"
TECHNIQUE["C10"] = TECHNIQUE["C11"] = "runtime monitoring: online wait-for monitor over directed executions of real threads"
TECHNIQUE["C12"] = "sanitizers: ThreadSanitizer on free-running and token-scheduled concurrent transactions"
NOTE = {}

# ---- entity views, ids, nesting, permissions, traces -------------------------------------------------------------------
W32 = []
W16 = ["-DTECS_ENTITY_INDEX_TYPE=uint16_t", "-DTECS_ENTITY_GENERATION_TYPE=uint16_t", "-DTECS_ENTITY_ECS_IDENTIFIER_TYPE=uint8_t"]
W32E16 = ["-DTECS_ENTITY_INDEX_TYPE=uint32_t", "-DTECS_ENTITY_GENERATION_TYPE=uint32_t", "-DTECS_ENTITY_ECS_IDENTIFIER_TYPE=uint16_t"]


def simple_bin(main, flags, defs=(), san=False, cxx="g++", parts=0):
    defs = list(defs)
    us = [(main, defs + ["-DPART=%d" % i]) for i in range(parts)] if parts else [(main, defs)]
    return {"cxx": cxx, "flags": flags + BASE + (SAN if san else []), "units": us + [("$REPO/src/Tecs.cc", defs)], "libs": ["-lpthread"]}


GA = ["-D_GLIBCXX_ASSERTIONS"]
B8 = ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=8"]
BINS.update({
    "views": simple_bin("views.cc", ["-O1", "-std=c++20"], B5 + GA),
    "views_san": simple_bin("views.cc", ["-O1", "-std=c++17"], B5 + GA, san=True),
    "views_unchecked": simple_bin("views.cc", ["-O2", "-std=c++20"], B5 + ["-DTECS_UNCHECKED_MODE"]),
    "ids32": simple_bin("ids.cc", ["-O1", "-std=c++20"], B8 + W32, san=True),
    "ids16": simple_bin("ids.cc", ["-O1", "-std=c++17"], B8 + W16),
    "ids16_san": simple_bin("ids.cc", ["-O1", "-std=c++20"], B8 + W16, san=True),
    "ids32e16": simple_bin("ids.cc", ["-O1", "-std=c++20"], B8 + W32E16, cxx="clang++"),
    "nest": simple_bin("nest.cc", ["-O1", "-std=c++20"], GA, san=True),
    "nest5": simple_bin("nest.cc", ["-O1", "-std=c++17"], GA + ["-DTECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD=5"]),
    "nest_tsan": simple_bin("nest.cc", ["-O1", "-std=c++17", "-fsanitize=thread"]),
    "perm": simple_bin("perm.cc", ["-O0", "-std=c++20"], parts=4),
})
TR = ["-DTECS_VERIF_HOOKS", "-DTECS_ENABLE_PERFORMANCE_TRACING"]


def trace_bin(flags, defs=(), rt=False, ldflags=None):
    b = {"cxx": "g++", "flags": flags + BASE, "units": [("trace.cc", TR + list(defs)), ("$REPO/src/Tecs.cc", TR + list(defs)), ("sched.c", [])] +
         ([("sched_rt.c", [])] if rt else []), "libs": ["-lpthread", "-ldl"]}
    if ldflags is not None:
        b["ldflags"] = ldflags
    return b


BINS.update({
    "trace_free": trace_bin(["-O1", "-std=c++20"]),
    "trace_free17": trace_bin(["-O2", "-std=c++17"]),
    "trace_cap": trace_bin(["-O1", "-std=c++20"], ["-DTECS_PERFORMANCE_TRACING_MAX_EVENTS=60"]),
    "trace_sched": trace_bin(["-O1", "-std=c++20"] + SI, rt=True, ldflags=[]),
    "trace_tsan": trace_bin(["-O1", "-std=c++20", "-fsanitize=thread"]),
    "trace_san": trace_bin(["-O1", "-std=c++20"] + SAN),
})


def plain_check(rule, jobs, ev, dist, floors, assume=()):
    return {"jobs": jobs, "rule": rule, "assumptions": COMMON_ASSUME + list(assume), "counts": lambda s: (s.get(ev, 0), s.get(dist, 0)), "floors": floors}


def c18_jobs(tier, seed):
    k = 1 if tier == "quick" else 40
    n = 1 if tier == "quick" else 4
    return (batches("views", seed, 6000 * k, 3 * n) + batches("views_san", seed + 9, 3000 * k, 3 * n) + batches("views_unchecked", seed + 5, 4000 * k, 2 * n))


CHECKS["C18"] = plain_check("generated entity lists and windows (sub-views of sub-views, clamped and oversized counts, offsets near SIZE_MAX) compared element by "
                            "element, in every direction and by iterator arithmetic, with the slice of a plain vector; out-of-window accesses must throw in checked "
                            "mode; views kept over later additions; evaluations = views compared; distinct = different (list size, window) shapes",
                            c18_jobs, "views_compared", "distinct_shapes", dict(cases=5000, views_compared=20000, rejections=5000))


def c19_jobs(tier, seed):
    k = 1 if tier == "quick" else 30
    js = []
    for b in ("ids32", "ids16", "ids32e16"):
        js += batches(b, seed, 300 * k, 2 if tier == "quick" else 8)
    return js


CHECKS["C19"] = plain_check("ids built from chosen and random bit patterns and ids of really created entities, at three sets of id widths: round trip through integers, "
                            "recovery of the parts, truth value, equality against order (totality, antisymmetry, transitivity), hashes, maps and the text form; "
                            "evaluations = ids, pairs and triples checked; distinct = distinct ids",
                            c19_jobs, "pairs_checked", "distinct_ids", dict(ids_checked=10000, pairs_checked=50000, triples_checked=10000, entities_created=1000))


def c15_jobs(tier, seed):
    k = 1 if tier == "quick" else 30
    n = 4 if tier == "quick" else 16
    return (batches("nest", seed, 2400 * k, n) + batches("nest5", seed + 6, 1000 * k, n // 2) + batches("nest_tsan", seed + 3, 600 * k, n) +
            [{"bin": "nest", "args": ["--seed=%d" % seed, "--probe"], "timeout": 120}])


CHECKS["C15"] = plain_check("random sequences of starts (of every permission kind), copies and ends of transactions on up to 70 instances by 1-4 threads, with instances "
                            "destroyed and replaced: every start must be accepted or refused exactly as a counter per (thread, instance) says, a refusal must leave the "
                            "open transaction usable and its locks held, ids must increase per thread and be unique; evaluations = starts judged; distinct = ids seen",
                            c15_jobs, "accepted", "ids", dict(cases=500, accepted=10000, nested_refused=2000, limit_refused=20, instances_replaced=100),
                            ["a transaction's last lock is released on the thread that started it (the other case is the known finding)"])


def c23_jobs(tier, seed):
    k = 1 if tier == "quick" else 30
    n = 1 if tier == "quick" else 4
    js = []
    for b in ("trace_free", "trace_cap"):
        js += batches(b, seed, 900 * k, 2 * n, extra=["--seq"])
        js += batches(b, seed + 3, 600 * k, 1 * n)
    js += batches("trace_free17", seed + 4, 600 * k, 1 * n)
    js += batches("trace_san", seed + 6, 400 * k, 1 * n)
    js += batches("trace_sched", seed + 5, 1200 * k, 4 * n, extra=["--sched"])
    return js


CHECKS["C23"] = plain_check("traced periods of sequential, free-running and token-scheduled transactions with tracing compiled in (also with a small cap): the lists of "
                            "events are matched with what the workload did (threads, components, order per transaction, exclusion, release, cap, empty start) and the "
                            "saved table with the lists; evaluations = trace events checked; distinct = traces",
                            c23_jobs, "events_checked", "traces", dict(traces=2000, events_checked=50000, tables_checked=500, capped_lists=50, wait_events=20, concurrent_traces=300, external_tracer_checks=5000),
                            ["traces are stopped while no transaction is open"])
CHECKS["C12"]["jobs"] = (lambda f: lambda t, s: f(t, s) + batches("trace_tsan", s + 40, 400 if t == "quick" else 8000, 2) +
                         batches("trace_tsan", s + 41, 1500 if t == "quick" else 30000, 2, extra=["--sched"]))(CHECKS["C12"]["jobs"])
CHECKS["C12"]["rule"] += "; plus traced transactions (tracing compiled in), free-running and scheduled, under ThreadSanitizer"
CHECKS["C12"]["floors"].update(concurrent_traces=500)
TECHNIQUE["C18"] = "runtime monitoring: differential checker of views against slices on generated windows; AddressSanitizer/UBSan variant"
TECHNIQUE["C19"] = "runtime monitoring: algebraic law checker over generated and real ids at three id widths; AddressSanitizer/UBSan variant"
TECHNIQUE["C15"] = "runtime monitoring: online monitor of nesting counters and id ledger over generated thread programs; ThreadSanitizer/AddressSanitizer variants"
TECHNIQUE["C23"] = "runtime monitoring: offline checker of recorded traces against the workload's own event log"


# ---- properties with a sequential check that also have a concurrent side ---------------------------------------------
def also(pid, extra_jobs, rule="", floors=None):
    c = CHECKS[pid]
    f = c["jobs"]
    c["jobs"] = lambda t, s: f(t, s) + extra_jobs(t, s)
    c["rule"] += rule
    c["floors"] = dict(c["floors"], **(floors or {}))


also("C16", lambda t, s: [{"bin": "perm", "args": [], "timeout": 120}],
     "; plus every pair of 26 spellings of permissions: static and dynamic derivation, every operation of what is granted, and what is committed",
     dict(derivations_static=600, derivations_dynamic=500))
# The same with as many component types as fit into a machine word, and with one more or less. Compiled on its own: when everything
# else builds and this does not, the derivation of locks does not work at that number of components.
BIG = ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4"]
BINS["permbig"] = {"cxx": "clang++", "flags": ["-std=c++20", "-O0", "-g0", "-pthread"], "must_build_for": "C16",
                   "units": [("permbig.cc", BIG + ["-DBIGN=%d" % n, "-DPART=%d" % p]) for n in (63, 64) for p in (0, 1, 2, 3, 4, 10, 11, 12)] +
                   [("$REPO/src/Tecs.cc", BIG)], "libs": ["-lpthread"]}
also("C16", lambda t, s: [{"bin": "permbig", "args": [], "timeout": 120}],
     "; plus pairs of 10 permission sets in instances of 63 and 64 component types", dict(component_counts=2, distinct_pairs=200))
CONC_TOO = "; plus concurrent histories (token-scheduled and free-running) decided by the offline checker"
for p in ("C03", "C06", "C07", "C08", "C20"):
    also(p, lambda t, s: conc_sched_jobs(t, s + 11, n=4, runs=700) + conc_free_jobs(t, s, secs=5, n=1), CONC_TOO,
         dict(distinct_schedules=500, handles_asked=50000, observers_added=300))
also("C17", lambda t, s: block_jobs(t, s + 4, runs=1500, n=4), "; plus directed runs on real threads in which copies of locks are made and dropped "
     "while others wait", dict(must_wait_start=1000))
also("C13", lambda t, s: [dict(j) for j in conc_free_jobs(t, s, secs=8, b="conc_asan", n=2)] +
     [dict(j, args=j["args"] + ["--runs=400"]) for j in conc_sched_jobs("quick", s, b="conc_asan", n=2)],
     "; plus the concurrent workload under the same sanitizers", dict(runs=200))
# Reads of memory nobody wrote: the address sanitizer does not see those.
MEMCHECK = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20", "--fair-sched=yes"]


def memcheck_jobs(tier, seed):
    k = 1 if tier == "quick" else 20
    n = 6 if tier == "quick" else 24
    js = batches("seq_b5", seed + 60, 480 * k, n, first=700000, timeout=1200) + batches("views", seed, 80 * k, 1, timeout=1200)
    js += [{"bin": "conc_free", "args": ["--seed=%d" % seed, "--runs=1000000", "--secs=%d" % (12 * k), "--txs=40", "--threads=4", "--fixed=4", "--delay-den=2000",
                                         "--watchdog=200"], "timeout": 1200, "hang_tags": "C09"}]
    return [dict(j, wrap=MEMCHECK, args=j["args"] + (["--watchdog=200"] if j["bin"] != "conc_free" else [])) for j in js]


also("C13", memcheck_jobs, "; plus sequential, view and concurrent programs under valgrind memcheck (uninitialised memory)")
FULL = "; plus instances filled with as many entities as a 16-bit index can number, emptied and filled again"
also("C06", lambda t, s: [{"bin": "ids16", "args": ["--full", "--cases=1", "--seed=%d" % (s + i)], "timeout": 300} for i in range(1 if t == "quick" else 20)],
     FULL, dict(limits_reached=3))
also("C13", lambda t, s: [{"bin": "ids16_san", "args": ["--full", "--cases=1", "--seed=%d" % s], "timeout": 300}], FULL, dict(limits_reached=3))
also("C22", lambda t, s: batches("nest", s + 21, 600 if t == "quick" else 12000, 4), "; plus threads with transactions open on many instances at once, "
     "instances destroyed and replaced", dict(instances_replaced=50))


def c22_multi(tier, seed):
    k, n = (1, 2) if tier == "quick" else (30, 8)
    return (multi_jobs("multi_free", seed, 12000 * k, 2 * n) + multi_jobs("multi_sched", seed + 1, 8000 * k, 2 * n, True) +
            multi_jobs("multi_tsan", seed + 2, 2000 * k, n) + multi_jobs("multi_tsan", seed + 3, 1000 * k, n, True) +
            multi_jobs("multi_asan", seed + 4, 1500 * k, n))


also("C22", c22_multi, "; plus threads that each run random transactions on instances of their own (of two types sharing component types) and compare "
     "contents, lists, handles and events with an exact model, free-running, token-scheduled and under ThreadSanitizer/AddressSanitizer",
     dict(multi_ops=100000, two_instances_open=20000, foreign_handles_checked=2000, multi_schedules=2000, multi_events=5000))

# The sizes nothing else reaches (all above 16 bits, or in the hundreds where threads, instances or observers are counted).
BINS["scale"] = simple_bin("scale.cc", ["-O2", "-std=c++20"], ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=1"])
BINS["scale17"] = simple_bin("scale.cc", ["-O2", "-std=c++17"])
SCALE = "; plus large instances: 600 000 commits, more than 65 536 generations of one slot, entities, pending events and lock copies, hundreds of observers, threads and instances"
for p, parts, fl in (("C01", "readers", dict(scale_readers=500)), ("C02", "writers", dict(scale_writers=1000)), ("C04", "history,many", dict(scale_commits=1000000)),
                     ("C05", "history,many,long", dict(scale_contents=500000, scale_operations=500000)), ("C06", "history,many,long,instances", dict(scale_generations=20000, scale_old_handles=1000000)),
                     ("C07", "history,many,long", dict(scale_listed=1000000)), ("C08", "history,many,observers,instances", dict(scale_events=1000000, scale_observers=1000)),
                     ("C09", "writers", dict(scale_writers=1000)), ("C10", "readers", dict(scale_readers=500)), ("C11", "readers", dict(scale_readers=500)), ("C17", "copies", dict(scale_lock_copies=300000)),
                     ("C20", "history", dict(scale_commits=1000000)), ("C22", "instances", dict(scale_instances=300, scale_foreign=5000))):
    also(p, lambda t, s, parts=parts: [{"bin": b, "args": ["--part=" + parts, "--seed=%d" % (s + 70), "--times=%d" % (1 if t == "quick" else 40)], "timeout": 400 if t == "quick" else 3000,
                                        "hang_tags": "C10" if "readers" in parts else "C09"} for b in ("scale", "scale17")], SCALE, fl)

# Component types of all sorts.
BINS["shapes"] = {"cxx": "g++", "flags": ["-std=c++20", "-O0"] + BASE + SAN, "units": [("shapes.cc", B5 + ["-DPART=%d" % i]) for i in range(4)] +
                  [("$REPO/src/Tecs.cc", B5)], "libs": ["-lpthread"]}
for p in ("C05", "C13"):
    also(p, lambda t, s: batches("shapes", s + 80, 320 if t == "quick" else 16000, 2 if t == "quick" else 8),
         "; plus instances with 0-9 components of types of all sorts (none, empty, over-aligned, large, self-referential, library types, overloaded operators)",
         dict(shapes_cases=300, shapes_compared=200000))
