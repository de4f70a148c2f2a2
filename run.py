#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <ID> [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
  run.py replay <file>                                   re-run the job that reported a violation
  run.py setup                                           verify the tools and parse the configuration

Exit 0: held on everything observed; 1: violation (VIOLATION line); 2: no answer (build failure, too little observed).
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TECS_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
NCPU = os.cpu_count() or 4

sys.path.insert(0, VERIF)
from checks import BINS, CHECKS, PROPS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---- building --------------------------------------------------------------------------------------------------------
def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "inc"), os.path.join(REPO, "src"), HARN):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def sh(cmd, timeout=900):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


class BuildError(Exception):
    pass


def build(names):
    """Builds the named binaries from /repo's working tree; returns {name: path}."""
    th = tree_hash()
    root = os.path.join(BUILD, th)
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        # old trees' output is useless; keep the disk small
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != th and os.path.isdir(p) and len(d) == 16 and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        objs, links, bins = {}, [], {}
        for n in names:
            b = BINS[n]
            exe = os.path.join(root, n)
            bins[n] = exe
            if os.path.exists(exe):
                continue
            cxx, flags = b.get("cxx", "g++"), b["flags"]
            ol = []
            units = [(s, d) for s, d in b["units"]]
            for src, defs in units:
                cmdflags = [] if src.endswith(".c") else flags + defs
                comp = "gcc" if src.endswith(".c") else cxx
                if src.endswith(".c"):
                    cmdflags = ["-O2", "-g1", "-w"] + defs
                path = src.replace("$REPO", REPO)
                if not path.startswith("/"):
                    path = os.path.join(HARN, path)
                key = hashlib.sha256(json.dumps([comp, cmdflags, src]).encode()).hexdigest()[:16]
                o = os.path.join(root, key + ".o")
                ol.append(o)
                if not os.path.exists(o):
                    inc = [] if src.endswith(".c") else ["-I" + os.path.join(REPO, "inc"), "-I" + HARN]
                    objs[o] = [comp] + cmdflags + inc + ["-c", path, "-o", o + ".tmp"]
            links.append([cxx] + b.get("ldflags", flags) + ol + b.get("libs", ["-lpthread"]) + ["-o", exe + ".tmp"])
        def comp1(item):
            o, cmd = item
            r = sh(cmd)
            if r.returncode:
                return (cmd, r.stdout)
            os.rename(o + ".tmp", o)
            return None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            # the heaviest units first
            order = sorted(objs.items(), key=lambda kv: -weight(kv[1]))
            for err in ex.map(comp1, order):
                if err:
                    raise BuildError(" ".join(err[0]) + "\n" + err[1][:2500])
        for cmd in links:
            r = sh(cmd)
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout[:2500])
            os.rename(cmd[-1], cmd[-1][:-4])
        return bins
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def weight(cmd):
    s = " ".join(cmd)
    w = 1
    if "seq_tx" in s: w = 5
    if "GROUP=5" in s or "GROUP=7" in s or "seq_main" in s or "conc" in s: w = 8
    if "sanitize" in s: w *= 2
    return w


# ---- running ---------------------------------------------------------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=23",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer: [^\n]*|runtime error: [^\n]*|"
                    r"WARNING: ThreadSanitizer: [^\n]*|Assertion '[^\n]*|terminate called[^\n]*|"
                    r"==\d+== (?:Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Mismatched free|Syscall param|Source and destination)[^\n]*|"
                    r"ThreadSanitizer: CHECK failed[^\n]*|FATAL: [^\n]*)")


def run_once(job, bins):
    cmd = job.get("wrap", []) + [bins[job["bin"]]] + job["args"]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(job.get("env", {}))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True,
                         errors="replace", start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    try:
        out, err = p.communicate(timeout=job.get("timeout", 400))
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        to = True
    return {"cmd": cmd, "rc": p.returncode, "out": out, "err": err, "timeout": to, "wall": time.time() - t0}


def san_reports(err):
    """Splits a sanitizer log into reports: (kind, text)."""
    reps = []
    if "ThreadSanitizer" in err:
        for blk in err.split("=================="):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", blk)
            if m:
                reps.append(("tsan " + m.group(1).strip(), blk.strip()))
            elif "FATAL: ThreadSanitizer" in blk:
                reps.append(("tsan-fatal", blk.strip()))
    else:
        m = SAN_RE.search(err)
        if m:
            reps.append((re.sub(r"^==\d+== ", "memcheck: ", m.group(1))[:120], err[m.start():m.start() + 6000]))
    return reps


def stack_sig(text):
    """A stable signature: innermost library frames, without line numbers."""
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]+)", text)
    names = []
    for f in fr:
        m = re.search(r"/inc/(Tecs[\w.]*)", f)
        if m:
            fn = re.sub(r"<.*", "", f.split("(")[0]).strip()
            names.append(fn.split("::")[-1] + "@" + m.group(1))
        if len(names) >= 3:
            break
    return "|".join(names)


def run_job(job, bins):
    """Runs a job (re-running hangs) and returns its observations."""
    res = {"job": job, "violations": [], "stats": {}, "samples": [], "digests": [], "inconclusive": [], "runs": 0}
    for attempt in range(3):
        r = run_once(job, bins)
        res["runs"] += 1
        done = False
        viol, hang = [], None
        for line in r["out"].splitlines():
            if not line.startswith("{"):
                continue
            try:
                j = json.loads(line)
            except ValueError:
                continue
            t = j.get("t")
            if t == "violation":
                viol.append(j)
            elif t == "stats":
                for k, v in j.items():
                    if isinstance(v, int):
                        res["stats"][k] = res["stats"].get(k, 0) + v
            elif t == "sample":
                res["samples"].append(j["s"])
            elif t == "digest":
                res["digests"].append(j["v"])
            elif t == "hang":
                hang = j
            elif t == "done":
                done = True
        reps = san_reports(r["err"])
        for kind, text in reps:
            if kind.startswith("tsan"):
                if kind in ("tsan data race", "tsan heap-use-after-free", "tsan data race on vptr", "tsan-fatal") or True:
                    tags = "C12" + (" C13" if "use-after-free" in kind else "")
            elif kind.startswith("memcheck"):
                tags = "C13"
            elif "LeakSanitizer" in kind:
                tags = "C13 C24"
            elif "terminate called" in kind or "Assertion" in kind:
                tags = "*"
            else:
                tags = "*"
            viol.append({"tags": tags, "sig": kind.split(" at pc")[0][:80] + ":" + stack_sig(text), "msg": kind,
                         "where": "sanitizer", "log": text[:5000]})
        res["violations"] += viol
        if hang or r["timeout"]:
            # No progress: believed only if it happens again.
            res.setdefault("hangs", []).append(hang or {"where": "job timeout"})
            if len(res["hangs"]) >= 2:
                w = [h.get("where", "") for h in res["hangs"]]
                res["violations"].append({"tags": job.get("hang_tags", "*"), "sig": "hang:" + w[0],
                                          "msg": "no progress in %d of %d runs (%s)" % (len(w), attempt + 1, ", ".join(w)),
                                          "where": " ".join(r["cmd"][1:]), "log": r["err"][-3000:]})
                return res
            if viol:
                return res
            continue
        if res.get("hangs"):
            if viol or attempt == 2:
                break
            # it hung once and not again: inconclusive on its own, try once more
            if attempt < 2:
                continue
        if r["rc"] == 0 and done:
            break
        if r["rc"] in (66, 23) and done:
            break
        if viol and r["rc"] != 3:
            break
        if r["rc"] == 3:
            res["inconclusive"].append("harness: " + r["err"][-500:])
            break
        if r["rc"] == 4 and not viol:
            # the scheduler lost control of a thread (blocked outside the interposed primitives): try again
            if attempt < 2:
                continue
            res["inconclusive"].append("scheduler stall: " + r["err"][-500:])
            break
        if r["rc"] < 0 or r["rc"] in (134, 139, 1, 66, 23, 99):
            # crash, abort, uncaught exception of a valid program
            m = SAN_RE.search(r["err"])
            res["violations"].append({"tags": "*", "sig": "crash:%d:%s" % (r["rc"], (m.group(1)[:60] if m else "")),
                                      "msg": "the program ended with status %d %s" % (r["rc"], m.group(1) if m else ""),
                                      "where": " ".join(r["cmd"][1:]), "log": r["err"][-4000:] + r["out"][-1000:]})
            break
        res["inconclusive"].append("exit status %d: %s" % (r["rc"], r["err"][-500:]))
        break
    if res.get("hangs") and len(res["hangs"]) == 1:
        res["stats"]["watchdog_fired_once"] = res["stats"].get("watchdog_fired_once", 0) + 1
    return res


def main_check(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    jobs = chk["jobs"](tier, seed)
    for j in jobs:
        j.setdefault("args", [])
        if chk.get("focus", True):
            j["args"] = j["args"] + ["--focus=" + pid]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {}, "assumptions": chk.get("assumptions", []), "wall_s": 0.0, "violations": 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evpath = os.path.join(VERIF, "evidence", pid + ".json")

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evpath + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(evpath + ".tmp", evpath)

    unbuilt = []
    try:
        # A binary that must build for this property is built after the others: if only it fails, that is what was observed.
        names = sorted(set(j["bin"] for j in jobs))
        special = [n for n in names if BINS[n].get("must_build_for") == pid]
        bins = build([n for n in names if n not in special])
        for n in special:
            try:
                bins.update(build([n]))
            except BuildError as e:
                unbuilt.append((n, str(e)))
        jobs = [j for j in jobs if j["bin"] in bins]
    except BuildError as e:
        log("BUILD FAILED\n" + str(e))
        ev["coverage"] = {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": [],
                          "error": "build failed"}
        write_ev()
        print("ERROR property=%s the harness does not build against /repo" % pid)
        return 2
    tb = time.time() - t0
    par = [j for j in jobs if not j.get("exclusive")]
    exc = [j for j in jobs if j.get("exclusive")]
    results = []
    # jobs declare how many cores they keep busy
    slots = NCPU
    with cf.ThreadPoolExecutor(max_workers=max(1, slots // max([j.get("cores", 1) for j in par] or [1]))) as ex:
        results += list(ex.map(lambda j: run_job(j, bins), par))
    for j in exc:
        results.append(run_job(j, bins))

    stats, samples, viol, inconcl = {}, [], [], []
    groups = {}
    for n, text in unbuilt:
        viol.append({"tags": pid, "sig": "does-not-build:" + n, "msg": "valid uses do not compile in this configuration: " +
                     next((l for l in text.splitlines() if "error" in l), "")[:300], "where": n, "log": text, "job": {"bin": n, "args": [], "env": {}}})
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        samples += r["samples"]
        inconcl += r["inconclusive"]
        for v in r["violations"]:
            v = dict(v)
            v["job"] = {"bin": r["job"]["bin"], "args": r["job"]["args"], "env": r["job"].get("env", {}), "wrap": r["job"].get("wrap", [])}
            viol.append(v)
        g = r["job"].get("digest_group")
        if g and r["digests"]:
            groups.setdefault(g, {}).setdefault(tuple(r["digests"]), []).append(r["job"])
    for g, m in groups.items():
        stats["configurations_compared"] = stats.get("configurations_compared", 0) + sum(len(x) for x in m.values())
        if len(m) > 1 and not viol:
            jobs_ = [x[0] for x in m.values()]
            viol.append({"tags": "C21", "sig": "digest", "msg": "the same program gives different results in %s" %
                         ", ".join("/".join(sorted(set(j["bin"] for j in x))) for x in m.values()), "where": g, "log": "",
                         "job": {"bin": jobs_[0]["bin"], "args": jobs_[0]["args"], "env": {}}})
    mine = [v for v in viol if v["tags"] == "*" or pid in v["tags"].split()]
    others = [v for v in viol if v not in mine]
    known = load_known()
    unknown, seen_known = [], set()
    for v in mine:
        k = next((k for k in known if k["property"] == pid and k["sig"] == v["sig"]), None)
        if k:
            seen_known.add(k["id"])
        else:
            unknown.append(v)
    nt = chk["counts"](stats)
    ev["coverage"] = {"evaluations": int(nt[0]), "distinct_nontrivial": int(nt[1]), "rule": chk["rule"],
                      "samples": [s[:1500] for s in samples[:6]], "observed": stats, "jobs": len(results),
                      "build_s": round(tb, 1), "oracles_of_other_properties_fired": len(others)}
    ev["violations"] = len(unknown)
    if inconcl:
        ev["coverage"]["inconclusive"] = inconcl[:5]
    write_ev()
    for k in known:
        if k["property"] == pid and k["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if unknown:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        sigs = {}
        for v in unknown:
            sigs.setdefault(v["sig"], v)
        for i, (s, v) in enumerate(sorted(sigs.items())):
            if i >= 5:
                break
            p = os.path.join(d, "%s-%d.json" % (pid, i))
            with open(p, "w") as f:
                json.dump({"property": pid, "violation": v}, f, indent=1)
            print("  %s: %s [%s]" % (v["sig"], v["msg"][:400], v.get("where", "")[:200]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if others:
        for v in others[:3]:
            log("note: an oracle of another property fired (%s): %s %s" % (v["tags"], v["sig"], v["msg"][:200]))
    if inconcl:
        print("INCONCLUSIVE property=%s %s" % (pid, inconcl[0][:300]))
        return 2
    low = [k for k, m in chk.get("floors", {}).items() if stats.get(k, 0) < m]
    if low and not others:
        print("INCONCLUSIVE property=%s observed too little: %s" % (pid, ", ".join("%s=%d" % (k, stats.get(k, 0)) for k in low)))
        return 2
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)" %
          (pid, tier, nt[0], nt[1], time.time() - t0, tb))
    return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def main_replay(path):
    with open(path) as f:
        r = json.load(f)
    v = r["violation"]
    print("recorded:", v["sig"], "-", v["msg"])
    try:
        bins = build([v["job"]["bin"]])
    except BuildError as e:
        print(str(e))
        return 1
    res = run_job({"bin": v["job"]["bin"], "args": v["job"]["args"], "env": v["job"].get("env", {}),
                   "wrap": v["job"].get("wrap", [])}, bins)
    hit = [x for x in res["violations"] if x["sig"] == v["sig"]]
    for x in (hit or res["violations"])[:3]:
        print(x["sig"], x["msg"], x.get("where"))
        print(x.get("log", ""))
    print("reproduced" if hit else "not reproduced in this run")
    return 0 if not res["violations"] else 1


def main_setup():
    for t in ("g++", "clang++", "gcc", "valgrind"):
        if not shutil.which(t):
            print("missing", t)
            return 2
    missing = [p for p in CHECKS if p not in PROPS]
    print("setup ok: %d checks, %d binaries defined" % (len(CHECKS), len(BINS)))
    return 2 if missing else 0


def main():
    a = sys.argv[1:]
    if not a or a[0] == "setup":
        return main_setup()
    if a[0] == "replay":
        return main_replay(a[1])
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        i = 2
        while i < len(a):
            if a[i] == "--tier":
                tier = a[i + 1]; i += 2
            elif a[i] == "--seed":
                seed = int(a[i + 1]); i += 2
            else:
                i += 1
        return main_check(a[1], tier, seed)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
