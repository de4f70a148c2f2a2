// Performance traces: transactions are run in a traced period, one after another (exact contents expected) or concurrently
// (a checker of the legal order of lock events decides), and the recorded and saved events are compared.
#include "common.hh"
#include "pool.hh"
#include "tsched.h"

#include <string>
#include <vector>
// what an external tracer is told in this thread
struct ExtCall {
    int phase;
    std::string name;
};
static thread_local std::vector<ExtCall> extCalls;
template<typename S>
static void extCall(int phase, S &&name) {
    extCalls.push_back({phase, std::string(name)});
}
#define TECS_EXTERNAL_TRACE_TRANSACTION_STARTING(p) extCall(0, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_STARTED(p) extCall(1, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_ENDING(p) extCall(2, p)
#define TECS_EXTERNAL_TRACE_TRANSACTION_ENDED(p) extCall(3, p)
#include <Tecs.hh>
#include <memory>
#include <set>
#include <sstream>

struct A {
    uint64_t v = 0;
};
struct B {
    uint64_t v = 0;
};
struct C {
    uint64_t v = 0;
};
struct G {
    uint64_t v = 0;
};
TECS_GLOBAL_COMPONENT(G);
TECS_NAME_COMPONENT(A, "Alpha");
TECS_NAME_COMPONENT(B, "B comp");
TECS_NAME_COMPONENT(G, "Global one");
using World = Tecs::ECS<A, B, G, C>;
using namespace Tecs;
using Ty = TraceEvent::Type;
using Clock = std::chrono::steady_clock;
enum { XA = 1, XB = 2, XG = 4, XC = 8, ALL = 15 };
static const char *const compName[] = {"Alpha", "B comp", "Global one", "Component3"};
static const unsigned compBit[] = {XA, XB, XG, XC};
constexpr size_t CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS;

static std::string where;
static std::string tail;
static bool failed;
static void bad(const std::string &sig, const std::string &msg) {
    failed = true;
    Report::violation("C23", "trace:" + sig, msg, where, tail.size() > 3000 ? tail.substr(tail.size() - 3000) : tail);
}

struct Tx {
    int thread, kind;
    unsigned set = 0;        // components it writes
    bool structural = false; // creates an entity
    bool exc = false;
    Clock::time_point t0, t1;
    mutable std::string ext; // how the external tracer was called
};
template<typename... P>
static void runTx(World &w, Entity e, const Tx &t, bool sch) {
    extCalls.clear();
    auto told = [&](size_t n, const char *when) { // the calls so far: starting, started, ending, ended
        bool ok = extCalls.size() == n;
        for (size_t i = 0; ok && i < n; i++)
            ok = extCalls[i].phase == (int)i && !extCalls[i].name.empty() && extCalls[i].name == extCalls[0].name;
        if (ok || !t.ext.empty()) return;
        t.ext = fmt("%s a transaction of kind %d the external tracer had been called %zu times:", when, t.kind, extCalls.size());
        for (auto &c : extCalls)
            t.ext += fmt(" %d(%s)", c.phase, c.name.c_str());
    };
    struct AtEnd {
        decltype(told) &f;
        ~AtEnd() { f(4, "after"); }
    } atEnd{told};
    try {
        auto l = w.StartTransaction<P...>();
        using L = decltype(l);
        told(2, "in");
        if (sch) app_point("body");
        if constexpr (is_write_allowed<A, L>())
            if (t.set & XA) e.template Set<A>(l, A{2});
        if constexpr (is_write_allowed<B, L>())
            if (t.set & XB) e.template Get<B>(l).v = 3;
        if constexpr (is_write_allowed<C, L>())
            if (t.set & XC) e.template Set<C>(l, C{4});
        if constexpr (is_write_allowed<G, L>())
            if (t.set & XG) l.template Set<G>(G{4});
        if constexpr (is_add_remove_allowed<L>())
            if (t.structural) l.NewEntity();
        if constexpr (is_read_allowed<A, L>()) (void)e.template Get<const A>(l).v;
        auto l2 = l; // copies and derived locks are part of the same transaction
        Lock<World> l3 = l;
        if (sch) app_point("body");
        told(2, "in");
        if (t.exc) throw 1;
    } catch (int) {}
}
struct Kind {
    unsigned r, w;
    bool ar;
    void (*run)(World &, Entity, const Tx &, bool);
};
static const Kind kinds[] = {
    {0, 0, false, runTx<>},
    {XA, 0, false, runTx<Read<A>>},
    {XA | XB, 0, false, runTx<Read<A, B>>},
    {ALL, 0, false, runTx<ReadAll>},
    {XA, XA, false, runTx<Write<A>>},
    {XB, XB, false, runTx<Write<B>>},
    {XA | XB, XA | XB, false, runTx<Write<A, B>>},
    {XA | XB, XB, false, runTx<Read<A>, Write<B>>},
    {XG, XG, false, runTx<Write<G>>},
    {XG, 0, false, runTx<Read<G>>},
    {XC, XC, false, runTx<Write<C>>},
    {ALL, ALL, false, runTx<WriteAll>},
    {ALL, ALL, true, runTx<AddRemove>},
    {ALL, XC, false, runTx<ReadAll, Write<C>>},
};
constexpr int NK = sizeof kinds / sizeof *kinds;

static const char *tyName(Ty t) {
    switch (t) {
    case Ty::Invalid: return "Invalid";
    case Ty::TransactionStart: return "TransactionStart";
    case Ty::TransactionEnd: return "TransactionEnd";
    case Ty::ReadLockWait: return "ReadLockWait";
    case Ty::ReadLock: return "ReadLock";
    case Ty::ReadUnlock: return "ReadUnlock";
    case Ty::WriteLockWait: return "WriteLockWait";
    case Ty::WriteLock: return "WriteLock";
    case Ty::CommitLockWait: return "CommitLockWait";
    case Ty::CommitLock: return "CommitLock";
    case Ty::CommitUnlock: return "CommitUnlock";
    case Ty::WriteUnlock: return "WriteUnlock";
    }
    return "?";
}

struct Trace {
    std::vector<TraceEvent> tx, meta, comp[4];
};
static Trace copyTrace(const PerformanceTrace &p) {
    Trace t;
    t.tx.assign(p.transactionEvents.begin(), p.transactionEvents.end());
    t.meta.assign(p.metadataEvents.begin(), p.metadataEvents.end());
    if (p.componentEvents.size() != 4 || p.componentNames.size() != 4) {
        bad("columns", fmt("%zu component lists and %zu names", p.componentEvents.size(), p.componentNames.size()));
        return t;
    }
    for (int i = 0; i < 4; i++) {
        t.comp[i].assign(p.componentEvents[(size_t)i].begin(), p.componentEvents[(size_t)i].end());
        if (p.componentNames[(size_t)i] != compName[i]) bad("name", fmt("component %d is called '%s'", i, p.componentNames[(size_t)i].c_str()));
    }
    return t;
}

static void waitsOut(std::vector<TraceEvent> &v) {
    std::vector<TraceEvent> o;
    for (auto &e : v)
        if (e.type != Ty::ReadLockWait && e.type != Ty::WriteLockWait && e.type != Ty::CommitLockWait) o.push_back(e);
    v.swap(o);
}

// the table saved of a trace
static void csv(PerformanceTrace &p, const Trace &t, const std::map<std::thread::id, std::string> &names) {
    std::stringstream ss;
    p.SaveToCSV(ss);
    std::vector<std::vector<std::string>> rows;
    std::string line;
    while (std::getline(ss, line)) {
        std::vector<std::string> cells(1);
        for (char ch : line)
            if (ch == ',') cells.emplace_back();
            else cells.back() += ch;
        rows.push_back(cells);
    }
    if (rows.empty()) return bad("csv", "the saved table is empty");
    const std::vector<TraceEvent> *lists[] = {&t.tx, &t.meta, &t.comp[0], &t.comp[1], &t.comp[2], &t.comp[3]};
    const char *nm[] = {"Transaction", "Metadata", compName[0], compName[1], compName[2], compName[3]};
    for (size_t r = 1; r < rows.size(); r++)
        if (rows[r].size() != rows[0].size()) return bad("csv-shape", fmt("row %zu of the saved table has %zu cells, the header %zu", r, rows[r].size(), rows[0].size()));
    for (int k = 0; k < 6; k++) {
        size_t ce = ~0u, ct = ~0u, cn = ~0u;
        for (size_t i = 0; i < rows[0].size(); i++) {
            if (rows[0][i] == std::string(nm[k]) + " Event") ce = i;
            if (rows[0][i] == std::string(nm[k]) + " Thread Id") ct = i;
            if (rows[0][i] == std::string(nm[k]) + " TimeNs") cn = i;
        }
        if (ce == ~0u || ct == ~0u || cn == ~0u) return bad("csv-columns", fmt("no columns for '%s' in the saved table", nm[k]));
        for (size_t r = 0; r + 1 < rows.size() || r < lists[k]->size(); r++) {
            if (r < lists[k]->size()) {
                if (r + 1 >= rows.size()) return bad("csv-rows", fmt("the saved table ends before event %zu of '%s'", r, nm[k]));
                auto &e = (*lists[k])[r];
                auto &c = rows[r + 1];
                std::string th;
                auto it = names.find(e.thread);
                if (it != names.end()) th = it->second;
                else {
                    std::stringstream s2;
                    s2 << e.thread;
                    th = s2.str();
                }
                std::string ns = std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count());
                if (c[ce] != tyName(e.type) || c[ct] != th || c[cn] != ns)
                    return bad("csv-event", fmt("event %zu of '%s' is saved as %s/%s/%s instead of %s/%s/%s", r, nm[k], c[ce].c_str(), c[ct].c_str(), c[cn].c_str(), tyName(e.type), th.c_str(), ns.c_str()));
                Report::count("csv_events");
            } else {
                auto &c = rows[r + 1];
                if (!c[ce].empty() || !c[ct].empty() || !c[cn].empty()) return bad("csv-extra", fmt("the saved table has an event %zu of '%s' that was not recorded", r, nm[k]));
            }
        }
    }
    Report::count("tables_checked");
}

// Legal order of the events of one list (waits are left in); capped lists are prefixes.
static void legal(const char *name, const std::vector<TraceEvent> &v, bool whole, const std::set<std::thread::id> &threads, Clock::time_point t0, Clock::time_point t1) {
    std::map<std::thread::id, int> readers;
    std::thread::id writer{}, none{};
    std::map<std::thread::id, Clock::time_point> last;
    bool commit = false;
    auto fail = [&](size_t i, const char *why) {
        std::string s;
        for (size_t k = i < 12 ? 0 : i - 12; k <= i && k < v.size(); k++) {
            std::stringstream ss;
            ss << v[k].thread;
            s += fmt("%s@%s ", tyName(v[k].type), ss.str().substr(ss.str().size() > 5 ? ss.str().size() - 5 : 0).c_str());
        }
        bad("order", fmt("'%s' event %zu: %s (...%s)", name, i, why, s.c_str()));
    };
    for (size_t i = 0; i < v.size(); i++) {
        auto &e = v[i];
        Report::count("events_checked");
        if (!threads.count(e.thread)) return fail(i, "a thread that ran no transaction");
        if (e.time < t0 || e.time > t1) return fail(i, "a time outside of the traced period");
        auto &l = last[e.thread];
        if (e.time < l) return fail(i, "time runs backwards within the thread");
        l = e.time;
        switch (e.type) {
        case Ty::ReadLock:
            if (commit) return fail(i, "read lock during a commit");
            readers[e.thread]++;
            break;
        case Ty::ReadUnlock:
            if (readers[e.thread] <= 0) return fail(i, "read unlock without read lock");
            readers[e.thread]--;
            break;
        case Ty::WriteLock:
            if (writer != none) return fail(i, "write lock while another is held");
            writer = e.thread;
            break;
        case Ty::CommitLock:
            if (writer != e.thread || commit) return fail(i, "commit lock outside of the write lock");
            for (auto &r : readers)
                if (r.second) return fail(i, "commit lock while there are readers");
            commit = true;
            break;
        case Ty::CommitUnlock:
            if (!commit || writer != e.thread) return fail(i, "commit unlock without commit lock");
            commit = false;
            break;
        case Ty::WriteUnlock:
            if (writer != e.thread || commit) return fail(i, "write unlock without write lock or during the commit");
            writer = none;
            break;
        case Ty::ReadLockWait:
        case Ty::WriteLockWait:
        case Ty::CommitLockWait:
            Report::count("wait_events");
            break;
        default: return fail(i, "an event that does not belong here");
        }
    }
    if (whole) {
        if (writer != none || commit) return fail(v.size(), "a write lock is never released");
        for (auto &r : readers)
            if (r.second) return fail(v.size(), "a read lock is never released");
    }
}

struct Env {
    World w;
    Entity e;
    Env() {
        auto l = w.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, A{1});
        e.Set<B>(l, B{1});
        e.Set<C>(l, C{1});
        l.Set<G>(G{1});
    }
};
static Tx randomTx(Rng &rng, int threads) {
    Tx t{};
    t.thread = (int)rng.below((uint64_t)threads);
    t.kind = (int)rng.below(NK);
    auto &k = kinds[t.kind];
    if (k.w && rng.chance(2, 3)) t.set = k.w & (unsigned)rng.next();
    t.structural = k.ar && rng.chance(1, 2);
    t.exc = rng.chance(1, 8);
    return t;
}

static void sequential(Rng &rng, Pool &pool, const std::vector<std::thread::id> &tids) {
    Env env;
    auto on = [&](int th, const std::function<void()> &f) {
        pool.start([&](int i) {
            if (i == th) f();
        });
        pool.wait();
    };
    auto runOne = [&](Tx &t) {
        on(t.thread, [&] {
            t.t0 = Clock::now();
            kinds[t.kind].run(env.w, env.e, t, false);
            t.t1 = Clock::now();
        });
    };
    auto throwsOn = [&](auto f) {
        try {
            f();
        } catch (const std::exception &) {
            return true;
        }
        return false;
    };
    int periods = 1 + (int)rng.below(3);
    for (int p = 0; p < periods && !failed; p++) {
        tail.clear();
        for (int i = (int)rng.below(3); i > 0; i--) { // outside of the traced period
            Tx t = randomTx(rng, (int)tids.size());
            runOne(t);
        }
        if (rng.chance(1, 4)) {
            Report::count("misuses");
            if (!throwsOn([&] { env.w.StopTrace(); })) return bad("stop-without-start", "StopTrace without StartTrace does not throw");
        }
        size_t n = CAP < 1000 ? rng.below(CAP) : rng.below(30);
        auto t0 = Clock::now();
        env.w.StartTrace();
        std::vector<Tx> txs;
        for (size_t i = 0; i < n; i++) {
            Tx t = randomTx(rng, (int)tids.size());
            tail += fmt("tx %d on thread %d: kind %d set %x%s%s\n", (int)i, t.thread, t.kind, t.set, t.structural ? " structural" : "", t.exc ? " throws" : "");
            runOne(t);
            if (!t.ext.empty()) return bad("external", t.ext);
            Report::count("external_tracer_checks");
            txs.push_back(t);
            if (rng.chance(1, 40)) {
                Report::count("misuses");
                if (!throwsOn([&] { env.w.StartTrace(); })) return bad("start-twice", "StartTrace during a trace does not throw");
            }
        }
        PerformanceTrace pt = env.w.StopTrace();
        auto t1 = Clock::now();
        for (int i = (int)rng.below(3); i > 0; i--) {
            Tx t = randomTx(rng, (int)tids.size());
            runOne(t);
        }
        std::map<std::thread::id, std::string> names;
        if (rng.chance(1, 2))
            for (size_t i = 0; i < tids.size(); i++)
                if (rng.chance(1, 2)) {
                    names[tids[i]] = fmt("worker %zu", i);
                    pt.SetThreadName(names[tids[i]], tids[i]);
                }
        Trace tr = copyTrace(pt);
        if (failed) return;
        csv(pt, tr, names);
        // exact contents
        struct X {
            Ty type;
            bool optional;
            const Tx *t;
        };
        std::vector<X> want[6];
        for (auto &t : txs) {
            auto &k = kinds[t.kind];
            want[0].push_back({Ty::TransactionStart, false, &t});
            want[0].push_back({Ty::TransactionEnd, false, &t});
            auto add = [&](int list, bool r, bool w, bool c, bool opt) {
                if (w) {
                    want[list].push_back({Ty::WriteLock, false, &t});
                    if (c || opt) {
                        want[list].push_back({Ty::CommitLock, opt, &t});
                        want[list].push_back({Ty::CommitUnlock, opt, &t});
                    }
                    want[list].push_back({Ty::WriteUnlock, false, &t});
                } else if (r) {
                    want[list].push_back({Ty::ReadLock, false, &t});
                    want[list].push_back({Ty::ReadUnlock, false, &t});
                }
            };
            add(1, true, k.ar, t.structural, false);
            for (int i = 0; i < 4; i++)
                add(2 + i, k.r & compBit[i], k.w & compBit[i], t.set & compBit[i], t.structural && !(t.set & compBit[i]));
            Report::count("transactions");
        }
        std::vector<TraceEvent> *lists[] = {&tr.tx, &tr.meta, &tr.comp[0], &tr.comp[1], &tr.comp[2], &tr.comp[3]};
        const char *nm[] = {"Transaction", "Metadata", compName[0], compName[1], compName[2], compName[3]};
        std::set<std::thread::id> ths(tids.begin(), tids.end());
        for (int k = 0; k < 6 && !failed; k++) {
            auto &v = *lists[k];
            if (v.size() > CAP) return bad("cap", fmt("'%s' has %zu events, more than %zu", nm[k], v.size(), CAP));
            bool capped = v.size() == CAP;
            if (k) legal(nm[k], v, !capped, ths, t0, t1);
            waitsOut(v);
            size_t j = 0;
            for (size_t i = 0; i < want[k].size() && !failed; i++) {
                auto &x = want[k][i];
                if (j >= v.size()) {
                    if (x.optional) continue;
                    if (!capped) bad("missing", fmt("'%s' ends after %zu events; missing %s of a transaction", nm[k], v.size(), tyName(x.type)));
                    break;
                }
                if (v[j].type != x.type) {
                    if (x.optional) continue;
                    bad("differs", fmt("'%s' event %zu is %s instead of %s", nm[k], j, tyName(v[j].type), tyName(x.type)));
                    break;
                }
                if (v[j].thread != tids[(size_t)x.t->thread]) {
                    bad("thread", fmt("'%s' event %zu (%s) carries the wrong thread", nm[k], j, tyName(v[j].type)));
                    break;
                }
                if (v[j].time < x.t->t0 || v[j].time > x.t->t1) {
                    bad("time", fmt("'%s' event %zu (%s) has a time outside of its transaction", nm[k], j, tyName(v[j].type)));
                    break;
                }
                j++;
                Report::count("events_matched");
            }
            if (!failed && j < v.size()) bad("extra", fmt("'%s' has %zu events more than the transactions made, first %s", nm[k], v.size() - j, tyName(v[j].type)));
            if (capped) Report::count("capped_lists");
        }
        Report::count("traces");
    }
}

static void concurrent(Rng &rng, Pool &pool, const std::vector<std::thread::id> &tids, bool sch) {
    Env env;
    int nt = (int)tids.size();
    std::vector<std::vector<Tx>> plan((size_t)nt);
    size_t per = sch ? 1 + rng.below(4) : 5 + rng.below(60);
    std::vector<int> pool_;
    for (int i = 0; i < 4; i++)
        pool_.push_back((int)rng.below(NK));
    bool narrow = rng.chance(1, 2);
    for (int i = 0; i < nt; i++)
        for (size_t k = 0; k < per; k++) {
            Tx t = randomTx(rng, nt);
            t.thread = i;
            if (narrow) {
                t.kind = pool_[rng.below(4)];
                t.set &= kinds[t.kind].w;
                t.structural &= kinds[t.kind].ar;
                if (kinds[t.kind].w && rng.chance(1, 2)) t.set = kinds[t.kind].w;
            }
            plan[(size_t)i].push_back(t);
        }
    auto t0 = Clock::now();
    env.w.StartTrace();
    auto job = [&](int i) {
        for (auto &t : plan[(size_t)i])
            kinds[t.kind].run(env.w, env.e, t, true);
    };
    if (sch) {
        sched_cfg c = {};
        c.nthreads = nt;
        c.seed = rng.next();
        c.policy = rng.chance(1, 2) ? SCHED_PCT : SCHED_RANDOM;
        c.pct_depth = 1 + (int)rng.below(5);
        c.pct_steps = 1500;
        static const int dens[] = {2, 4, 10, 30};
        c.switch_den = dens[rng.below(4)];
        sched_begin(&c);
        pool.start([&](int i) {
            sched_enter(i);
            job(i);
            sched_exit_();
        });
        int r = sched_wait();
        if (r == RUN_STALL) {
            Report::finish();
            fflush(stdout);
            _exit(4);
        }
        if (r != RUN_OK) {
            char d[2000];
            sched_describe(d, sizeof d);
            Report::violation("C09", "deadlock", d, where);
            Report::finish();
            fflush(stdout);
            _exit(0);
        }
        Report::count("scheduled_runs");
    } else
        pool.start(job);
    pool.wait();
    PerformanceTrace pt = env.w.StopTrace();
    auto t1 = Clock::now();
    Trace tr = copyTrace(pt);
    if (failed) return;
    csv(pt, tr, {});
    std::set<std::thread::id> ths(tids.begin(), tids.end());
    std::vector<TraceEvent> *lists[] = {&tr.tx, &tr.meta, &tr.comp[0], &tr.comp[1], &tr.comp[2], &tr.comp[3]};
    const char *nm[] = {"Transaction", "Metadata", compName[0], compName[1], compName[2], compName[3]};
    for (int k = 0; k < 6 && !failed; k++) {
        auto &v = *lists[k];
        if (v.size() > CAP) return bad("cap", fmt("'%s' has %zu events, more than %zu", nm[k], v.size(), CAP));
        bool capped = v.size() == CAP;
        if (k) legal(nm[k], v, !capped, ths, t0, t1);
        if (failed) return;
        if (capped) {
            Report::count("capped_lists");
            continue;
        }
        for (int i = 0; i < nt && !failed; i++) {
            std::map<Ty, size_t> got;
            Ty expect = Ty::TransactionStart;
            Clock::time_point last{};
            for (auto &e : v)
                if (e.thread == tids[(size_t)i]) {
                    got[e.type]++;
                    if (k == 0) {
                        if (e.type != expect) return bad("tx-order", fmt("thread %d: %s where %s was due", i, tyName(e.type), tyName(expect)));
                        expect = e.type == Ty::TransactionStart ? Ty::TransactionEnd : Ty::TransactionStart;
                        if (e.time < last || e.time < t0 || e.time > t1) return bad("time", fmt("thread %d: transaction times run backwards or are outside of the period", i));
                        last = e.time;
                    }
                }
            size_t nr = 0, nw = 0, nc = 0, opt = 0;
            for (auto &t : plan[(size_t)i]) {
                auto &K = kinds[t.kind];
                if (k == 0) continue;
                bool w = k == 1 ? K.ar : K.w & compBit[k - 2], r = !w && (k == 1 || (K.r & compBit[k - 2]));
                bool c = w && (k == 1 ? t.structural : (bool)(t.set & compBit[k - 2]));
                nr += r;
                nw += w;
                nc += c;
                opt += w && !c && t.structural;
            }
            auto msg = [&](const char *what, size_t g, size_t n) { bad("count", fmt("thread %d, '%s': %zu %s events, %zu expected", i, nm[k], g, what, n)); };
            if (k == 0) {
                if (got[Ty::TransactionStart] != plan[(size_t)i].size()) msg("TransactionStart", got[Ty::TransactionStart], plan[(size_t)i].size());
                else if (got[Ty::TransactionEnd] != plan[(size_t)i].size()) msg("TransactionEnd", got[Ty::TransactionEnd], plan[(size_t)i].size());
            } else {
                // locks given back while waiting for another component appear as additional lock/unlock pairs
                if (got[Ty::ReadLock] < nr || (!nr && got[Ty::ReadLock])) msg("ReadLock", got[Ty::ReadLock], nr);
                else if (got[Ty::WriteLock] < nw || (!nw && got[Ty::WriteLock])) msg("WriteLock", got[Ty::WriteLock], nw);
                else if (got[Ty::ReadLock] != got[Ty::ReadUnlock]) msg("ReadUnlock", got[Ty::ReadUnlock], got[Ty::ReadLock]);
                else if (got[Ty::WriteLock] != got[Ty::WriteUnlock]) msg("WriteUnlock", got[Ty::WriteUnlock], got[Ty::WriteLock]);
                else if (got[Ty::CommitLock] < nc || got[Ty::CommitLock] > nc + opt) msg("CommitLock", got[Ty::CommitLock], nc);
                else if (got[Ty::CommitUnlock] != got[Ty::CommitLock]) msg("CommitUnlock", got[Ty::CommitUnlock], nc);
                Report::count("rollback_pairs", got[Ty::ReadLock] - nr + got[Ty::WriteLock] - nw);
            }
        }
    }
    for (auto &p : plan) {
        Report::count("transactions", p.size());
        Report::count("external_tracer_checks", p.size());
        for (auto &t : p)
            if (!t.ext.empty()) return bad("external", t.ext);
    }
    Report::count("traces");
    Report::count("concurrent_traces");
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), cases = a.num("cases", 100);
    bool sch = a.has("sched"), seq = a.has("seq");
    if (!sch && !seq) sched_delays(40, 30);
    Watchdog::start(60);
    Watchdog::what() = "trace";
    int nt = seq ? 3 : 4;
    Pool pool(nt);
    std::vector<std::thread::id> tids((size_t)nt);
    pool.start([&](int i) { tids[(size_t)i] = std::this_thread::get_id(); });
    pool.wait();
    for (uint64_t n = first; n < first + cases && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 67867967 + n) + 11);
        where = fmt("seed=%llu case=%llu%s", (unsigned long long)seed, (unsigned long long)n, sch ? " sched" : seq ? " seq" : "");
        failed = false;
        try {
            if (seq) sequential(rng, pool, tids);
            else concurrent(rng, pool, tids, sch);
        } catch (const std::exception &e) {
            bad("unexpected-exception", e.what());
        }
        Report::count("cases");
        if (n == first) Report::sample(seq ? tail.substr(0, 600) : where);
    }
    Report::finish();
    return 0;
}
