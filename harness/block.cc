// Who waits for whom: real transactions on real threads, steered step by step (sched.c, directed). A random sequence of
// transaction starts, writes, lock copies/drops and ends is carried out; after each step everything that can run is run
// until nothing moves any more. A monitor then compares who is waiting with who may and who must wait according to the
// permissions of the open transactions.
#include "common.hh"
#include "tsched.h"

#include <Tecs.hh>
#include <any>
#include <functional>
#include <memory>
#include <unordered_set>

struct A {
    uint64_t v = 0;
};
struct B {
    uint64_t v = 0;
};
struct C {
    uint64_t v = 0;
};
struct G {
    uint64_t v = 0;
};
TECS_GLOBAL_COMPONENT(G);
using World = Tecs::ECS<A, B, G, C>;
using namespace Tecs;
enum { XA = 1, XB = 2, XC = 4, XG = 8, ALL = 15 };

enum St { IDLE, STARTING, OPEN, ENDING };
static const char *const stName[] = {"idle", "starting", "open", "ending"};
enum Cmd { NONE, START, SET, MODIFY, STRUCT, COPY, DROP, READ, WRITEBY, END, ENDEXC, QUIT };

struct Kind {
    const char *name;
    unsigned r, w; // r includes w
    bool ar;
    void (*run)(struct Wk &);
};

struct Wk {
    World *w = nullptr;
    std::vector<Entity> *ents = nullptr;
    int id = 0;
    // commands from the controller
    Cmd cmd = NONE;
    int kind = 0;
    unsigned arg = 0;
    // state (written by the worker while it holds the token)
    St st = IDLE;
    size_t handles = 0;
    std::string err;
    // model
    unsigned wrote = 0;
    bool structural = false;
    bool dropped = false;          // some lock of the transaction was released early
    uint64_t seq = 0;              // number of the transaction
    std::vector<std::pair<int, uint64_t>> endWaits;   // transactions that must have ended before this one's commit is done
    std::vector<std::pair<int, uint64_t>> startWaits; // open writers that must have ended before this one can be open
    std::vector<std::pair<int, uint64_t>> commitWaits; // commits that must be done before this one can be open
    bool hadReason = false;
    uint64_t value = 0; // of the write
    uint64_t seen[3] = {0, 0, 0};
};

// Reads of every kind, none of which is a write.
template<typename T, typename L>
static uint64_t readBy(const L &l, const Entity &e, unsigned how) {
    if constexpr (is_read_allowed<T, L>()) {
        Lock<World, Read<T>> r = l;
        DynamicLock<World> d(l);
        auto ro = l.ReadOnlySubset();
        auto t = d.template TryLock<Read<T>>();
        if (!t) return 1;
        if constexpr (is_global_component<T>()) {
            switch (how % 9) {
            case 0: return l.template Get<const T>().v;
            case 1: return r.template Get<T>().v;
            case 2: return r.template Get<const T>().v;
            case 3: return ro.template Get<T>().v;
            case 4: return t->template Get<T>().v;
            case 5: return l.template GetPrevious<T>().v;
            case 6: return l.template Has<T>() + l.template Had<T>();
            case 7: return r.template GetPrevious<T>().v;
            default: return d.template TryLock<Read<T>>()->template Get<const T>().v;
            }
        } else {
            switch (how % 12) {
            case 0: return e.Get<const T>(l).v;
            case 1: return e.Get<T>(r).v;
            case 2: return e.Get<const T>(r).v;
            case 3: return e.Get<T>(ro).v;
            case 4: return e.Get<T>(*t).v;
            case 5: return e.GetPrevious<T>(l).v;
            case 6: return e.Has<T>(l) + e.Had<T>(l) + e.Exists(l) + e.Existed(l);
            case 7: return e.GetPrevious<T>(r).v;
            case 8: return l.template EntitiesWith<T>().size() + l.template PreviousEntitiesWith<T>().size();
            case 9: return e.Get<const T>(*t).v;
            case 10: {
                uint64_t n = 0;
                for (auto &x : r.template EntitiesWith<T>())
                    if (x) n += x.template Get<const T>(r).v;
                return n;
            }
            default: return l.Entities().size() + l.PreviousEntities().size() + ro.Entities().size();
            }
        }
    }
    return 0;
}
// Writes through derived locks.
template<typename T, typename L>
static void writeBy(const L &l, const Entity &e, unsigned how, uint64_t v) {
    if constexpr (is_write_allowed<T, L>()) {
        Lock<World, Write<T>> w = l;
        auto t = DynamicLock<World>(l).template TryLock<Write<T>>();
        T x{v};
        if constexpr (is_global_component<T>()) {
            switch (how % 5) {
            case 0: w.template Set<T>(x); break;
            case 1: t->template Set<T>(T{v}); break;
            case 2: w.template Get<T>().v = v; break;
            case 3: t->template Get<T>().v = v; break;
            default: l.template Subset<Write<T>>().template Set<T>(x);
            }
        } else {
            switch (how % 5) {
            case 0: e.Set<T>(w, x); break;
            case 1: e.Set<T>(*t, T{v}); break;
            case 2: e.Get<T>(w).v = v; break;
            case 3: e.Get<T>(*t).v = v; break;
            default: e.Set<T>(l.template Subset<Write<T>>(), x);
            }
        }
    }
}

template<typename... P>
void body(Wk &k) {
    using L = Lock<World, P...>;
    std::vector<std::any> hs; // only these copies keep the transaction open
    {
        auto l = k.w->StartTransaction<P...>();
        hs.emplace_back(l);
    }
    // operations always go through a lock with the full permissions of the transaction
    k.handles = 1;
    k.st = OPEN;
    auto &e = (*k.ents)[0];
    while (true) {
        sched_park();
        auto find = [&]() -> L * {
            for (auto &h : hs)
                if (auto *p = std::any_cast<L>(&h)) return p;
            return nullptr;
        };
        switch (k.cmd) {
        case SET:
            if (auto *l = find()) {
                if constexpr (is_write_allowed<A, L>())
                    if (k.arg & XA) e.template Set<A>(*l, A{k.value});
                if constexpr (is_write_allowed<B, L>())
                    if (k.arg & XB) e.template Set<B>(*l, B{k.value});
                if constexpr (is_write_allowed<C, L>())
                    if (k.arg & XC) e.template Set<C>(*l, C{k.value});
                if constexpr (is_write_allowed<G, L>())
                    if (k.arg & XG) l->template Set<G>(G{k.value});
                k.wrote |= k.arg;
            }
            break;
        case MODIFY:
            if (auto *l = find()) {
                if constexpr (is_write_allowed<A, L>())
                    if (k.arg & XA) e.template Get<A>(*l).v = k.value;
                if constexpr (is_write_allowed<B, L>())
                    if (k.arg & XB) e.template Get<B>(*l).v = k.value;
                if constexpr (is_write_allowed<C, L>())
                    if (k.arg & XC) e.template Get<C>(*l).v = k.value;
                if constexpr (is_write_allowed<G, L>())
                    if (k.arg & XG) l->template Get<G>().v = k.value;
                k.wrote |= k.arg;
            }
            break;
        case READ:
            if (auto *l = find()) {
                volatile uint64_t sink = 0;
                if (k.arg & XA) sink = sink + readBy<A>(*l, e, k.arg >> 8);
                if (k.arg & XB) sink = sink + readBy<B>(*l, e, k.arg >> 12);
                if (k.arg & XC) sink = sink + readBy<C>(*l, e, k.arg >> 16);
                if (k.arg & XG) sink = sink + readBy<G>(*l, e, k.arg >> 20);
            }
            break;
        case WRITEBY:
            if (auto *l = find()) {
                unsigned x = k.arg & ALL;
                if (x & XA) writeBy<A>(*l, e, k.arg >> 8, k.value);
                if (x & XB) writeBy<B>(*l, e, k.arg >> 12, k.value);
                if (x & XC) writeBy<C>(*l, e, k.arg >> 16, k.value);
                if (x & XG) writeBy<G>(*l, e, k.arg >> 20, k.value);
                k.wrote |= x;
            }
            break;
        case STRUCT:
            if (auto *l = find()) {
                if constexpr (is_add_remove_allowed<L>()) {
                    if (k.arg & 1) {
                        l->NewEntity();
                    } else {
                        auto n = l->NewEntity();
                        n.template Set<A>(*l, A{1});
                        k.wrote |= XA;
                    }
                    k.structural = true;
                }
            }
            break;
        case COPY:
            if (auto *l = find()) {
                switch (k.arg % 5) {
                case 0: hs.emplace_back(L(*l)); break;
                case 1: hs.emplace_back(Lock<World>(*l)); break;
                case 2: hs.emplace_back(DynamicLock<World>(*l)); break;
                case 3:
                    if constexpr (is_read_allowed<A, L>()) hs.emplace_back(Lock<World, Read<A>>(*l));
                    else hs.emplace_back(L(*l));
                    break;
                default:
                    if constexpr (is_write_allowed<B, L>()) hs.emplace_back(Lock<World, Write<B>>(*l));
                    else hs.emplace_back(L(*l));
                }
            }
            break;
        case DROP: // any but the last
            if (hs.size() > 1) {
                size_t i = k.arg % hs.size();
                hs.erase(hs.begin() + (long)i);
                k.dropped = true;
            }
            break;
        case END:
            k.st = ENDING;
            while (hs.size() > 1)
                hs.erase(hs.begin() + (long)(k.arg++ % hs.size()));
            hs.clear();
            return;
        case ENDEXC:
            k.st = ENDING;
            throw 1;
        default: break;
        }
        k.handles = hs.size();
    }
}
template<typename... P>
void runTx(Wk &k) {
    try {
        body<P...>(k);
    } catch (int) {
    } catch (const std::exception &e) {
        k.err = e.what();
    }
    k.st = IDLE;
}
static const Kind kinds[] = {
    {"none", 0, 0, false, runTx<>},
    {"Read<A>", XA, 0, false, runTx<Read<A>>},
    {"Read<B>", XB, 0, false, runTx<Read<B>>},
    {"Read<A,B>", XA | XB, 0, false, runTx<Read<A, B>>},
    {"ReadAll", ALL, 0, false, runTx<ReadAll>},
    {"Write<A>", XA, XA, false, runTx<Write<A>>},
    {"Write<B>", XB, XB, false, runTx<Write<B>>},
    {"Write<A,B>", XA | XB, XA | XB, false, runTx<Write<A, B>>},
    {"Read<B>,Write<A>", XA | XB, XA, false, runTx<Read<B>, Write<A>>},
    {"Read<A>,Write<B>", XA | XB, XB, false, runTx<Read<A>, Write<B>>},
    {"Write<C>", XC, XC, false, runTx<Write<C>>},
    {"Write<G>", XG, XG, false, runTx<Write<G>>},
    {"WriteAll", ALL, ALL, false, runTx<WriteAll>},
    {"AddRemove", ALL, ALL, true, runTx<AddRemove>},
    {"Read<G>", XG, 0, false, runTx<Read<G>>},
    {"Read<A>,Write<C,G>", XA | XC | XG, XC | XG, false, runTx<Read<A>, Write<C, G>>},
    {"ReadAll,Write<B>", ALL, XB, false, runTx<ReadAll, Write<B>>},
};
constexpr int NK = sizeof kinds / sizeof *kinds;

static void workerMain(Wk &k) {
    while (true) {
        sched_park();
        if (k.cmd == QUIT) return;
        if (k.cmd == START) {
            k.st = STARTING;
            kinds[k.kind].run(k);
        }
    }
}

// ---- the model: who may wait and who must -----------------------------------------------------------------------------
struct Sim {
    std::vector<std::unique_ptr<Wk>> ws;
    std::string where, log;
    int n;

    static const Kind &K(const Wk &k) { return kinds[k.kind]; }
    std::string name(const Wk &k) const { return fmt("t%d<%s>", k.id, K(k).name); }

    // A reason for which k, which is starting, may wait.
    std::string startReason(const Wk &k) const {
        for (auto &p : ws) {
            auto &o = *p;
            if (&o == &k) continue;
            if (o.st == OPEN) {
                if (K(k).w & K(o).w) return name(o) + " may write the same component";
            } else if (o.st == ENDING) {
                if (K(k).w & K(o).w) return name(o) + " is committing and may write the same component";
                if (o.structural) return name(o) + " is committing a change of the entity lists";
                if (K(k).r & o.wrote) return name(o) + " is committing what it reads";
            }
        }
        return "";
    }
    std::string endReason(const Wk &k) const {
        for (auto &p : ws) {
            auto &o = *p;
            if (&o == &k) continue;
            if (o.st == OPEN) {
                if (k.structural) return name(o) + " is open";
                if (K(o).r & k.wrote) return name(o) + " is reading what it wrote";
            } else if (o.st == ENDING && k.structural)
                return name(o) + " has not ended yet";
        }
        return "";
    }
    bool openConflict(const Wk &a, const Wk &b) const { return K(a).w & K(b).w; }

    void bad(const char *tags, const char *sig, const std::string &msg) {
        std::string s;
        for (auto &p : ws)
            s += fmt("%s %s wrote=%x%s%s; ", name(*p).c_str(), stName[p->st], p->wrote, p->structural ? " structural" : "", sched_state(p->id) == ST_BLOCKED ? " BLOCKED" : "");
        Report::violation(tags, sig, msg, where, log + "\nstate: " + s);
        failed = true;
    }
    bool failed = false;

    void command(Wk &k, Cmd c, bool spin) {
        k.cmd = c;
        if (c == START) {
            static uint64_t seq = 0;
            k.seq = ++seq;
            k.wrote = 0;
            k.structural = k.dropped = false;
            k.endWaits.clear();
            k.startWaits.clear();
            k.commitWaits.clear();
            k.hadReason = false;
            for (auto &p : ws) {
                auto &o = *p;
                if (&o == &k) continue;
                bool must = false, commit = false;
                if (o.st == OPEN && openConflict(k, o)) must = true;
                if (o.st == ENDING) {
                    if (K(k).w & o.wrote) commit = true;
                    // A pending commit keeps later readers out of what it waits for. Which of the things it changed (the entity
                    // lists are one of them, which change those of components; every transaction reads them) it waits for is known if all that have
                    // readers are read by this one.
                    constexpr unsigned LISTS = 1u << 31;
                    unsigned busy = 0, changed = o.structural ? ALL | LISTS : o.wrote;
                    for (auto &q : ws)
                        if (q->st == OPEN && &*q != &o) busy |= (K(*q).r | LISTS) & changed;
                    if (busy && !(busy & ~(K(k).r | LISTS))) commit = true;
                }
                if (must) k.startWaits.push_back({o.id, o.seq}), Report::count("must_wait_start");
                if (commit) k.commitWaits.push_back({o.id, o.seq}), Report::count("must_wait_commit");
            }
            if (k.startWaits.empty() && k.commitWaits.empty()) Report::count(startReason(k).empty() ? "must_not_wait_start" : "may_wait_start");
        }
        if (c == END || c == ENDEXC) {
            k.hadReason = false;
            for (auto &p : ws) {
                auto &o = *p;
                if (&o == &k || o.st != OPEN) continue;
                if (k.structural || (K(o).r & k.wrote)) k.endWaits.push_back({o.id, o.seq});
            }
            Report::count(k.endWaits.empty() ? (endReason(k).empty() ? "must_not_wait_end" : "may_wait_end") : "must_wait_end");
        }
        log += fmt("%s %d:%s arg=%u\n", c == START ? "start" : c == SET ? "set" : c == MODIFY ? "modify" : c == STRUCT ? "add/remove" : c == COPY ? "copy lock" : c == DROP ? "drop lock" : c == READ ? "read" : c == WRITEBY ? "write by derived lock" : c == END ? "end" : c == ENDEXC ? "end by exception" : "quit", k.id, K(k).name, k.arg);
        std::vector<std::pair<St, uint64_t>> before;
        for (auto &p : ws)
            before.push_back({p->st, p->seq});
        if (c == START) before[(size_t)k.id].first = STARTING;
        if (c == END || c == ENDEXC) before[(size_t)k.id].first = ENDING;
        sched_step(k.id, spin ? 3000 : 20000);
        int r = sched_settle(spin ? 6000 : 400000);
        if (r == RUN_LIVELOCK) {
            char d[2000];
            sched_describe(d, sizeof d);
            bad("C09", "livelock", std::string("threads run without getting anywhere: ") + d);
            Report::finish();
            fflush(stdout);
            _exit(0);
        }
        if (r == RUN_STALL) {
            Report::finish();
            fflush(stdout);
            _exit(4);
        }
        Report::count("steps");
        check(before);
    }

    bool isOpen(std::pair<int, uint64_t> x, St s) const { return ws[(size_t)x.first]->st == s && ws[(size_t)x.first]->seq == x.second; }

    void check(const std::vector<std::pair<St, uint64_t>> &before) {
        for (auto &p : ws) {
            auto &k = *p;
            if (!k.err.empty()) return bad("*", "unexpected-exception", name(k) + ": " + k.err);
            St was = before[(size_t)k.id].first;
            if (was == STARTING && k.st == OPEN) {
                for (auto &x : k.startWaits) {
                    auto &o = *ws[(size_t)x.first];
                    if (isOpen(x, OPEN) && openConflict(k, o))
                        return bad(o.dropped ? "C02 C17" : "C02", "writers-overlap", name(k) + " started while " + name(o) + " is open");
                }
                for (auto &x : k.commitWaits) {
                    auto &o = *ws[(size_t)x.first];
                    if (isOpen(x, ENDING))
                        return bad(K(k).w & o.wrote ? "C11 C02" : "C11", "passed-commit", name(k) + " started while the commit of " + name(o) + ", which waits for earlier readers, is not done");
                }
                Report::count("starts");
            }
            if (was == ENDING && k.st == IDLE) {
                for (auto &x : k.endWaits)
                    if (isOpen(x, OPEN))
                        return bad(ws[(size_t)x.first]->dropped ? "C01 C11 C17" : "C01 C11", "commit-under-reader",
                            name(k) + " committed while " + name(*ws[(size_t)x.first]) + ", which was reading before, is still open");
                Report::count("ends");
            }
        }
        // everyone who waits has a reason
        for (auto &p : ws) {
            auto &k = *p;
            if (k.st != STARTING && k.st != ENDING) continue;
            std::string why = k.st == STARTING ? startReason(k) : endReason(k);
            if (why.empty()) {
                std::string who = name(k);
                bool start = k.st == STARTING;
                bool had = k.hadReason;
                if (had)
                    bad(start ? "C09 C11" : "C09 C11", start ? "missed-wakeup-start" : "missed-wakeup-end",
                        who + " still waits although what it waited for is free");
                else
                    bad(start ? "C10 C09" : "C10 C11 C09", start ? "needless-wait-start" : "needless-wait-end",
                        who + (start ? " waits to start" : " waits to end") + " although no open transaction conflicts with it");
                return;
            }
            k.hadReason = true;
            Report::count(k.st == STARTING ? "waits_start" : "waits_end");
        }
    }
};

int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), runs = a.num("runs", 100);
    bool spin = a.has("spin");
    sched_trace = a.has("trace");
    sched_soft = spin;
    std::unordered_set<uint64_t> situations;
    Watchdog::start(90);
    Watchdog::what() = "block";
    for (uint64_t n = first; n < first + runs && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 104729 + n) + 3);
        Sim sim;
        World w;
        std::vector<Entity> ents;
        {
            auto l = w.StartTransaction<AddRemove>();
            for (int i = 0; i < 3; i++) {
                auto e = l.NewEntity();
                e.Set<A>(l, A{1});
                e.Set<B>(l, B{1});
                e.Set<C>(l, C{1});
                ents.push_back(e);
            }
            l.Set<G>(G{1});
        }
        sim.n = 2 + (int)rng.below(spin ? 3 : 6);
        sim.where = fmt("seed=%llu run=%llu", (unsigned long long)seed, (unsigned long long)n);
        // the kinds used in this run
        std::vector<int> pool;
        int profile = (int)rng.below(5);
        int np = profile == 0 ? NK : 2 + (int)rng.below(4);
        for (int i = 0; i < np; i++)
            pool.push_back(profile == 0 ? i : (int)rng.below(NK));
        sched_cfg c = {};
        c.policy = SCHED_DIRECTED;
        c.nthreads = sim.n;
        c.seed = rng.next();
        sched_begin(&c);
        std::vector<std::thread> ts;
        for (int i = 0; i < sim.n; i++) {
            sim.ws.push_back(std::make_unique<Wk>());
            sim.ws[(size_t)i]->w = &w;
            sim.ws[(size_t)i]->ents = &ents;
            sim.ws[(size_t)i]->id = i;
        }
        for (int i = 0; i < sim.n; i++)
            ts.emplace_back([&, i] {
                sched_enter(i);
                workerMain(*sim.ws[(size_t)i]);
                sched_exit_();
            });
        for (int i = 0; i < sim.n; i++)
            sched_step(i, 100000);
        int steps = 10 + (int)rng.below(40);
        bool drain = false;
        for (int s = 0; s < steps + 200 && !sim.failed; s++) {
            if (s >= steps) drain = true;
            // candidates: idle and open workers
            std::vector<Wk *> cand;
            for (auto &p : sim.ws)
                if ((p->st == IDLE && !drain) || p->st == OPEN) cand.push_back(p.get());
            if (cand.empty()) {
                bool any = false;
                for (auto &p : sim.ws)
                    any |= p->st != IDLE;
                if (any && drain) sim.bad("C09", "deadlock", "transactions still wait although no transaction is open");
                if (drain || any) {
                    if (!drain) sim.bad("C09", "deadlock", "transactions wait although no transaction is open");
                    break;
                }
            }
            Wk &k = *cand[rng.below(cand.size())];
            k.arg = (unsigned)rng.next();
            k.value = rng.next();
            Cmd cmd;
            if (k.st == IDLE) {
                k.kind = pool[rng.below(pool.size())];
                cmd = START;
            } else {
                auto &K = kinds[k.kind];
                uint64_t r = rng.below(100);
                if (drain) cmd = END;
                else if (r < 30 && K.w) {
                    k.arg &= K.w;
                    if (!k.arg) k.arg = K.w;
                    cmd = rng.chance(1, 3) ? MODIFY : SET;
                    if (rng.chance(1, 3)) {
                        k.arg |= (unsigned)rng.next() << 8;
                        cmd = WRITEBY;
                    }
                } else if (r < 42 && K.ar) cmd = STRUCT;
                else if (r < 50) cmd = COPY;
                else if (r < 57 && k.handles > 1) cmd = DROP;
                else if (r < 70 && K.r) cmd = READ;
                else cmd = rng.chance(1, 10) ? ENDEXC : END;
            }
            uint64_t h = (uint64_t)cmd * 31 + (uint64_t)k.kind;
            std::vector<uint64_t> o;
            for (auto &p : sim.ws)
                if (p.get() != &k && p->st != IDLE) o.push_back((uint64_t)p->kind * 977 + (uint64_t)p->st * 131 + p->wrote * 3 + p->structural);
            std::sort(o.begin(), o.end());
            for (auto x : o)
                h = mix64(h ^ x);
            situations.insert(h);
            sim.command(k, cmd, spin);
        }
        if (n == first) Report::sample(sim.log.substr(0, 800));
        if (sim.failed) {
            // threads may be stuck: report and end here
            Report::finish();
            fflush(stdout);
            _exit(0);
        }
        for (auto &p : sim.ws) {
            p->cmd = QUIT;
            sched_step(p->id, 100000);
        }
        for (auto &t : ts)
            t.join();
        sched_end();
        Report::count("runs");
    }
    Report::count("distinct_situations", situations.size());
    Report::count("hook_point_hits", sched_point_hits);
    Report::finish();
    return 0;
}
