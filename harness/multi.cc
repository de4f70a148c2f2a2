// Many instances at once. Each thread owns a few instances (of two types that share component types) and runs random
// transactions on them, often on several at the same time; because nobody else touches them, an exact model says what
// each must contain, which events its observers get and which handles exist in it - whatever the other threads do to
// theirs. Under the token scheduler (atomic operations and lock steps are scheduling points), under ThreadSanitizer,
// or free-running.
#include "common.hh"
#include "pool.hh"
#include "tsched.h"

#include <Tecs.hh>
#include <memory>
#include <optional>
#include <set>
#include <unordered_set>

struct A {
    uint64_t v = 0;
};
struct B {
    std::string s;
};
struct G {
    uint64_t v = 0;
};
TECS_GLOBAL_COMPONENT(G);
struct X {
    int v = 0;
};
using namespace Tecs;
using W1 = ECS<A, B, G>;
using W2 = ECS<X, B, A>;

static std::string where;
static uint64_t runSeed;
static std::atomic<int> liveIds[1 << 16]; // live instances with an id (of 8 bits by default; far fewer live at once)
static std::atomic<uint64_t> published[64]; // handles of all instances of this run
static std::atomic<uint64_t> nOps{0}, nTx{0}, nEvents{0}, nForeign{0}, nTwo{0}, nInst{0}, nReplaced{0}, nChecks{0};
static void bad(const std::string &tags, const char *sig, const std::string &msg) { Report::violation(tags, sig, msg, where); }

struct Rec {
    bool a = false, b = false;
    uint64_t av = 0;
    std::string bv;
};
struct State {
    std::map<uint64_t, Rec> e;
    bool g = false;
    uint64_t gv = 0;
};

struct InstBase {
    virtual ~InstBase() {}
    virtual void begin(int kind, Rng &) = 0; // open a transaction
    virtual void op(Rng &) = 0;
    virtual void end() = 0;
    virtual bool open() = 0;
    virtual uint64_t id() = 0;
};

template<typename W>
struct Inst : InstBase {
    static constexpr bool hasG = std::is_same_v<W, W1>;
    std::string who;
    std::unique_ptr<W> w = std::make_unique<W>();
    State com, cur;
    std::vector<Entity> all;
    std::set<uint64_t> mine;
    std::optional<Lock<W, AddRemove>> ar;
    std::optional<Lock<W, Write<A, B>>> wr;
    std::optional<Lock<W, ReadAll>> rd;
    Observer<W, EntityEvent> oe;
    Observer<W, ComponentEvent<A>> oa;
    Observer<W, ComponentEvent<B>> ob;
    bool watching = false;
    std::deque<std::multiset<std::string>> xe, xa, xb;

    explicit Inst(std::string n) : who(std::move(n)) {
        nInst++;
        if (liveIds[(uint16_t)id()].fetch_add(1) != 0) bad("C22 C06", "multi:same-id", who + fmt(": gets the id %llu of an instance that is still alive", (unsigned long long)id()));
    }
    bool open() override { return ar || wr || rd; }
    uint64_t id() override { return w->GetInstanceId(); }
    void begin(int kind, Rng &rng) override {
        nTx++;
        try {
            if (kind == 0) ar.emplace(w->template StartTransaction<AddRemove>());
            else if (kind == 1) wr.emplace(w->template StartTransaction<Write<A, B>>());
            else rd.emplace(w->template StartTransaction<ReadAll>());
        } catch (std::exception &e) {
            bad("C22 C15", "multi:refused", who + ": a transaction is refused: " + e.what());
            return;
        }
        cur = com;
        if (ar && !watching && rng.chance(1, 2)) {
            oe = ar->template Watch<EntityEvent>();
            oa = ar->template Watch<ComponentEvent<A>>();
            ob = ar->template Watch<ComponentEvent<B>>();
            watching = true;
        }
        if (rd) check(*rd);
    }
    template<typename L>
    void check(const L &l) {
        nChecks++;
        auto ents = l.Entities();
        std::set<uint64_t> s;
        size_t live = 0;
        for (auto &e : ents) // an open transaction's list keeps null entries in the place of entities it destroyed
            if (e) {
                s.insert((uint64_t)e);
                live++;
            }
        bool ok = s.size() == live && s.size() == cur.e.size() && (ar || live == ents.size());
        for (auto &kv : cur.e)
            ok = ok && s.count(kv.first);
        if (!ok) return bad("C22 C05 C07", "multi:entities", who + fmt(" lists %zu entities, expected %zu (or others)", ents.size(), cur.e.size()));
        size_t na = 0, nb = 0;
        for (auto &kv : cur.e) {
            Entity e(kv.first);
            if (!e.Exists(l) || e.Has<A>(l) != kv.second.a || e.Has<B>(l) != kv.second.b)
                return bad("C22 C05", "multi:has", who + fmt(": entity %llx does not exist or has other components than expected", (unsigned long long)kv.first));
            if (kv.second.a && e.Get<const A>(l).v != kv.second.av) return bad("C22 C05", "multi:value", who + fmt(": entity %llx has another A than expected", (unsigned long long)kv.first));
            if (kv.second.b && e.Get<const B>(l).s != kv.second.bv) return bad("C22 C05", "multi:value", who + fmt(": entity %llx has another B than expected", (unsigned long long)kv.first));
            na += kv.second.a;
            nb += kv.second.b;
        }
        auto count = [&](const auto &v) {
            size_t n = 0;
            for (auto &e : v)
                n += (bool)e || !ar;
            return n;
        };
        if (count(l.template EntitiesWith<A>()) != na || count(l.template EntitiesWith<B>()) != nb)
            return bad("C22 C07", "multi:list", who + ": an entity list has another length than expected");
        if constexpr (hasG) {
            if (l.template Has<G>() != cur.g || (cur.g && l.template Get<const G>().v != cur.gv)) return bad("C22 C20", "multi:global", who + ": the global component is not as expected");
        }
    }
    template<typename L>
    void foreign(const L &l, Rng &rng) {
        uint64_t k = published[rng.below(64)].load(std::memory_order_relaxed);
        if (!k || mine.count(k)) return;
        nForeign++;
        Entity e(k);
        if (e.Exists(l) || e.Existed(l) || e.Has<A>(l) || e.Had<B>(l)) return bad("C22 C06", "multi:foreign", who + fmt(": an entity of another instance (%llx) exists here", (unsigned long long)k));
        bool thrown = false;
        try {
            (void)e.Get<const A>(l);
        } catch (std::runtime_error &) {
            thrown = true;
        }
        if (!thrown) bad("C22 C14", "multi:foreign-get", who + fmt(": an entity of another instance (%llx) is accessible", (unsigned long long)k));
    }
    Entity pick(Rng &rng) {
        if (cur.e.empty()) return Entity();
        auto it = cur.e.begin();
        std::advance(it, rng.below(cur.e.size()));
        return Entity(it->first);
    }
    std::string str(Rng &rng) { return std::string(rng.below(40), (char)('a' + rng.below(26))) + who; }
    void op(Rng &rng) override {
        nOps++;
        if (rd) {
            if (rng.chance(1, 2)) foreign(*rd, rng);
            else poll(Lock<W>(*rd), false);
            return;
        }
        if (wr) {
            Entity e = pick(rng);
            if (!e || rng.chance(1, 6)) return foreign(*wr, rng);
            auto &r = cur.e[(uint64_t)e];
            if (r.a && rng.chance(1, 2)) {
                r.av = rng.next();
                if (rng.chance(1, 2)) e.Set<A>(*wr, A{r.av});
                else e.Get<A>(*wr).v = r.av;
            }
            if (r.b && rng.chance(1, 2)) {
                r.bv = str(rng);
                if (rng.chance(1, 2)) e.Set<B>(*wr, B{r.bv});
                else e.Get<B>(*wr).s = r.bv;
            }
            return;
        }
        if (!ar) return;
        auto &l = *ar;
        switch (rng.below(9)) {
        case 0:
        case 1: {
            Entity e = l.NewEntity();
            if (!mine.insert((uint64_t)e).second) bad("C22 C06", "multi:handle", who + ": a handle was handed out twice");
            if (IdentifierFromGeneration(e.generation) != w->GetInstanceId()) bad("C22 C06", "multi:id", who + ": an entity does not carry the id of its instance");
            published[rng.below(64)].store((uint64_t)e, std::memory_order_relaxed);
            all.push_back(e);
            cur.e[(uint64_t)e];
            break;
        }
        case 2:
        case 3: {
            Entity e = pick(rng);
            if (!e) break;
            auto &r = cur.e[(uint64_t)e];
            r.a = true;
            r.av = rng.next();
            e.Set<A>(l, A{r.av});
            break;
        }
        case 4: {
            Entity e = pick(rng);
            if (!e) break;
            auto &r = cur.e[(uint64_t)e];
            r.b = true;
            r.bv = str(rng);
            e.Set<B>(l, B{r.bv});
            break;
        }
        case 5: {
            Entity e = pick(rng);
            if (!e) break;
            auto &r = cur.e[(uint64_t)e];
            if (rng.chance(1, 2)) {
                r.a = false;
                e.Unset<A>(l);
            } else {
                r.b = false;
                e.Unset<B>(l);
            }
            break;
        }
        case 6: {
            Entity e = pick(rng);
            if (!e) break;
            cur.e.erase((uint64_t)e);
            e.Destroy(l);
            break;
        }
        case 7:
            if constexpr (hasG) {
                if (cur.g && rng.chance(1, 3)) {
                    cur.g = false;
                    l.template Unset<G>();
                } else {
                    cur.g = true;
                    cur.gv = rng.next();
                    l.template Set<G>(G{cur.gv});
                }
                break;
            }
            [[fallthrough]];
        default: foreign(l, rng);
        }
    }
    static std::string ev(int type, uint64_t k, const std::string &v) { return fmt("%d:%llx:", type, (unsigned long long)k) + v; }
    void expected() {
        std::multiset<std::string> e, a, b;
        int add = (int)EventType::ADDED, rem = (int)EventType::REMOVED;
        for (auto &kv : com.e) {
            auto it = cur.e.find(kv.first);
            bool gone = it == cur.e.end();
            if (gone) e.insert(ev(rem, kv.first, ""));
            if (kv.second.a && (gone || !it->second.a)) a.insert(ev(rem, kv.first, std::to_string(kv.second.av)));
            if (kv.second.b && (gone || !it->second.b)) b.insert(ev(rem, kv.first, kv.second.bv));
        }
        for (auto &kv : cur.e) {
            auto it = com.e.find(kv.first);
            bool isNew = it == com.e.end();
            if (isNew) e.insert(ev(add, kv.first, ""));
            if (kv.second.a && (isNew || !it->second.a)) a.insert(ev(add, kv.first, std::to_string(kv.second.av)));
            if (kv.second.b && (isNew || !it->second.b)) b.insert(ev(add, kv.first, kv.second.bv));
        }
        if (!e.empty()) xe.push_back(e);
        if (!a.empty()) xa.push_back(a);
        if (!b.empty()) xb.push_back(b);
    }
    void one(std::deque<std::multiset<std::string>> &x, const std::string &s) {
        nEvents++;
        if (x.empty()) return bad("C22 C08", "multi:event", who + ": event " + s + " not expected");
        auto it = x.front().find(s);
        if (it == x.front().end()) return bad("C22 C08", "multi:event", who + ": event " + s + " not expected, but " + *x.front().begin());
        x.front().erase(it);
        if (x.front().empty()) x.pop_front();
    }
    void poll(const Lock<W> &l, bool all_) {
        if (!watching) return;
        EntityEvent e;
        ComponentEvent<A> a;
        ComponentEvent<B> b;
        for (int n = all_ ? 1 << 30 : 3; n > 0 && oe.Poll(l, e); n--)
            one(xe, ev((int)e.type, (uint64_t)e.entity, ""));
        for (int n = all_ ? 1 << 30 : 3; n > 0 && oa.Poll(l, a); n--)
            one(xa, ev((int)a.type, (uint64_t)a.entity, std::to_string(a.component.v)));
        for (int n = all_ ? 1 << 30 : 3; n > 0 && ob.Poll(l, b); n--)
            one(xb, ev((int)b.type, (uint64_t)b.entity, b.component.s));
        if (all_ && !(xe.empty() && xa.empty() && xb.empty())) {
            bad("C22 C08", "multi:event-lost", who + ": expected events are missing");
            xe.clear();
            xa.clear();
            xb.clear();
        }
    }
    void end() override {
        if (ar) {
            check(*ar);
            if (watching) expected();
            ar.reset();
        } else if (wr)
            wr.reset();
        else if (rd) {
            poll(Lock<W>(*rd), true);
            rd.reset();
        } else
            return;
        com = cur;
    }
    ~Inst() override {
        if (open()) end();
        liveIds[(uint16_t)id()].fetch_sub(1);
        w.reset();
        if (watching && ((bool)oe || (bool)oa || (bool)ob)) bad("C22 C08", "multi:observer-alive", who + ": an observer outlives its instance");
    }
    Inst(const Inst &) = delete;
};

static std::unique_ptr<InstBase> make(int t, uint64_t k) {
    auto n = fmt("t%d.%llu", t, (unsigned long long)k);
    if (k % 3 == 2) return std::make_unique<Inst<W2>>(n);
    return std::make_unique<Inst<W1>>(n);
}

static void job(int t, int steps) {
    Rng rng(mix64(runSeed * 7919 + (uint64_t)t) + 5);
    uint64_t k = 0;
    std::vector<std::unique_ptr<InstBase>> is;
    for (int i = 0; i < 2; i++)
        is.push_back(make(t, k++));
    for (int s = 0; s < steps; s++) {
        Watchdog::kick();
        sched_progress();
        size_t i = rng.below(is.size());
        if (!is[i]->open()) {
            if (rng.chance(1, 25)) {
                is[i].reset();
                is[i] = make(t, k++);
                nReplaced++;
            }
            is[i]->begin((int)rng.below(3), rng);
            bool other = false;
            for (size_t j = 0; j < is.size(); j++)
                other |= j != i && is[j]->open();
            if (other) nTwo++;
        } else if (rng.chance(1, 4))
            is[i]->end();
        else
            is[i]->op(rng);
    }
    for (auto &x : is)
        if (x->open()) x->end();
    for (auto &x : is) {
        x->begin(2, rng);
        x->end();
    }
    is.clear();
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), runs = a.num("runs", 50);
    int steps = (int)a.num("steps", 60), n = (int)a.num("threads", 3);
    bool sched = a.has("sched");
    std::unordered_set<uint64_t> schedules;
    Watchdog::start(60);
    Watchdog::what() = "multi";
    Pool pool(n);
    uint64_t done = 0;
    if (!sched) sched_delays((unsigned)a.num("delay-den", 60), 100);
    for (uint64_t r = first; r < first + runs && Report::violations() < 5; r++, done++) {
        runSeed = mix64(seed * 31337 + r);
        where = fmt("seed=%llu run=%llu", (unsigned long long)seed, (unsigned long long)r);
        for (auto &p : published)
            p = 0;
        if (sched) {
            Rng rng(runSeed);
            sched_cfg c = {};
            c.nthreads = n;
            c.seed = rng.next();
            c.policy = rng.chance(1, 2) ? SCHED_PCT : SCHED_RANDOM;
            c.pct_depth = 1 + (int)rng.below(6);
            c.pct_steps = 3000;
            static const int dens[] = {2, 5, 20, 60};
            c.switch_den = dens[rng.below(4)];
            c.max_steps = 4000000;
            sched_begin(&c);
            pool.start([&](int i) {
                sched_enter(i);
                job(i, steps);
                sched_exit_();
            });
            int res = sched_wait();
            if (res == RUN_STALL) {
                Report::finish();
                fflush(stdout);
                _exit(4);
            }
            if (res == RUN_DEADLOCK || res == RUN_LIVELOCK) {
                char d[2000];
                sched_describe(d, sizeof d);
                bad("C09 C22", "multi:deadlock", std::string("threads with their own instances wait for each other: ") + d);
                Report::finish();
                fflush(stdout);
                _exit(0);
            }
            pool.wait();
            schedules.insert(sched_trace_hash());
            sched_end();
        } else {
            pool.start([&](int i) { job(i, steps); });
            pool.wait();
        }
        if (r == first)
            Report::sample(fmt("%d threads, each with transactions on 2 instances of its own (of two types) at the same time, %d steps, instances destroyed and replaced while others run", n, steps));
    }
    Report::count("multi_runs", done);
    Report::count("multi_ops", nOps);
    Report::count("multi_transactions", nTx);
    Report::count("multi_events", nEvents);
    Report::count("foreign_handles_checked", nForeign);
    Report::count("two_instances_open", nTwo);
    Report::count("instances", nInst);
    Report::count("instances_replaced", nReplaced);
    Report::count("states_checked", nChecks);
    Report::count("multi_schedules", schedules.size());
    Report::finish();
    return 0;
}
