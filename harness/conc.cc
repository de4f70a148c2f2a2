// Concurrent workload on one instance, history recorder and offline history checker.
//
// Every write of a component carries the number of the commit it belongs to (its predecessor's number plus one, read inside
// the writing transaction), every change of the entity lists replaces a marker entity. From what each transaction saw
// (versions, contents, lists, events) and when it started and ended, the checker decides afterwards whether the history
// is one that atomic, exclusive, isolated, immediately visible transactions can produce.
//
// Runs free (real parallelism, random delays at the hook points; also under ThreadSanitizer) or scheduled (sched.c).
#include "common.hh"
#include "pool.hh"
#include "tsched.h"

#include <Tecs.hh>
#include <algorithm>
#include <condition_variable>
#include <functional>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

struct A {
    uint64_t v = 0, chk = 0;
};
struct B {
    std::vector<uint64_t> d;
};
using C = uint32_t;
struct G {
    uint64_t v[3] = {0, 0, 0};
};
struct K {
    uint64_t m = 0;
};
// A global component that comes and goes: after structure commit m it exists if m % 3 != 0, with value m.
struct P {
    uint64_t m = 0;
};
TECS_GLOBAL_COMPONENT(G);
TECS_GLOBAL_COMPONENT(P);
using World = Tecs::ECS<A, G, B, K, P, C>;
using namespace Tecs;

enum { XA, XB, XC, XG, NX };
static const char *const xn[] = {"A", "B", "C", "G"};
constexpr uint32_t TORN = 0xffffffffu, DIRTY = 1u << 30;

template<typename T>
struct Cx;
template<>
struct Cx<A> {
    static constexpr int x = XA;
    static A make(uint32_t v) { return A{v, v * 7ull + 1}; }
    static uint32_t get(const A &a) { return a.chk == a.v * 7 + 1 ? (uint32_t)a.v : TORN; }
};
template<>
struct Cx<B> {
    static constexpr int x = XB;
    static B make(uint32_t v) { return B{std::vector<uint64_t>(3 + v % 5, v)}; }
    static uint32_t get(const B &b) {
        if (b.d.empty() || b.d.size() != 3 + b.d[0] % 5) return TORN;
        for (auto x : b.d)
            if (x != b.d[0]) return TORN;
        return (uint32_t)b.d[0];
    }
};
template<>
struct Cx<C> {
    static constexpr int x = XC;
    static C make(uint32_t v) { return v; }
    static uint32_t get(const C &c) { return c; }
};
template<>
struct Cx<G> {
    static constexpr int x = XG;
    static G make(uint32_t v) { return G{{v, v, v}}; }
    static uint32_t get(const G &g) { return g.v[0] == g.v[1] && g.v[1] == g.v[2] ? (uint32_t)g.v[0] : TORN; }
};

using Key = uint64_t;
static Key keyOf(const Entity &e) { return (uint64_t)e.generation << 32 | e.index; }

struct Ev {
    int type;
    Key e;
    uint32_t v;
    bool operator==(const Ev &o) const { return type == o.type && e == o.e && v == o.v; }
};
struct Seen {
    bool has = false;
    uint32_t ver = 0;
    std::vector<std::pair<Key, uint32_t>> content;
    bool operator==(const Seen &o) const { return has == o.has && ver == o.ver && content == o.content; }
};
struct Snap {
    Seen x[NX];
    Key marker = 0;
    uint32_t km = 0;
    int p = -1;
    uint64_t pv = 0;
    std::vector<Key> ents, with[3];
    bool operator==(const Snap &o) const {
        for (int i = 0; i < NX; i++)
            if (!(x[i] == o.x[i])) return false;
        return marker == o.marker && p == o.p && pv == o.pv && ents == o.ents && with[0] == o.with[0] && with[1] == o.with[1] && with[2] == o.with[2];
    }
};
struct EntChange {
    Key e;
    int kind; // 0 created, 1 destroyed, 2 component added, 3 component removed
    int x;
};
struct TxRec {
    int thread = 0, kind = 0, no = 0;
    uint64_t t[4] = {}; // start called, started, end called, ended
    Snap s;
    std::string unrepeatable, own, handles;
    unsigned asked = 0, added = 0;
    unsigned watched = 0; // observers (bits) that began to watch in this transaction
    bool W[NX] = {}, R[NX] = {}, ar = false;
    bool wrote[NX] = {};
    std::vector<Key> wr[NX];
    bool wroteM = false;
    Key newMarker = 0;
    std::vector<EntChange> changes;
    std::vector<std::pair<int, Ev>> events; // observer kind, event
    bool polled[5] = {};
};
static const char *const okn[] = {"EntityEvent", "ComponentEvent<A>", "ComponentEvent<K>", "ComponentEvent<B>", "ComponentEvent<P>"};

template<typename... P>
struct PermL {
    using L = Lock<World, P...>;
    static L start(World &w) { return w.StartTransaction<P...>(); }
};
namespace pk {
    using AB = Read<A, B>;
    using ABCG = Read<A, B, C, G>;
    using WAB = Write<A, B>;
    using WCG = Write<C, G>;
    using WABC = Write<A, B, C>;
    using Bonly = Read<B>;
    using WAG = Write<A, G>;
} // namespace pk
#define KINDS(X)                                                                                                       \
    X(0, "Read<A>", Read<A>)                                                                                           \
    X(1, "Read<A,B>", pk::AB)                                                                                          \
    X(2, "Read<A,B,C,G>", pk::ABCG)                                                                                    \
    X(3, "ReadAll", ReadAll)                                                                                           \
    X(4, "Write<A>", Write<A>)                                                                                         \
    X(5, "Write<B>", Write<B>)                                                                                         \
    X(6, "Write<A,B>", pk::WAB)                                                                                        \
    X(7, "Write<A>,Read<B>", Write<A>, Read<B>)                                                                        \
    X(8, "Write<B>,Read<A>", Write<B>, Read<A>)                                                                        \
    X(9, "Write<C,G>", pk::WCG)                                                                                        \
    X(10, "WriteAll", WriteAll)                                                                                        \
    X(11, "AddRemove", AddRemove)                                                                                      \
    X(12, "none")                                                                                                      \
    X(13, "ReadAll,Write<C>", ReadAll, Write<C>)                                                                       \
    X(14, "Read<B>", pk::Bonly)                                                                                        \
    X(15, "Write<A,G>", pk::WAG)                                                                                       \
    X(16, "Write<A,B,C>", pk::WABC)
constexpr int NKIND = 17;
static const char *const kindName[] = {
#define X(i, n, ...) n,
    KINDS(X)
#undef X
};

struct Conf {
    uint64_t seed = 1;
    int threads = 4, txs = 4, fixed = 4, profile = 0;
    bool sched = false, observers = true, light = false;
};

static inline uint64_t now() { return sched_clock(); }

struct Run;
struct Worker {
    Run *run = nullptr;
    int id = 0;
    Rng rng{1};
    std::vector<TxRec> recs;
    std::string error;
    int txno = 0;
    std::vector<Entity> memory; // handles seen earlier, of entities that may be gone
    std::unique_ptr<Observer<World, EntityEvent>> oe;
    std::unique_ptr<Observer<World, ComponentEvent<A>>> oa;
    std::unique_ptr<Observer<World, ComponentEvent<K>>> ok;
    std::unique_ptr<Observer<World, ComponentEvent<B>>> ob;
    std::unique_ptr<Observer<World, ComponentEvent<P>>> op;
    std::unique_ptr<Observer<World, EntityEvent>> coldObs;
};

struct Run {
    Conf c;
    World w;
    std::vector<Entity> fixed; // fixed[0] is the head; all have A, B, C
    std::vector<std::unique_ptr<Worker>> ws;
    std::vector<Key> fixedKeys;
    Snap initial;
    std::unique_ptr<World> cold; // an instance nobody has used before the threads start
    std::atomic<int> coldAdders{0};
    TxRec fin;
    // accessed by whoever holds write permission: exclusive or a race
    struct alignas(64) Owned {
        uint64_t n = 0;
        int owner = -1;
        char pad[40];
    } owned[NX + 1];
};

struct BodyExit {};

// ---- what a transaction sees through a lock
template<typename T, typename L>
static void seeComp(const L &l, const Run &r, Seen &s) {
    s.has = true;
    if constexpr (std::is_same_v<T, G>) {
        s.ver = l.template Has<G>() ? Cx<G>::get(l.template Get<const G>()) : TORN;
    } else {
        s.ver = Cx<T>::get(r.fixed[0].Get<const T>(l));
        for (auto &e : l.template EntitiesWith<T>())
            if (e) s.content.emplace_back(keyOf(e), Cx<T>::get(e.template Get<const T>(l)));
        std::sort(s.content.begin(), s.content.end());
    }
}
template<typename T, typename L>
static void seePrev(const L &l, const Run &r, Seen &s) {
    s.has = true;
    if constexpr (std::is_same_v<T, G>) {
        s.ver = l.template Had<G>() ? Cx<G>::get(l.template GetPrevious<G>()) : TORN;
    } else {
        s.ver = Cx<T>::get(r.fixed[0].GetPrevious<T>(l));
        for (auto &e : l.template PreviousEntitiesWith<T>())
            if (e) s.content.emplace_back(keyOf(e), Cx<T>::get(e.template GetPrevious<T>(l)));
        std::sort(s.content.begin(), s.content.end());
    }
}
static void keysOf(const EntityView &v, std::vector<Key> &o) {
    o.clear();
    for (auto &e : v)
        o.push_back(keyOf(e));
    std::sort(o.begin(), o.end());
}
template<typename L>
static void see(const L &l, const Run &r, Snap &s, bool prev) {
    auto mk = prev ? l.template PreviousEntitiesWith<K>() : l.template EntitiesWith<K>();
    s.marker = mk.size() == 1 ? keyOf(mk[0]) : ~0ull - mk.size();
    if constexpr (is_read_allowed<K, L>()) {
        if (mk.size() == 1) s.km = (uint32_t)(prev ? mk[0].template GetPrevious<K>(l).m : mk[0].template Get<const K>(l).m);
    }
    auto one = [&](auto *tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        if constexpr (is_read_allowed<T, L>()) {
            if (prev) seePrev<T>(l, r, s.x[Cx<T>::x]);
            else seeComp<T>(l, r, s.x[Cx<T>::x]);
        }
    };
    one((A *)0);
    app_point("between reads");
    one((B *)0);
    one((C *)0);
    one((G *)0);
    s.p = prev ? l.template Had<P>() : l.template Has<P>();
    if constexpr (is_read_allowed<P, L>()) {
        if (s.p) s.pv = prev ? l.template GetPrevious<P>().m : l.template Get<const P>().m;
    }
    keysOf(prev ? l.PreviousEntities() : l.Entities(), s.ents);
    keysOf(prev ? l.template PreviousEntitiesWith<A>() : l.template EntitiesWith<A>(), s.with[0]);
    keysOf(prev ? l.template PreviousEntitiesWith<B>() : l.template EntitiesWith<B>(), s.with[1]);
    keysOf(prev ? l.template PreviousEntitiesWith<C>() : l.template EntitiesWith<C>(), s.with[2]);
}

// What single entities answer agrees with the lists (which are compared with the commit history later).
template<typename L>
static void askHandles(Worker &me, const L &l, const Snap &s, bool prev, TxRec &r) {
    std::vector<Entity> es = me.memory;
    for (auto &e : prev ? l.PreviousEntities() : l.Entities())
        es.push_back(e);
    auto in = [](const std::vector<Key> &v, Key k) { return std::binary_search(v.begin(), v.end(), k); };
    for (auto &e : es) {
        Key k = keyOf(e);
        bool got[4] = {prev ? e.Existed(l) : e.Exists(l), prev ? e.Had<A>(l) : e.Has<A>(l), prev ? e.Had<B>(l) : e.Has<B>(l), prev ? e.Had<C>(l) : e.Has<C>(l)};
        bool want[4] = {in(s.ents, k), in(s.with[0], k), in(s.with[1], k), in(s.with[2], k)};
        bool both = prev ? e.Had<A, C>(l) : e.Has<A, C>(l);
        for (int i = 0; i < 4; i++)
            if (got[i] != want[i]) r.handles = fmt("%s of entity %llx is %d%s", i ? xn[i - 1] : "existence", (unsigned long long)k, (int)got[i], prev ? " (previous)" : "");
        if (both != (want[1] && want[3])) r.handles = fmt("A and C of entity %llx is %d%s", (unsigned long long)k, (int)both, prev ? " (previous)" : "");
        r.asked++;
    }
}
static void remember(Worker &me, const EntityView &v) {
    for (auto &e : v) {
        if (me.memory.size() < 10) me.memory.push_back(e);
        else if (me.rng.chance(1, 3)) me.memory[me.rng.below(10)] = e;
    }
}

template<typename T, typename L>
static void doWrite(Worker &me, const L &l, TxRec &r) {
    if constexpr (is_write_allowed<T, L>()) {
        constexpr int x = Cx<T>::x;
        r.W[x] = true;
        Run &run = *me.run;
        run.owned[x].n++;
        run.owned[x].owner = me.id;
        if (me.rng.chance(1, 5)) return; // has permission but writes nothing
        uint32_t next;
        if constexpr (std::is_same_v<T, G>) {
            next = Cx<G>::get(l.template Get<const G>()) + 1;
            if (me.rng.chance(1, 2)) {
                l.template Set<G>(Cx<G>::make(next | DIRTY));
                app_point("between writes");
            }
            if (me.rng.chance(1, 2)) l.template Set<G>(Cx<G>::make(next));
            else l.template Get<G>() = Cx<G>::make(next);
            if (Cx<G>::get(l.template Get<const G>()) != next) r.own += "own write of G not visible; ";
        } else {
            next = Cx<T>::get(run.fixed[0].Get<const T>(l)) + 1;
            for (auto &e : run.fixed) {
                if (&e != &run.fixed[0] && me.rng.chance(1, 2)) continue;
                if (me.rng.chance(1, 2)) {
                    e.Set<T>(l, Cx<T>::make(next | DIRTY));
                    if (me.rng.chance(1, 2)) app_point("between writes");
                }
                if (me.rng.chance(1, 2)) e.Set<T>(l, Cx<T>::make(next));
                else e.Get<T>(l) = Cx<T>::make(next);
                r.wr[x].push_back(keyOf(e));
                if (Cx<T>::get(e.Get<const T>(l)) != next) r.own += std::string("own write of ") + xn[x] + " not visible; ";
            }
        }
        r.wrote[x] = true;
        if (run.owned[x].owner != me.id) r.own += std::string("another transaction had write permission for ") + xn[x] + " meanwhile; ";
    }
}

// Observers come and go while others watch.
template<typename L>
static void rewatch(Worker &me, const L &l, TxRec &r) {
    auto one = [&](int k, auto &o, auto ev) {
        using E = decltype(ev);
        if (!me.rng.chance(1, 3)) return;
        if (o) {
            if (me.rng.chance(1, 2)) o->Stop(l);
            else l.StopWatching(*o);
            Lock<World> b = l;
            E e;
            if (me.rng.chance(1, 2) && o->Poll(b, e)) r.own += std::string("an observer that was stopped still has events; ");
            o.reset();
            if (me.rng.chance(1, 2)) return;
        }
        o = std::make_unique<Observer<World, E>>(l.template Watch<E>());
        r.watched |= 1u << k;
        r.added++;
    };
    one(0, me.oe, EntityEvent());
    one(1, me.oa, ComponentEvent<A>());
    one(2, me.ok, ComponentEvent<K>());
    one(3, me.ob, ComponentEvent<B>());
    one(4, me.op, ComponentEvent<P>());
}

template<typename L>
static void doAddRemove(Worker &me, const L &l, TxRec &r) {
    if constexpr (is_add_remove_allowed<L>()) {
        Run &run = *me.run;
        r.ar = true;
        run.owned[NX].n++;
        run.owned[NX].owner = me.id;
        if (run.c.observers && me.rng.chance(1, 3)) rewatch(me, l, r);
        if (me.rng.chance(1, 6)) return;
        // replace the marker
        auto mk = l.template EntitiesWith<K>();
        Entity old = mk[0];
        uint64_t m = old.Get<const K>(l).m;
        r.changes.push_back({keyOf(old), 1, 0});
        old.Destroy(l);
        app_point("marker removed");
        Entity nm = l.NewEntity();
        nm.Set<K>(l, K{m + 1});
        r.newMarker = keyOf(nm);
        if ((m + 1) % 3 == 0) l.template Unset<P>();
        else if (me.rng.chance(1, 2)) l.template Set<P>(P{m + 1});
        else l.template Get<P>().m = m + 1;
        r.changes.push_back({keyOf(nm), 0, 0});
        r.wroteM = true;
        auto ensureVer = [&](auto *tp) -> uint32_t { // the number of this commit for a component, bumping the head once
            using T = std::remove_pointer_t<decltype(tp)>;
            constexpr int x = Cx<T>::x;
            if (!r.wrote[x]) {
                uint32_t next = Cx<T>::get(run.fixed[0].Get<const T>(l)) + 1;
                run.fixed[0].Set<T>(l, Cx<T>::make(next));
                r.wr[x].push_back(keyOf(run.fixed[0]));
                r.wrote[x] = true;
                return next;
            }
            return Cx<T>::get(run.fixed[0].Get<const T>(l));
        };
        std::set<Key> fresh{r.newMarker};
        int n = 1 + me.rng.below(3);
        for (int i = 0; i < n; i++) {
            int op = me.rng.below(4);
            std::vector<Entity> extra;
            for (auto &e : l.Entities())
                if (e && !std::count(run.fixedKeys.begin(), run.fixedKeys.end(), keyOf(e)) && !fresh.count(keyOf(e))) extra.push_back(e);
            auto addComp = [&](Entity e, auto *tp) {
                using T = std::remove_pointer_t<decltype(tp)>;
                uint32_t v = ensureVer((T *)0);
                e.Set<T>(l, Cx<T>::make(v));
                r.wr[Cx<T>::x].push_back(keyOf(e));
                r.changes.push_back({keyOf(e), 2, Cx<T>::x});
            };
            if ((op == 0 && extra.size() < 8) || extra.empty()) {
                Entity e = l.NewEntity();
                fresh.insert(keyOf(e));
                r.changes.push_back({keyOf(e), 0, 0});
                if (me.rng.chance(2, 3)) addComp(e, (A *)0);
                app_point("between writes");
                if (me.rng.chance(1, 2)) addComp(e, (B *)0);
                if (me.rng.chance(1, 3)) addComp(e, (C *)0);
            } else {
                Entity e = extra[me.rng.below(extra.size())];
                if (op == 1) {
                    r.changes.push_back({keyOf(e), 1, 0});
                    fresh.insert(keyOf(e));
                    e.Destroy(l);
                } else if (op == 2) {
                    fresh.insert(keyOf(e));
                    if (!e.Has<A>(l)) addComp(e, (A *)0);
                    else {
                        e.Unset<A>(l);
                        r.changes.push_back({keyOf(e), 3, XA});
                    }
                } else {
                    fresh.insert(keyOf(e));
                    if (!e.Has<B>(l)) addComp(e, (B *)0);
                    else {
                        e.Unset<B>(l);
                        r.changes.push_back({keyOf(e), 3, XB});
                    }
                }
            }
            app_point("between changes");
        }
        if (run.owned[NX].owner != me.id) r.own += "another transaction had add/remove permission meanwhile; ";
    }
}

template<typename L>
static void pollAll(Worker &me, const L &l, TxRec &r) {
    Lock<World> b = l;
    auto one = [&](int k, auto &o, auto e, auto val) {
        if (!o) return;
        r.polled[k] = true;
        while (o->Poll(b, e))
            r.events.push_back({k, Ev{(int)e.type, keyOf(e.entity), val(e)}});
    };
    one(0, me.oe, EntityEvent(), [](auto &) { return 0u; });
    one(1, me.oa, ComponentEvent<A>(), [](auto &e) { return Cx<A>::get(e.component); });
    one(2, me.ok, ComponentEvent<K>(), [](auto &e) { return (uint32_t)e.component.m; });
    one(3, me.ob, ComponentEvent<B>(), [](auto &e) { return Cx<B>::get(e.component); });
    one(4, me.op, ComponentEvent<P>(), [](auto &e) { return (uint32_t)e.component.m; });
}

template<typename T, typename L>
static std::unique_ptr<Lock<World, Read<T>>> narrow(const L &l) {
    return std::make_unique<Lock<World, Read<T>>>(l);
}

template<typename PL>
static void runTx(Worker &me, int kind) {
    Run &run = *me.run;
    using L = typename PL::L;
    me.recs.emplace_back();
    TxRec &r = me.recs.back();
    r.thread = me.id;
    r.kind = kind;
    r.no = me.txno++;
    r.W[XA] = is_write_allowed<A, L>();
    r.W[XB] = is_write_allowed<B, L>();
    r.W[XC] = is_write_allowed<C, L>();
    r.W[XG] = is_write_allowed<G, L>();
    r.R[XA] = is_read_allowed<A, L>();
    r.R[XB] = is_read_allowed<B, L>();
    r.R[XC] = is_read_allowed<C, L>();
    r.R[XG] = is_read_allowed<G, L>();
    r.ar = is_add_remove_allowed<L>();
    try {
        // locks that may outlive the original
        std::unique_ptr<L> copy;
        std::unique_ptr<Lock<World>> base;
        std::unique_ptr<Lock<World, Read<A>>> ra;
        r.t[0] = now();
        try {
            L l = PL::start(run.w);
            r.t[1] = now();
            app_point("started");
            see(l, run, r.s, false);
            if (me.rng.chance(1, 2)) {
                askHandles(me, l, r.s, false, r);
                if (me.rng.chance(1, 2)) remember(me, l.Entities());
            }
            app_point("body");
            doAddRemove(me, l, r);
            if (!r.ar) {
                if (me.rng.chance(1, 2)) {
                    doWrite<A>(me, l, r);
                    app_point("between writes");
                    doWrite<B>(me, l, r);
                } else {
                    doWrite<B>(me, l, r);
                    app_point("between writes");
                    doWrite<A>(me, l, r);
                }
                doWrite<C>(me, l, r);
                doWrite<G>(me, l, r);
            }
            if (me.run->c.observers && me.rng.chance(1, 2)) pollAll(me, l, r);
            app_point("body");
            // the snapshot is still the same
            if (me.rng.chance(2, 3)) {
                Snap again;
                if (me.rng.chance(1, 2)) {
                    see(l, run, again, true);
                    askHandles(me, l, r.s, true, r);
                } else {
                    see(l.ReadOnlySubset(), run, again, false);
                    if (me.rng.chance(1, 2)) askHandles(me, l.ReadOnlySubset(), r.s, false, r);
                }
                if (!(again == r.s)) {
                    r.unrepeatable = "second look differs:";
                    for (int i = 0; i < NX; i++)
                        if (!(again.x[i] == r.s.x[i])) r.unrepeatable += fmt(" %s@%u was @%u", xn[i], again.x[i].ver, r.s.x[i].ver);
                    if (again.marker != r.s.marker || again.ents != r.s.ents) r.unrepeatable += " entity lists";
                    if (again.p != r.s.p || again.pv != r.s.pv) r.unrepeatable += " existence or value of global P";
                    for (int i = 0; i < 3; i++)
                        if (again.with[i] != r.s.with[i]) r.unrepeatable += fmt(" list of %s", xn[i]);
                }
            }
            int how = me.rng.below(8);
            if (how == 0) copy = std::make_unique<L>(l);
            if (how == 1 || how == 0) base = std::make_unique<Lock<World>>(l);
            if constexpr (is_read_allowed<A, L>()) {
                if (how == 2) ra = std::make_unique<Lock<World, Read<A>>>(l);
            }
            if (!copy && !base && !ra) {
                r.t[2] = now();
                if (how == 3) throw BodyExit();
            }
        } catch (const BodyExit &) {}
        if (copy || base || ra) { // the transaction is still open
            app_point("first lock gone");
            if (copy) {
                if (r.wrote[XA] && !r.ar) {
                    if constexpr (is_write_allowed<A, L>()) {
                        uint32_t v = Cx<A>::get(run.fixed[0].Get<const A>(*copy));
                        if (v != r.s.x[XA].ver + 1) r.own += "own write lost after the first lock was released; ";
                    }
                }
                copy.reset();
                app_point("second lock gone");
            }
            if (ra) { // a narrowed lock of a writing transaction shows the committed or the written value, never another one
                uint32_t v = Cx<A>::get(run.fixed[0].Get<const A>(*ra));
                if (v != r.s.x[XA].ver && !(r.wrote[XA] && v == r.s.x[XA].ver + 1)) r.own += "a derived lock shows another transaction's value; ";
            }
            r.t[2] = now();
            ra.reset();
            base.reset();
        }
        r.t[3] = now();
        sched_progress();
        Watchdog::kick();
    } catch (const std::exception &e) {
        me.error = std::string(kindName[kind]) + ": " + e.what();
        r.t[3] = now();
        if (!r.t[2]) r.t[2] = r.t[3];
    }
    app_point("idle");
}

using TxFn = void (*)(Worker &, int);
static const TxFn kindFn[] = {
#define X(i, n, ...) runTx<PermL<__VA_ARGS__>>,
    KINDS(X)
#undef X
};

static int pickKind(Rng &r, int profile) {
    static const int mixes[][12] = {
        {0, 1, 2, 4, 5, 6, 7, 8, 10, 11, 11, 9},    // everything
        {1, 1, 2, 6, 6, 4, 5, 3, 6, 16, 16, 1},     // readers of pairs against writers of pairs
        {4, 4, 7, 8, 5, 4, 6, 15, 10, 10, 13, 16},  // writers
        {11, 11, 11, 2, 3, 12, 1, 0, 11, 6, 4, 14}, // structure
        {7, 8, 7, 8, 7, 8, 13, 13, 2, 4, 5, 10},    // crossing read and write sets
        {12, 12, 11, 11, 3, 9, 13, 15, 2, 14, 0, 11},
    };
    return mixes[profile % 6][r.below(12)];
}

// The first transactions of an instance, at the same time.
static void coldStart(Worker &me) {
    World &w = *me.run->cold;
    try {
        if (me.rng.chance(1, 4)) {
            auto l = w.StartTransaction<Read<A, G>>();
            for (auto &e : l.EntitiesWith<A>())
                if (!e.Has<A>(l) || e.Get<A>(l).v != 5) me.error = "an entity of a fresh instance is listed but not complete";
            if (l.Has<G>() && Cx<G>::get(l.Get<G>()) == TORN) me.error = "torn global in a fresh instance";
            return;
        }
        auto l = w.StartTransaction<AddRemove>();
        me.coldObs = std::make_unique<Observer<World, EntityEvent>>(l.Watch<EntityEvent>());
        Entity e = l.NewEntity();
        app_point("between writes");
        e.Set<A>(l, Cx<A>::make(5));
        l.Set<G>(Cx<G>::make((uint32_t)me.id));
        me.run->coldAdders++;
    } catch (std::exception &e) {
        me.error = std::string("first transactions: ") + e.what();
    }
}
static void coldCheck(Run &r, const std::string &where) {
    auto l = r.cold->StartTransaction<ReadAll>();
    size_t n = (size_t)r.coldAdders.load();
    Report::count("cold_starts");
    if (l.Entities().size() != n || l.EntitiesWith<A>().size() != n)
        Report::violation("C02 C04 C01", "cold-lost", fmt("%zu first transactions created an entity each, %zu exist", n, l.Entities().size()), where);
    std::vector<std::vector<Ev>> all;
    for (auto &w : r.ws) {
        if (!w->coldObs) continue;
        std::vector<Ev> v;
        EntityEvent e;
        while (w->coldObs->Poll(l, e))
            v.push_back({(int)e.type, keyOf(e.entity), 0});
        all.push_back(v);
    }
    std::sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.size() < b.size(); });
    for (size_t i = 0; i < all.size(); i++) {
        bool ok = all[i].size() == i + 1;
        for (size_t k = 0; ok && k <= i; k++)
            ok = all[i][all[i].size() - 1 - k] == all.back()[all.back().size() - 1 - k] && all[i][k].type == (int)EventType::ADDED;
        if (!ok) {
            Report::violation("C08", "cold-events", fmt("observers of %zu first transactions of an instance: no. %zu has %zu events, or others than the next", n, i, all[i].size()), where);
            break;
        }
    }
}

static void workerMain(Worker &me) {
    Run &run = *me.run;
    if (run.cold) coldStart(me);
    for (int i = 0; i < run.c.txs && me.error.empty(); i++)
        {
        int k = pickKind(me.rng, run.c.profile);
        kindFn[k](me, k);
    }
}

// ---- the offline checker -----------------------------------------------------------------------------------------------
struct Checker {
    Run &r;
    std::vector<const TxRec *> all;
    std::map<uint32_t, const TxRec *> byVer[NX];
    std::vector<const TxRec *> mTx; // by metadata version; [0] null
    std::map<Key, uint32_t> mOf;
    struct MSt {
        std::map<Key, unsigned> ents; // key -> component mask (bit XA..XC, bit 3 = K)
    };
    std::vector<MSt> mst;
    std::map<Key, std::vector<uint32_t>> hist[3];
    std::string where, prog;
    int n = 0;

    Checker(Run &r, const std::string &where) : r(r), where(where) {}
    static std::string name(const TxRec *t) {
        return t ? fmt("t%d.%d<%s>", t->thread, t->no, kindName[t->kind]) : "(initial)";
    }
    void bad(const std::string &tags, const std::string &sig, const std::string &msg) {
        if (++n > 6) return;
        std::string log;
        std::vector<const TxRec *> s = all;
        std::sort(s.begin(), s.end(), [](auto *a, auto *b) { return a->t[0] < b->t[0]; });
        size_t k = 0;
        for (auto *t : s) {
            if (k++ > 60) break;
            log += name(t) + fmt(" [%llu %llu | %llu %llu] saw", (unsigned long long)t->t[0], (unsigned long long)t->t[1], (unsigned long long)t->t[2], (unsigned long long)t->t[3]);
            for (int x = 0; x < NX; x++)
                if (t->s.x[x].has) log += fmt(" %s@%u%s", xn[x], t->s.x[x].ver, t->wrote[x] ? " wrote" : "");
            auto i = mOf.find(t->s.marker);
            log += i == mOf.end() ? " M@?" : fmt(" M@%u%s", i->second, t->wroteM ? " wrote" : "");
            log += "\n";
        }
        Report::violation(tags, sig, msg, where, log);
    }
    uint32_t valueAt(int x, Key e, uint32_t ver) {
        auto i = hist[x].find(e);
        if (i == hist[x].end()) return 0;
        uint32_t best = 0;
        auto j = std::upper_bound(i->second.begin(), i->second.end(), ver);
        if (j != i->second.begin()) best = *(j - 1);
        return best;
    }
    bool run() {
        for (auto &w : r.ws) {
            if (!w->error.empty()) bad("*", "unexpected-exception", "unexpected exception: " + w->error);
            for (auto &t : w->recs)
                all.push_back(&t);
        }
        all.push_back(&r.fin);
        if (n) return false;
        // own view
        for (auto *t : all) {
            if (!t->own.empty()) {
                bool excl = t->own.find("permission") != std::string::npos;
                bad(excl ? "C02 C12" : "C03 C02 C17", excl ? "not-exclusive" : "own-write", name(t) + ": " + t->own);
            }
            if (!t->handles.empty()) bad("C06 C01 C03 C07", "handles", name(t) + ": " + t->handles + ", the lists say otherwise");
            if (!t->unrepeatable.empty()) bad("C01 C03 C17", "unrepeatable", name(t) + ": " + t->unrepeatable);
        }
        // chains
        for (auto *t : all)
            for (int x = 0; x < NX; x++) {
                if (t->s.x[x].has && t->s.x[x].ver == TORN) {
                    bad("C01 C12 C05", "torn-value", name(t) + " saw a torn value of " + xn[x]);
                    return false;
                }
                if (t->s.x[x].has && (t->s.x[x].ver & DIRTY)) {
                    bad("C03 C01", "dirty-read", name(t) + " saw an uncommitted value of " + xn[x]);
                    return false;
                }
                if (!t->wrote[x]) continue;
                uint32_t v = t->s.x[x].ver + 1;
                auto ins = byVer[x].emplace(v, t);
                if (!ins.second) bad("C02 C04", "lost-update", fmt("%s and %s both committed version %u of %s", name(ins.first->second).c_str(), name(t).c_str(), v, xn[x]));
            }
        if (n) return false;
        for (int x = 0; x < NX; x++) {
            uint32_t want = 1;
            for (auto &kv : byVer[x]) {
                if (kv.first != want) bad("C02 C04", "chain-gap", fmt("version %u of %s was never committed, but %u was by %s", want, xn[x], kv.first, name(kv.second).c_str()));
                want = kv.first + 1;
            }
            if (r.fin.s.x[x].ver + 1 != want) bad("C04 C02 C05", "final-value", fmt("%s ends at version %u, but %u was committed", xn[x], r.fin.s.x[x].ver, want - 1));
        }
        if (n) return false;
        // metadata chain
        mOf[r.initial.marker] = 0;
        mTx.push_back(nullptr);
        {
            std::map<Key, const TxRec *> next; // marker seen -> writer
            size_t writers = 0;
            for (auto *t : all)
                if (t->wroteM) {
                    writers++;
                    auto ins = next.emplace(t->s.marker, t);
                    if (!ins.second) bad("C02 C04 C06", "lost-structure", fmt("%s and %s both replaced the same marker entity", name(ins.first->second).c_str(), name(t).c_str()));
                }
            if (n) return false;
            Key k = r.initial.marker;
            while (next.count(k)) {
                auto *t = next[k];
                next.erase(k);
                k = t->newMarker;
                if (mOf.count(k)) {
                    bad("C06", "handle-reused", "the handle of a marker entity was handed out twice");
                    return false;
                }
                mOf[k] = (uint32_t)mTx.size();
                mTx.push_back(t);
            }
            if (mTx.size() != writers + 1) bad("C02 C04", "structure-chain", fmt("%zu of %zu add/remove commits form a chain", mTx.size() - 1, writers));
        }
        if (n) return false;
        for (auto *t : all) {
            auto i = mOf.find(t->s.marker);
            if (i == mOf.end()) {
                bad("C01 C03 C07", "unknown-marker", name(t) + fmt(" saw an unknown or ambiguous marker entity (%llx)", (unsigned long long)t->s.marker));
                return false;
            }
            if ((t->kind == 3 || t->kind == 11) && t->s.km != i->second)
                bad("C01 C05", "marker-value", name(t) + fmt(" saw marker %u with value %u", i->second, t->s.km));
            if (t->s.p != (i->second % 3 != 0) || ((t->kind == 3 || t->kind == 11 || t->kind == 10 || t->kind == 13) && t->s.p && t->s.pv != i->second))
                bad("C01 C20 C04", "global-presence", name(t) + fmt(" saw global P %s (value %llu) at structure version %u", t->s.p ? "existing" : "missing", (unsigned long long)t->s.pv, i->second));
        }
        auto mv = [&](const TxRec *t) { return mOf[t->s.marker]; };
        if (mv(&r.fin) + 1 != mTx.size()) bad("C04 C02", "final-structure", "the last add/remove commit is not in the final state");
        // expected contents
        for (int x = 0; x < 3; x++)
            for (auto &kv : byVer[x])
                for (auto e : kv.second->wr[x]) {
                    auto &h = hist[x][e];
                    if (h.empty() || h.back() != kv.first) h.push_back(kv.first);
                }
        {
            MSt s;
            for (auto e : r.initial.ents)
                s.ents[e] = 0;
            for (int x = 0; x < 3; x++)
                for (auto e : r.initial.with[x])
                    s.ents[e] |= 1u << x;
            s.ents[r.initial.marker] |= 8;
            mst.push_back(s);
            for (size_t m = 1; m < mTx.size(); m++) {
                for (auto &c : mTx[m]->changes) {
                    if (c.kind == 0) s.ents[c.e] = 0;
                    else if (c.kind == 1) s.ents.erase(c.e);
                    else if (c.kind == 2) s.ents[c.e] |= 1u << c.x;
                    else s.ents[c.e] &= ~(1u << c.x);
                }
                s.ents[mTx[m]->newMarker] |= 8;
                mst.push_back(s);
            }
        }
        uint64_t contents = 0;
        for (auto *t : all) {
            const MSt &s = mst[mv(t)];
            std::vector<Key> ents, with[3];
            for (auto &kv : s.ents) {
                ents.push_back(kv.first);
                for (int x = 0; x < 3; x++)
                    if (kv.second & (1u << x)) with[x].push_back(kv.first);
            }
            if (ents != t->s.ents) bad("C01 C07 C04", "entities", name(t) + fmt(" saw %zu entities at structure version %u, expected %zu", t->s.ents.size(), mv(t), ents.size()));
            for (int x = 0; x < 3; x++)
                if (with[x] != t->s.with[x]) bad("C01 C07 C04", "entity-list", name(t) + fmt(" saw %zu entities with %s at structure version %u, expected %zu", t->s.with[x].size(), xn[x], mv(t), with[x].size()));
            for (int x = 0; x < 3; x++) {
                if (!t->s.x[x].has) continue;
                uint32_t v = t->s.x[x].ver;
                size_t i = 0;
                bool ok = t->s.x[x].content.size() == with[x].size();
                std::string diff;
                for (auto e : with[x]) {
                    if (!ok) break;
                    auto &c = t->s.x[x].content[i++];
                    uint32_t want = valueAt(x, e, v);
                    if (c.first != e || c.second != want) {
                        ok = false;
                        diff = fmt(" (entity %llx has %u, expected %u)", (unsigned long long)c.first, c.second, want);
                    }
                    contents++;
                }
                if (!ok) bad(std::string("C01 C04 C05 C03") + (t->W[x] ? " C02" : ""), "content", name(t) + fmt(" saw wrong contents of %s at version %u, structure %u", xn[x], v, mv(t)) + diff);
            }
            if (n > 4) return false;
        }
        Report::count("values_checked", contents);
        // isolation and exclusion in real time
        for (auto *t : all) {
            auto chk = [&](const TxRec *w, const std::string &what) {
                if (w && w != t && w->t[2] > t->t[1]) bad("C03 C17 C01", "visible-before-end", name(t) + " saw " + what + " of " + name(w) + ", which had not begun to end");
            };
            for (int x = 0; x < NX; x++)
                if (t->s.x[x].has && t->s.x[x].ver) chk(byVer[x][t->s.x[x].ver], fmt("%s@%u", xn[x], t->s.x[x].ver));
            if (mv(t)) chk(mTx[mv(t)], fmt("structure %u", mv(t)));
        }
        uint64_t overl = 0;
        for (int x = 0; x <= NX; x++) {
            std::vector<const TxRec *> ws;
            for (auto *t : all)
                if (x == NX ? t->ar : t->W[x]) ws.push_back(t);
            std::sort(ws.begin(), ws.end(), [](auto *a, auto *b) { return a->t[1] < b->t[1]; });
            for (size_t i = 1; i < ws.size(); i++)
                if (ws[i]->t[1] < ws[i - 1]->t[2])
                    bad("C02 C17", "writers-overlap", fmt("%s and %s held %s permission for %s at the same time", name(ws[i - 1]).c_str(), name(ws[i]).c_str(), x == NX ? "add/remove" : "write", x == NX ? "the structure" : xn[x]));
        }
        graph(false);
        if (!n) graph(true);
        events();
        // how much really ran at the same time
        std::vector<const TxRec *> s = all;
        std::sort(s.begin(), s.end(), [](auto *a, auto *b) { return a->t[0] < b->t[0]; });
        for (size_t i = 0; i < s.size(); i++)
            for (size_t j = i + 1; j < s.size() && j < i + 40 && s[j]->t[0] < s[i]->t[3]; j++)
                overl++;
        Report::count("overlapping_pairs", overl);
        return n == 0;
    }
    // Snapshot and commit events of all transactions must fit one order.
    void graph(bool realtime) {
        size_t N = all.size();
        std::map<const TxRec *, int> id;
        for (size_t i = 0; i < N; i++)
            id[all[i]] = (int)i;
        std::vector<uint64_t> times;
        if (realtime) {
            for (auto *t : all)
                times.push_back(t->t[3]);
            std::sort(times.begin(), times.end());
        }
        size_t V = 2 * N + times.size();
        std::vector<std::vector<int>> out(V);
        std::vector<int> indeg(V, 0);
        auto edge = [&](size_t a, size_t b) {
            out[a].push_back((int)b);
            indeg[b]++;
        };
        auto S = [&](const TxRec *t) { return (size_t)id[t]; };
        auto E = [&](const TxRec *t) { return N + id[t]; };
        auto dep = [&](const TxRec *t, const TxRec *of, const TxRec *nextw, bool self) {
            if (of) edge(E(of), S(t));
            if (nextw && !self) edge(S(t), E(nextw));
        };
        for (auto *t : all) {
            edge(S(t), E(t));
            for (int x = 0; x < NX; x++)
                if (t->s.x[x].has) {
                    uint32_t v = t->s.x[x].ver;
                    auto a = byVer[x].find(v), b = byVer[x].find(v + 1);
                    dep(t, a == byVer[x].end() ? nullptr : a->second, b == byVer[x].end() ? nullptr : b->second,
                        b != byVer[x].end() && b->second == t);
                }
            uint32_t m = mOf[t->s.marker];
            dep(t, mTx[m], m + 1 < mTx.size() ? mTx[m + 1] : nullptr, m + 1 < mTx.size() && mTx[m + 1] == t);
        }
        if (realtime) {
            for (size_t i = 0; i + 1 < times.size(); i++)
                edge(2 * N + i, 2 * N + i + 1);
            for (auto *t : all) {
                size_t i = std::lower_bound(times.begin(), times.end(), t->t[3]) - times.begin();
                edge(E(t), 2 * N + i); // ended at times[i]
                // everything that ended strictly before this one started
                size_t j = std::lower_bound(times.begin(), times.end(), t->t[0]) - times.begin();
                if (j > 0) edge(2 * N + j - 1, S(t));
            }
        }
        std::vector<int> q;
        for (size_t i = 0; i < V; i++)
            if (!indeg[i]) q.push_back((int)i);
        size_t done = 0;
        while (done < q.size())
            for (int o : out[q[done++]])
                if (!--indeg[o]) q.push_back(o);
        Report::count("graph_edges", V);
        if (q.size() == V) return;
        // name one cycle
        std::string cyc;
        size_t at = 0;
        while (at < V && !indeg[at])
            at++;
        std::map<int, int> prev;
        std::vector<int> st{(int)at};
        std::set<int> on;
        int x = (int)at, steps = 0;
        // follow predecessors that are on cycles: go forward inside the remaining graph
        std::vector<int> path;
        while (!on.count(x) && steps++ < 100000) {
            on.insert(x);
            path.push_back(x);
            int nx = -1;
            for (int o : out[x])
                if (indeg[o] > 0) nx = o;
            if (nx < 0) break;
            x = nx;
        }
        bool printing = false;
        int shown = 0;
        for (int p : path) {
            if (p == x) printing = true;
            if (!printing || p >= (int)(2 * N)) continue;
            if (shown++ < 14) cyc += (p < (int)N ? "start " : "commit ") + name(all[p % N]) + " -> ";
        }
        if (realtime) bad("C04 C01", "reordered", "no order of the transactions agrees with what they saw and with real time: " + cyc);
        else bad("C01 C04", "not-a-snapshot", "what the transactions saw fits no order of atomic commits: " + cyc);
    }
    void events() {
        // what each metadata commit must have sent
        struct Batch {
            std::vector<Ev> ev[5];
        };
        std::vector<Batch> bs(mTx.size());
        for (size_t m = 1; m < mTx.size(); m++) {
            auto &o = mst[m - 1].ents, &nn = mst[m].ents;
            auto *t = mTx[m];
            auto val = [&](int x, Key e, bool after) {
                uint32_t v = t->s.x[x].ver + (after && t->wrote[x] ? 1 : 0);
                return valueAt(x, e, v);
            };
            auto diff = [&](int k, unsigned bit, auto f) {
                for (auto &kv : o) {
                    bool was = !bit || (kv.second & bit);
                    auto i = nn.find(kv.first);
                    bool is = i != nn.end() && (!bit || (i->second & bit));
                    if (was && !is) bs[m].ev[k].push_back({(int)EventType::REMOVED, kv.first, f(kv.first, false)});
                }
                for (auto &kv : nn) {
                    bool is = !bit || (kv.second & bit);
                    auto i = o.find(kv.first);
                    bool was = i != o.end() && (!bit || (i->second & bit));
                    if (is && !was) bs[m].ev[k].push_back({(int)EventType::ADDED, kv.first, f(kv.first, true)});
                }
            };
            diff(0, 0, [](Key, bool) { return 0u; });
            diff(1, 1, [&](Key e, bool a) { return val(XA, e, a); });
            diff(2, 8, [&](Key, bool a) { return (uint32_t)(a ? m : m - 1); });
            diff(3, 2, [&](Key e, bool a) { return val(XB, e, a); });
            bool was = (m - 1) % 3 != 0, is = m % 3 != 0;
            if (was && !is) bs[m].ev[4].push_back({(int)EventType::REMOVED, 0, (uint32_t)(m - 1)});
            if (is && !was) bs[m].ev[4].push_back({(int)EventType::ADDED, 0, (uint32_t)m});
        }
        uint64_t got = 0;
        for (auto &w : r.ws) {
            uint32_t last[5] = {0, 0, 0, 0, 0};
            for (auto &t : w->recs) {
                uint32_t m = mOf[t.s.marker];
                for (int k = 0; k < 5; k++) {
                    if (t.watched & (1u << k)) last[k] = m;
                    if (!t.polled[k]) continue;
                    std::vector<Ev> seen;
                    for (auto &e : t.events)
                        if (e.first == k) seen.push_back(e.second);
                    size_t i = 0;
                    std::string err;
                    for (uint32_t mm = last[k] + 1; mm <= m && err.empty(); mm++) {
                        std::vector<Ev> want = bs[mm].ev[k];
                        size_t cnt = want.size();
                        for (size_t q = 0; q < cnt; q++, i++) {
                            if (i >= seen.size()) {
                                err = fmt("misses an event of structure version %u (type %d entity %llx value %u)", mm, want[0].type, (unsigned long long)want[0].e, want[0].v);
                                break;
                            }
                            auto f = std::find(want.begin(), want.end(), seen[i]);
                            if (f == want.end()) {
                                err = fmt("has an event that does not belong to structure version %u (type %d entity %llx value %u)", mm, seen[i].type, (unsigned long long)seen[i].e, seen[i].v);
                                break;
                            }
                            want.erase(f);
                        }
                    }
                    if (err.empty() && i < seen.size()) err = fmt("has %zu events too many", seen.size() - i);
                    got += seen.size();
                    if (!err.empty()) bad(k == 4 ? "C08 C20 C01" : "C08 C01", "events", name(&t) + std::string(": ") + okn[k] + " polled at structure version " + std::to_string(m) + " (last at " + std::to_string(last[k]) + ") " + err);
                    last[k] = m;
                }
            }
        }
        Report::count("events_received", got);
    }
};

// ---- a pool of threads that survives the runs ------------------------------------------------------------------------

static std::string initialEntities(Run &r) {
    try {
        auto l = r.w.StartTransaction<AddRemove>();
        for (int i = 0; i < r.c.fixed; i++) {
            Entity e = l.NewEntity();
            e.Set<A>(l, Cx<A>::make(0));
            e.Set<B>(l, Cx<B>::make(0));
            e.Set<C>(l, Cx<C>::make(0));
            r.fixed.push_back(e);
            r.fixedKeys.push_back(keyOf(e));
        }
        Entity m = l.NewEntity();
        m.Set<K>(l, K{0});
        l.Set<G>(Cx<G>::make(0));
        for (size_t i = 0; i < r.ws.size(); i++) {
            auto &w = *r.ws[i];
            if (!r.c.observers) break;
            if (i % 2 == 0) w.oe = std::make_unique<Observer<World, EntityEvent>>(l.Watch<EntityEvent>());
            if (i % 3 != 1) w.oa = std::make_unique<Observer<World, ComponentEvent<A>>>(l.Watch<ComponentEvent<A>>());
            if (i % 2 == 1) w.ok = std::make_unique<Observer<World, ComponentEvent<K>>>(l.Watch<ComponentEvent<K>>());
            if (i % 3 != 2) w.op = std::make_unique<Observer<World, ComponentEvent<P>>>(l.Watch<ComponentEvent<P>>());
            if (i == 1) w.ob = std::make_unique<Observer<World, ComponentEvent<B>>>(l.Watch<ComponentEvent<B>>());
        }
    } catch (const std::exception &e) {
        return e.what();
    }
    auto l = r.w.StartTransaction<ReadAll>();
    see(l, r, r.initial, false);
    // events of the setup
    for (auto &w : r.ws) {
        TxRec dummy;
        pollAll(*w, l, dummy);
    }
    return "";
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), runs = a.num("runs", 10);
    int threads = (int)a.num("threads", 4), txs = (int)a.num("txs", 4), fixed = (int)a.num("fixed", 3);
    bool sch = a.has("sched");
    sched_trace = a.has("trace");
    double secs = atof(a.str("secs", "0").c_str());
    if (!sch) sched_delays((unsigned)a.num("delay-den", 40), (unsigned)a.num("delay-us", 30));
    Watchdog::start((int)a.num("watchdog", 60));
    Watchdog::what() = "concurrent run";
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<uint64_t> hashes;
    {
        auto pool = std::make_unique<Pool>(threads);
        uint64_t sumSteps = 0, okRuns = 0;
        for (uint64_t n = first; n < first + runs; n++) {
            if (secs > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            Rng rng(mix64(seed * 7919 + n) + 1);
            auto run = std::make_unique<Run>();
            run->c.seed = rng.next();
            run->c.threads = threads;
            run->c.txs = sch ? 1 + (int)rng.below((uint64_t)txs) : txs;
            run->c.fixed = 1 + (int)rng.below((uint64_t)fixed);
            run->c.sched = sch;
            run->c.profile = (int)rng.below(6);
            run->c.observers = !a.has("no-observers") && rng.chance(2, 3);
            for (int i = 0; i < threads; i++) {
                run->ws.push_back(std::make_unique<Worker>());
                run->ws[i]->run = run.get();
                run->ws[i]->id = i;
                run->ws[i]->rng = Rng(rng.next());
                run->ws[i]->recs.reserve((size_t)run->c.txs);
            }
            std::string where = fmt("seed=%llu run=%llu", (unsigned long long)seed, (unsigned long long)n);
            if (rng.chance(1, sch ? 4 : 2)) run->cold = std::make_unique<World>();
            std::string err = initialEntities(*run);
            if (!err.empty()) {
                Report::violation("*", "unexpected-exception", "setup: " + err, where);
                break;
            }
            int res = RUN_OK;
            if (sch) {
                sched_cfg c = {};
                c.nthreads = threads;
                c.seed = rng.next();
                int p = (int)rng.below(10);
                c.policy = p < 6 ? SCHED_PCT : SCHED_RANDOM;
                c.pct_depth = 1 + (int)rng.below(6);
                c.pct_steps = okRuns ? sumSteps / okRuns + 1 : 1500;
                static const int dens[] = {2, 4, 10, 30};
                c.switch_den = dens[rng.below(4)];
                c.spurious_den = rng.chance(1, 5) ? 200 : 0;
                c.mem_den = rng.chance(1, 3) ? 40 : 0;
                c.max_steps = 300000;
                sched_begin(&c);
                pool->start([&](int i) {
                    sched_enter(i);
                    workerMain(*run->ws[i]);
                    sched_exit_();
                });
                res = sched_wait();
                if (res == RUN_OK) {
                    pool->wait();
                    sumSteps += sched_steps();
                    okRuns++;
                    hashes.insert(sched_trace_hash());
                    Report::count("sched_points", sched_steps());
                    Report::count("sched_switches", sched_switches());
                    Report::count(c.policy == SCHED_PCT ? "pct_runs" : "random_runs");
                } else {
                    char d[2000];
                    sched_describe(d, sizeof d);
                    std::string log;
                    for (auto &w : run->ws)
                        log += fmt("thread %d: %zu transactions begun, last <%s>\n", w->id, w->recs.size(), w->recs.empty() ? "-" : kindName[w->recs.back().kind]);
                    if (res == RUN_DEADLOCK) Report::violation("C09", "deadlock", std::string("no thread can go on: ") + d, where, log);
                    else if (res == RUN_LIVELOCK) Report::violation("C09", "livelock", std::string("threads run without getting anywhere: ") + d, where, log);
                    else {
                        fprintf(stderr, "stalled outside the scheduler's control: %s\n", d);
                        Report::finish();
                        fflush(stdout);
                        _exit(4);
                    }
                    Report::finish();
                    _exit(0);
                }
            } else {
                pool->start([&](int i) { workerMain(*run->ws[i]); });
                pool->wait();
            }
            // final state
            {
                TxRec &f = run->fin;
                f.thread = threads;
                f.kind = 3;
                for (int x = 0; x < NX; x++)
                    f.R[x] = true;
                f.t[0] = ~0ull >> 1;
                f.t[1] = f.t[2] = f.t[3] = f.t[0] + 1;
                auto l = run->w.StartTransaction<ReadAll>();
                see(l, *run, f.s, false);
            }
            if (run->cold) coldCheck(*run, where);
            Checker ch(*run, where);
            bool ok = ch.run();
            for (auto &w : run->ws) {
                Report::count("transactions", w->recs.size());
                for (auto &t : w->recs) {
                    for (int x = 0; x < NX; x++)
                        if (t.wrote[x]) Report::count("component_commits");
                    if (t.wroteM) Report::count("structure_commits");
                    Report::count("snapshots");
                    Report::count("handles_asked", t.asked);
                    Report::count("observers_added", t.added);
                }
            }
            Report::count("runs");
            if (n == first) {
                std::string s = fmt("%s, %d threads, profile %d: ", where.c_str(), threads, run->c.profile);
                for (auto *t : ch.all)
                    s += Checker::name(t) + fmt(" saw A@%u B@%u; ", t->s.x[0].ver, t->s.x[1].ver);
                Report::sample(s.substr(0, 700));
            }
            if (!ok && Report::violations() > 10) break;
        }
    }
    Report::counters()["distinct_schedules"] = hashes.size();
    Report::counters()["hook_point_hits"] = sched_point_hits;
    Report::finish();
    if (Report::violations()) _exit(0);
    return 0;
}
