// The same guarantees at sizes the other workloads do not reach: tens of thousands of commits on one instance and of generations of
// one slot, more entities than 16 bits count, queues of a hundred thousand events, hundreds of observers, lock copies by the ten
// thousand, hundreds of threads with open transactions, hundreds of instances. A narrowed counter or a forgotten cap shows here.
#include "common.hh"

#include <Tecs.hh>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

struct A {
    uint64_t v = 0;
    A() {}
    A(uint64_t v) : v(v) {}
    bool operator==(const A &o) const { return v == o.v; }
};
struct B {
    uint64_t v = 0, w = 0;
    B() {}
    B(uint64_t v) : v(v), w(~v) {}
    bool operator==(const B &o) const { return v == o.v && w == o.w; }
};
struct G {
    uint64_t v = 0;
    bool operator==(const G &o) const { return v == o.v; }
};
template<>
struct Tecs::is_global_component<G> : std::true_type {};
using World = Tecs::ECS<A, B, G>;
using namespace Tecs;

static std::string where;
static void bad(const char *tags, const std::string &sig, const std::string &msg) {
    Report::violation(tags, "scale:" + sig, msg, where);
}
static uint64_t key(const Entity &e) { return (uint64_t)e; }

struct Ent {
    bool a = false, b = false;
    uint64_t av = 0, bv = 0;
};
struct AEv {
    EventType t;
    uint64_t k, v;
};

// ---- one instance with a long life ------------------------------------------------------------------------------------
static void history(uint64_t seed, size_t commits) {
    Rng rng(seed);
    World ecs;
    std::unordered_map<uint64_t, Ent> model;
    std::vector<Entity> alive;
    std::vector<Entity> ever;
    std::unordered_set<uint64_t> everKeys;
    std::deque<std::pair<EventType, uint64_t>> evE; // one event per kind and commit, at most
    std::vector<AEv> evA;
    Observer<World, EntityEvent> oe;
    Observer<World, ComponentEvent<A>> oa;
    {
        auto l = ecs.StartTransaction<AddRemove>();
        oe = l.Watch<EntityEvent>();
        oa = l.Watch<ComponentEvent<A>>();
        l.Set<G>(G{0});
    }
    uint64_t val = 1, g = 0, maxGen = 0;
    for (size_t n = 0; n < commits; n++) {
        if (n % 256 == 0) Watchdog::kick();
        unsigned kind = n % 16 < 11 ? 0 : rng.below(3) ? 1 : 2;
        if (kind == 0) { // one out, one in
            auto l = ecs.StartTransaction<AddRemove>();
            // Additions and removals of one commit arrive in no promised order: at most one of each kind is made, and they are compared as pairs.
            if (alive.size() >= 3) {
                size_t i = rng.below(alive.size());
                Entity e = alive[i];
                auto &m = model[key(e)];
                if (m.a) evA.push_back({EventType::REMOVED, key(e), m.av});
                evE.push_back({EventType::REMOVED, key(e)});
                e.Destroy(l);
                model.erase(key(alive[i]));
                alive[i] = alive.back();
                alive.pop_back();
            }
            Entity e = l.NewEntity();
            if (!everKeys.insert(key(e)).second) return bad("C06", "handle-repeated", fmt("commit %zu: the new entity has the id %llx, which was given before", n, (unsigned long long)key(e)));
            ever.push_back(e);
            alive.push_back(e);
            maxGen = std::max<uint64_t>(maxGen, e.generation & 0xffffff);
            auto &m = model[key(e)];
            evE.push_back({EventType::ADDED, key(e)});
            if (rng.chance(2, 3)) {
                e.Set<A>(l, val);
                m.a = true;
                m.av = val++;
                evA.push_back({EventType::ADDED, key(e), m.av});
            }
            if (rng.chance(1, 2)) {
                e.Set<B>(l, val);
                m.b = true;
                m.bv = val++;
            }
        } else if (kind == 1) {
            auto l = ecs.StartTransaction<Write<A, B>>();
            for (auto &e : alive) {
                auto &m = model[key(e)];
                if (m.a && rng.chance(1, 2)) {
                    if (e.Get<const A>(l).v != m.av) return bad("C05 C04", "value", fmt("commit %zu: A of %llx is %llu, expected %llu", n, (unsigned long long)key(e), (unsigned long long)e.Get<const A>(l).v, (unsigned long long)m.av));
                    e.Set<A>(l, val);
                    m.av = val++;
                }
                if (m.b && rng.chance(1, 2)) {
                    e.Get<B>(l) = B(val);
                    m.bv = val++;
                }
            }
        } else {
            auto l = ecs.StartTransaction<Write<G>>();
            if (l.Get<G>().v != g) return bad("C20 C04", "global", fmt("commit %zu: the global is %llu, expected %llu", n, (unsigned long long)l.Get<G>().v, (unsigned long long)g));
            l.Set<G>(G{++g});
        }
        Report::count("scale_commits");
        if (n % 16 != 5 && n % 9973 != 0) continue;
        auto l = ecs.StartTransaction<ReadAll>();
        auto list = l.Entities();
        if (list.size() != alive.size()) return bad("C07 C05", "entities", fmt("commit %zu: %zu entities, expected %zu", n, list.size(), alive.size()));
        size_t na = 0, nb = 0;
        for (auto &e : alive) {
            auto &m = model[key(e)];
            na += m.a;
            nb += m.b;
            if (!e.Exists(l) || e.Has<A>(l) != m.a || e.Has<B>(l) != m.b) return bad("C06 C05", "exists", fmt("commit %zu: entity %llx: exists %d, A %d, B %d", n, (unsigned long long)key(e), e.Exists(l), e.Has<A>(l), e.Has<B>(l)));
            if (m.a && e.Get<A>(l).v != m.av) return bad("C05 C04", "value", fmt("commit %zu: A of %llx", n, (unsigned long long)key(e)));
            if (m.b && !(e.Get<B>(l) == B(m.bv))) return bad("C05 C04", "value", fmt("commit %zu: B of %llx", n, (unsigned long long)key(e)));
        }
        if (l.EntitiesWith<A>().size() != na || l.EntitiesWith<B>().size() != nb) return bad("C07", "list", fmt("commit %zu: lists of %zu and %zu entities, expected %zu and %zu", n, l.EntitiesWith<A>().size(), l.EntitiesWith<B>().size(), na, nb));
        if (l.Get<G>().v != g) return bad("C20 C04", "global", fmt("commit %zu: global", n));
        // handles of long ago, above all those a narrow generation would take for one of now
        auto gone = [&](const Entity &e) {
            Report::count("scale_old_handles");
            if (model.count(key(e))) return true;
            if (!e.Exists(l) && !e.Existed(l) && !e.Has<A>(l) && !e.Had<B>(l)) return true;
            bad("C06", "stale-handle", fmt("commit %zu: %llx exists although it was destroyed", n, (unsigned long long)key(e)));
            return false;
        };
        for (int i = 0; i < 6; i++)
            if (!gone(ever[rng.below(ever.size())])) return;
        for (auto &e : alive)
            for (uint64_t back : {1ull, 255ull, 256ull, 4096ull, 32768ull, 65535ull, 65536ull})
                if ((e.generation & 0xffffff) > back) {
                    Entity old = e;
                    old.generation -= (TECS_ENTITY_GENERATION_TYPE)back;
                    if (!gone(old)) return;
                }
        if (n % 9973 == 0)
            for (auto &e : ever)
                if (!gone(e)) return;
    }
    // a queue nobody looked at for all that time
    auto l = ecs.StartTransaction<>();
    EntityEvent ee;
    size_t got = 0, pending = evE.size();
    std::deque<std::pair<EventType, uint64_t>> window;
    while (oe.Poll(l, ee)) {
        got++;
        // removed and added of the same commit may come in either order
        while (window.size() < 2 && !evE.empty()) {
            window.push_back(evE.front());
            evE.pop_front();
        }
        auto it = std::find(window.begin(), window.end(), std::make_pair(ee.type, key(ee.entity)));
        if (it == window.end()) return bad("C08", "event-wrong", fmt("event %zu of %zu is type %d entity %llx", got, pending, (int)ee.type, (unsigned long long)key(ee.entity)));
        window.erase(it);
    }
    if (got != pending) return bad("C08", "event-lost", fmt("%zu of %zu entity events", got, pending));
    ComponentEvent<A> ea;
    size_t at = 0;
    std::deque<AEv> w2;
    size_t gotA = 0;
    while (oa.Poll(l, ea)) {
        gotA++;
        while (w2.size() < 2 && at < evA.size())
            w2.push_back(evA[at++]);
        auto it = std::find_if(w2.begin(), w2.end(), [&](const AEv &x) { return x.t == ea.type && x.k == key(ea.entity) && x.v == ea.component.v; });
        if (it == w2.end()) return bad("C08", "event-wrong", fmt("component event %zu of %zu is type %d entity %llx value %llu", gotA, evA.size(), (int)ea.type, (unsigned long long)key(ea.entity), (unsigned long long)ea.component.v));
        w2.erase(it);
    }
    if (gotA != evA.size()) return bad("C08", "event-lost", fmt("%zu of %zu component events", gotA, evA.size()));
    Report::count("scale_events", got + gotA);
    Report::count("scale_generations", maxGen);
}

// ---- more entities than 16 bits count ---------------------------------------------------------------------------------
static void many(uint64_t seed, size_t total) {
    Rng rng(seed);
    World ecs;
    std::unordered_map<uint64_t, Ent> model;
    std::vector<Entity> ents;
    Observer<World, EntityEvent> oe;
    Observer<World, ComponentEvent<A>> oa;
    std::unordered_map<uint64_t, int> evE;
    std::unordered_map<uint64_t, std::pair<int, uint64_t>> evA;
    {
        auto l = ecs.StartTransaction<AddRemove>();
        oe = l.Watch<EntityEvent>();
        oa = l.Watch<ComponentEvent<A>>();
    }
    auto check = [&](const char *what) {
        auto l = ecs.StartTransaction<ReadAll>();
        size_t na = 0, nb = 0;
        for (auto &kv : model)
            na += kv.second.a, nb += kv.second.b;
        auto list = [&](const EntityView &v, size_t want, std::function<bool(const Ent &)> in, const char *name) {
            if (v.size() != want) return bad("C07 C05", "list", fmt("%s: %zu %s, expected %zu", what, v.size(), name, want)), false;
            std::unordered_set<uint64_t> seen;
            for (auto &e : v) {
                auto i = model.find(key(e));
                if (i == model.end() || !in(i->second) || !seen.insert(key(e)).second) return bad("C07 C05", "list", fmt("%s: %s has %llx, which does not belong there or comes twice", what, name, (unsigned long long)key(e))), false;
            }
            Report::count("scale_listed", want);
            return true;
        };
        if (!list(l.Entities(), model.size(), [](const Ent &) { return true; }, "entities") || !list(l.EntitiesWith<A>(), na, [](const Ent &m) { return m.a; }, "with A") ||
            !list(l.EntitiesWith<B>(), nb, [](const Ent &m) { return m.b; }, "with B") || !list(l.PreviousEntities(), model.size(), [](const Ent &) { return true; }, "previous entities") ||
            !list(l.PreviousEntitiesWith<A>(), na, [](const Ent &m) { return m.a; }, "previously with A"))
            return false;
        for (auto &e : ents) {
            auto i = model.find(key(e));
            if (e.Exists(l) != (i != model.end())) return bad("C06 C05", "exists", fmt("%s: %llx exists: %d", what, (unsigned long long)key(e), e.Exists(l))), false;
            if (i == model.end()) continue;
            auto &m = i->second;
            if (e.Has<A>(l) != m.a || e.Has<B>(l) != m.b || (m.a && e.Get<A>(l).v != m.av) || (m.b && !(e.Get<B>(l) == B(m.bv))) || (m.a && e.GetPrevious<A>(l).v != m.av))
                return bad("C05 C04", "content", fmt("%s: contents of %llx", what, (unsigned long long)key(e))), false;
            Report::count("scale_contents");
        }
        EntityEvent ee;
        size_t n = 0;
        while (oe.Poll(l, ee)) {
            n++;
            auto i = evE.find(key(ee.entity));
            if (i == evE.end() || i->second != (int)ee.type) return bad("C08", "event-wrong", fmt("%s: event %zu", what, n)), false;
            evE.erase(i);
        }
        if (!evE.empty()) return bad("C08", "event-lost", fmt("%s: %zu entity events missing", what, evE.size())), false;
        ComponentEvent<A> ea;
        while (oa.Poll(l, ea)) {
            n++;
            auto i = evA.find(key(ea.entity));
            if (i == evA.end() || i->second.first != (int)ea.type || i->second.second != ea.component.v) return bad("C08", "event-wrong", fmt("%s: component event %zu", what, n)), false;
            evA.erase(i);
        }
        if (!evA.empty()) return bad("C08", "event-lost", fmt("%s: %zu component events missing", what, evA.size())), false;
        Report::count("scale_events", n);
        Watchdog::kick();
        return true;
    };
    uint64_t val = 1;
    std::vector<size_t> steps = {total * 2 / 5 + rng.below(100), total};
    for (size_t upto : steps) {
        {
            auto l = ecs.StartTransaction<AddRemove>();
            while (ents.size() < upto) {
                Entity e = l.NewEntity();
                ents.push_back(e);
                if (model.count(key(e))) return bad("C06", "handle-repeated", fmt("entity %zu", ents.size()));
                auto &m = model[key(e)];
                evE[key(e)] = (int)EventType::ADDED;
                if (rng.chance(2, 3)) {
                    m.a = true;
                    e.Set<A>(l, m.av = val++);
                    evA[key(e)] = {(int)EventType::ADDED, m.av};
                }
                if (rng.chance(1, 3)) {
                    m.b = true;
                    e.Set<B>(l, m.bv = val++);
                }
                if (ents.size() % 4096 == 0) Watchdog::kick();
            }
        }
        if (!check("after adding")) return;
    }
    { // write every one of them, through the list
        auto l = ecs.StartTransaction<Write<A>, Read<B>>();
        for (auto &e : l.EntitiesWith<A>()) {
            auto &m = model[key(e)];
            e.Get<A>(l).v = m.av = val++;
        }
    }
    if (!check("after writing all")) return;
    { // write a few: only those change
        auto l = ecs.StartTransaction<Write<A, B>>();
        for (int i = 0; i < 300; i++) {
            auto &e = ents[rng.below(ents.size())];
            auto &m = model[key(e)];
            if (m.a) e.Set<A>(l, m.av = val++);
            if (m.b) e.Set<B>(l, m.bv = val++);
        }
    }
    if (!check("after writing some")) return;
    for (unsigned part : {2u, 7u}) { // remove most of them, then create again
        {
            auto l = ecs.StartTransaction<AddRemove>();
            for (size_t i = 0; i < ents.size(); i++) {
                Entity e = ents[i];
                auto it = model.find(key(e));
                if (it == model.end()) continue;
                auto &m = it->second;
                if (rng.chance(1, part)) {
                    evE[key(e)] = (int)EventType::REMOVED;
                    if (m.a) evA[key(e)] = {(int)EventType::REMOVED, m.av};
                    model.erase(it);
                    e.Destroy(l);
                } else if (m.a && rng.chance(1, 9)) {
                    evA[key(e)] = {(int)EventType::REMOVED, m.av};
                    m.a = false;
                    e.Unset<A>(l);
                } else if (m.b && rng.chance(1, 9)) {
                    m.b = false;
                    e.Unset<B>(l);
                }
            }
        }
        if (!check("after removing")) return;
        {
            auto l = ecs.StartTransaction<AddRemove>();
            for (size_t i = 0; i < total / 3; i++) {
                Entity e = l.NewEntity();
                if (model.count(key(e))) return bad("C06", "handle-repeated", fmt("entity %zu", ents.size()));
                ents.push_back(e);
                auto &m = model[key(e)];
                evE[key(e)] = (int)EventType::ADDED;
                if (i % 2) {
                    m.b = true;
                    e.Set<B>(l, m.bv = val++);
                }
            }
        }
        if (!check("after adding again")) return;
    }
    Report::count("scale_entities", ents.size());
}

// ---- hundreds of observers ----------------------------------------------------------------------------------------------
static void observers(uint64_t seed, size_t n) {
    Rng rng(seed);
    World ecs;
    struct O {
        Observer<World, EntityEvent> e;
        Observer<World, ComponentEvent<A>> a;
        bool on = true;
        std::deque<uint64_t> expect;
    };
    std::vector<O> os;
    uint64_t val = 1;
    for (size_t round = 0; round < n; round++) {
        Watchdog::kick();
        {
            auto l = ecs.StartTransaction<AddRemove>();
            for (int i = 0; i < 3; i++) {
                os.emplace_back();
                os.back().e = l.Watch<EntityEvent>();
                os.back().a = l.Watch<ComponentEvent<A>>();
            }
            if (round > n / 2)
                for (int i = 0; i < 2; i++) {
                    auto &o = os[rng.below(os.size())];
                    if (!o.on) continue;
                    o.on = false;
                    o.e.Stop(l);
                    l.StopWatching(o.a);
                    o.expect.clear();
                }
            auto e = l.NewEntity();
            e.Set<A>(l, val);
            for (auto &o : os)
                if (o.on) o.expect.push_back(val);
            val++;
        }
        auto l = ecs.StartTransaction<>();
        for (auto &o : os) {
            if (o.on && (!(bool)o.e || !(bool)o.a)) return bad("C08", "observer-dead", fmt("round %zu: an observer that was not stopped is not valid", round));
            if (round + 1 < n && !rng.chance(1, 20)) continue;
            for (auto v : o.expect) {
                EntityEvent ee;
                ComponentEvent<A> ea;
                if (!o.e.Poll(l, ee) || !o.a.Poll(l, ea)) return bad("C08", "event-lost", fmt("round %zu: event of value %llu missing, with %zu observers", round, (unsigned long long)v, os.size()));
                if (ee.type != EventType::ADDED || ea.type != EventType::ADDED || ea.component.v != v || ea.entity != ee.entity)
                    return bad("C08", "event-wrong", fmt("round %zu: event of value %llu differs", round, (unsigned long long)v));
                Report::count("scale_events", 2);
            }
            o.expect.clear();
            EntityEvent ee;
            ComponentEvent<A> ea;
            if (o.e.Poll(l, ee) || o.a.Poll(l, ea)) return bad("C08", "event-extra", fmt("round %zu: an extra event, with %zu observers", round, os.size()));
        }
    }
    Report::count("scale_observers", os.size() * 2);
}

// ---- lock copies by the ten thousand ------------------------------------------------------------------------------------
static void copies(uint64_t seed, size_t n) {
    Rng rng(seed);
    World ecs;
    Entity e;
    {
        auto l = ecs.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, 1);
        e.Set<B>(l, 1);
        l.Set<G>(G{1});
    }
    for (int round = 0; round < 3; round++) {
        uint64_t v = 2 + (uint64_t)round;
        // something of another thread that must keep seeing the old value until the last copy is gone
        auto old = [&](const char *what) {
            uint64_t a = 0, g = 0;
            std::thread([&] {
                auto l = ecs.StartTransaction<Read<A, G>>();
                a = e.Get<A>(l).v;
                g = l.Get<G>().v;
            }).join();
            if (a == v - 1 && g == v - 1) return true;
            bad("C17 C03", "committed-early", fmt("%s: another thread sees A=%llu G=%llu of a transaction that is still open", what, (unsigned long long)a, (unsigned long long)g));
            return false;
        };
        std::vector<Lock<World, Write<A, G>>> same;
        std::vector<Lock<World, Read<A>>> narrow;
        std::vector<DynamicLock<World, Read<A>>> dyn;
        {
            auto l = ecs.StartTransaction<Write<A, G>, Read<B>>();
            Lock<World, Write<A, G>> w = l;
            e.Set<A>(l, v);
            l.Set<G>(G{v});
            for (size_t i = 0; i < n; i++) {
                switch (rng.below(3)) {
                case 0: same.push_back(w); break;
                case 1: narrow.push_back(l); break;
                default: dyn.push_back(DynamicLock<World, Read<A>>(l)); break;
                }
            }
            if ((size_t)l.UseCount() != n + 2) return bad("C17", "use-count", fmt("%ld uses after %zu copies", l.UseCount(), n));
        }
        if (!old("all copies")) return;
        std::vector<std::pair<int, size_t>> order;
        size_t left = same.size() + narrow.size() + dyn.size();
        Report::count("scale_lock_copies", left);
        // the last one of each kind in turn is the last to go
        while (left > 1) {
            unsigned k = rng.below(3);
            if (rng.chance(1, 5000) && !old("some copies dropped")) return;
            if (k == 0 && same.size() > (round == 0 ? 1u : 0u)) same.pop_back();
            else if (k == 1 && narrow.size() > (round == 1 ? 1u : 0u)) narrow.pop_back();
            else if (k == 2 && dyn.size() > (round == 2 ? 1u : 0u)) dyn.pop_back();
            else continue;
            left--;
            if (left % 1024 == 0) Watchdog::kick();
        }
        if (!old("all but one dropped")) return;
        if (!same.empty()) {
            if (same[0].UseCount() != 1 || e.Get<A>(same[0]).v != v) return bad("C17", "last-copy", "the last copy does not work");
            same.clear();
        } else if (!narrow.empty()) {
            if (narrow[0].UseCount() != 1) return bad("C17", "use-count", fmt("%ld uses of the last copy", narrow[0].UseCount()));
            narrow.clear();
        } else {
            if (dyn[0].UseCount() != 1) return bad("C17", "use-count", fmt("%ld uses of the last copy", dyn[0].UseCount()));
            dyn.clear();
        }
        uint64_t a = 0, g = 0;
        std::thread([&] {
            auto l = ecs.StartTransaction<Write<A, G>>();
            a = e.Get<A>(l).v;
            g = l.Get<G>().v;
        }).join();
        if (a != v || g != v) return bad("C17 C04", "not-committed", fmt("A=%llu G=%llu after the last copy is gone, expected %llu", (unsigned long long)a, (unsigned long long)g, (unsigned long long)v));
    }
}

// ---- hundreds of threads ------------------------------------------------------------------------------------------------
struct Gate {
    std::mutex m;
    std::condition_variable c;
    size_t n = 0;
    void add() {
        std::lock_guard<std::mutex> g(m);
        n++;
        c.notify_all();
    }
    void wait(size_t want) {
        std::unique_lock<std::mutex> l(m);
        while (n < want) {
            c.wait_for(l, std::chrono::milliseconds(200));
        }
    }
};
static void readers(uint64_t seed, size_t n) {
    Rng rng(seed);
    World ecs;
    Entity e;
    {
        auto l = ecs.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, 1);
        e.Set<B>(l, 0);
    }
    Gate in, go[2];
    std::vector<Gate> leave(n);
    std::atomic_bool committed{false};
    std::atomic<size_t> wrong{0}, early{0}, inside{n};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; i++)
        ts.emplace_back([&, i] {
            {
                auto l = ecs.StartTransaction<Read<A>>();
                if (e.Get<A>(l).v != 1) wrong++;
                in.add();
                leave[i].wait(1);
                if (committed) early++;
                if (e.Get<A>(l).v != 1) wrong++;
                inside--;
            }
            in.add();
        });
    in.wait(n); // all are inside at the same time
    Watchdog::kick();
    Gate wrote;
    std::thread writer([&] {
        {
            auto l = ecs.StartTransaction<Write<A>>();
            e.Set<A>(l, 2);
            wrote.add();
        }
        committed = true;
        if (inside) early++;
        wrote.add();
    });
    wrote.wait(1);
    // What a new reader of another component does does not depend on those.
    {
        auto l = ecs.StartTransaction<Write<B>>();
        e.Set<B>(l, 1);
    }
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; i++)
        order[i] = i;
    for (size_t i = n; i > 1; i--)
        std::swap(order[i - 1], order[rng.below(i)]);
    for (size_t i = 0; i < n; i++) {
        leave[order[i]].add();
        in.wait(n + i + 1);
        if (i % 32 == 0) Watchdog::kick();
        if (i + 2 == n || i + 256 == n || i + 257 == n) std::this_thread::sleep_for(std::chrono::milliseconds(20));
    }
    wrote.wait(2);
    writer.join();
    for (auto &t : ts)
        t.join();
    Watchdog::kick();
    if (wrong) bad("C01 C11", "changed-under-reader", fmt("%zu of %zu readers saw a value change", wrong.load(), n));
    if (early) bad("C11 C01", "commit-before-readers", fmt("a commit went through while some of %zu readers were open", n));
    Report::count("scale_readers", n);
}
// the same number of writers, one after the other, and readers in between
static void writers(size_t n) {
    World ecs;
    Entity e;
    {
        auto l = ecs.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, 2);
    }
    std::atomic<size_t> wrong{0};
    std::vector<std::thread> ts;
    Gate start;
    std::atomic<size_t> sum{0};
    for (size_t i = 0; i < n; i++)
        ts.emplace_back([&, i] {
            start.wait(1);
            for (int k = 0; k < 3; k++) {
                if (i % 4) {
                    auto l = ecs.StartTransaction<Write<A>>();
                    auto &a = e.Get<A>(l);
                    uint64_t v = a.v;
                    if (k == 1) std::this_thread::yield();
                    a.v = v + 1;
                    sum++;
                } else {
                    auto l = ecs.StartTransaction<ReadAll>();
                    uint64_t v = e.Get<A>(l).v;
                    std::this_thread::yield();
                    if (e.Get<A>(l).v != v) wrong++;
                }
                Watchdog::kick();
            }
        });
    start.add();
    for (auto &t : ts)
        t.join();
    auto l = ecs.StartTransaction<Read<A>>();
    if (e.Get<A>(l).v != 2 + sum) bad("C02 C04", "lost-update", fmt("%llu after %zu increments by %zu threads", (unsigned long long)e.Get<A>(l).v, sum.load(), n));
    if (wrong) bad("C01", "changed-under-reader", fmt("%zu readers saw a value change", wrong.load()));
    Report::count("scale_writers", sum);
}

// ---- hundreds of instances ----------------------------------------------------------------------------------------------
static void instances(uint64_t seed, size_t n) {
    Rng rng(seed);
    struct I {
        std::unique_ptr<World> w;
        std::vector<Entity> es;
        std::vector<uint64_t> vals;
        Observer<World, EntityEvent> o;
        size_t events = 0;
    };
    std::vector<I> is(n);
    std::set<size_t> ids;
    uint64_t val = 1;
    for (auto &i : is) {
        i.w = std::make_unique<World>();
        if (!ids.insert(i.w->GetInstanceId()).second) return bad("C22 C06", "same-instance-id", fmt("instance %zu has an id in use", ids.size()));
        auto l = i.w->StartTransaction<AddRemove>();
        i.o = l.Watch<EntityEvent>();
    }
    for (int round = 0; round < 6; round++) {
        Watchdog::kick();
        for (auto &i : is) {
            if (!i.w) continue;
            auto l = i.w->StartTransaction<AddRemove>();
            for (size_t k = rng.below(4); k > 0; k--) {
                i.es.push_back(l.NewEntity());
                i.vals.push_back(val);
                i.es.back().Set<A>(l, val++);
                i.events++;
            }
        }
        for (size_t a = 0; a < n; a++) {
            auto &i = is[a];
            if (!i.w) continue;
            auto l = i.w->StartTransaction<Read<A>>();
            if (l.Entities().size() != i.es.size()) return bad("C22", "entities", fmt("instance %zu of %zu has %zu entities, expected %zu", a, n, l.Entities().size(), i.es.size()));
            for (size_t k = 0; k < i.es.size(); k++)
                if (!i.es[k].Exists(l) || i.es[k].Get<A>(l).v != i.vals[k]) return bad("C22 C05", "content", fmt("instance %zu of %zu", a, n));
            for (size_t d : {1ul, 2ul, 16ul, 64ul, 127ul, 128ul}) {
                auto &x = is[(a + d) % n];
                if (&x == &i || x.es.empty()) continue;
                auto &f = x.es[rng.below(x.es.size())];
                Report::count("scale_foreign");
                if (f.Exists(l)) return bad("C22 C06", "foreign-handle", fmt("an entity of instance %zu exists in instance %zu", (a + d) % n, a));
                bool threw = false;
                try {
                    (void)f.Get<A>(l);
                } catch (const std::exception &) {
                    threw = true;
                }
                if (!threw) return bad("C22 C14", "foreign-handle", fmt("an entity of instance %zu can be read in instance %zu", (a + d) % n, a));
            }
            EntityEvent ee;
            while (i.o.Poll(l, ee)) {
                if (!i.events || std::find(i.es.begin(), i.es.end(), ee.entity) == i.es.end()) return bad("C22 C08", "event-extra", fmt("instance %zu", a));
                i.events--;
            }
            if (i.events) return bad("C22 C08", "event-lost", fmt("instance %zu: %zu events", a, i.events));
        }
        if (round == 2)
            for (auto &i : is)
                if (rng.chance(1, 3)) {
                    i.w.reset();
                    if ((bool)i.o) return bad("C22 C08", "observer-alive", "an observer outlives its instance");
                }
    }
    Report::count("scale_instances", n);
}

// ---- one long transaction -------------------------------------------------------------------------------------------------
static void longTx(uint64_t seed, size_t n) {
    Rng rng(seed);
    World ecs;
    std::unordered_map<uint64_t, Ent> model;
    std::vector<Entity> alive, ever;
    std::unordered_set<uint64_t> keys;
    uint64_t val = 1;
    for (int round = 0; round < 2; round++) {
        {
            auto l = ecs.StartTransaction<AddRemove>();
            for (size_t i = 0; i < n; i++) {
                if (i % 512 == 0) Watchdog::kick();
                unsigned k = rng.below(4);
                if (k == 0 || alive.empty()) {
                    Entity e = l.NewEntity();
                    if (!keys.insert(key(e)).second) return bad("C06", "handle-repeated", fmt("operation %zu of one transaction: id %llx again", i, (unsigned long long)key(e)));
                    alive.push_back(e);
                    ever.push_back(e);
                    model[key(e)];
                } else if (k == 1 && alive.size() > 20) {
                    size_t j = rng.below(alive.size());
                    Entity e = alive[j];
                    model.erase(key(e));
                    e.Destroy(l);
                    alive[j] = alive.back();
                    alive.pop_back();
                } else {
                    auto &e = alive[rng.below(alive.size())];
                    auto &m = model[key(e)];
                    if (rng.chance(1, 4)) {
                        m.a = false;
                        e.Unset<A>(l);
                    } else {
                        m.a = true;
                        e.Set<A>(l, m.av = val++);
                    }
                }
                if (i % 997 == 0) {
                    size_t seen = 0;
                    for (auto &e : l.Entities())
                        if (e) seen++;
                    if (seen != alive.size()) return bad("C07", "entities", fmt("operation %zu: %zu entities listed, %zu alive", i, seen, alive.size()));
                }
            }
            Report::count("scale_operations", n);
        }
        auto l = ecs.StartTransaction<Read<A>>();
        if (l.Entities().size() != model.size()) return bad("C07 C05", "entities", fmt("%zu entities, expected %zu", l.Entities().size(), model.size()));
        size_t na = 0;
        for (auto &e : ever) {
            auto i = model.find(key(e));
            if (e.Exists(l) != (i != model.end())) return bad("C06 C05", "exists", fmt("%llx", (unsigned long long)key(e)));
            if (i == model.end()) continue;
            na += i->second.a;
            if (e.Has<A>(l) != i->second.a || (i->second.a && e.Get<A>(l).v != i->second.av)) return bad("C05", "content", fmt("%llx", (unsigned long long)key(e)));
        }
        if (l.EntitiesWith<A>().size() != na) return bad("C07", "list", fmt("%zu with A, expected %zu", l.EntitiesWith<A>().size(), na));
    }
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    uint64_t seed = a.num("seed", 1), k = a.num("times", 1);
    std::string part = a.str("part", "history,many,observers,copies,readers,writers,instances,long");
    Watchdog::start((int)a.num("watchdog", 60));
    Watchdog::what() = "scale";
    auto on = [&](const char *p) { return ("," + part + ",").find(std::string(",") + p + ",") != std::string::npos; };
    for (uint64_t i = 0; i < k && !Report::violations(); i++, seed += 1000003) {
        auto run = [&](const char *p, std::function<void()> f) {
            if (!on(p)) return;
            where = fmt("part=%s seed=%llu", p, (unsigned long long)seed);
            try {
                f();
            } catch (const std::exception &ex) {
                bad("*", "unexpected-exception", std::string(p) + ": " + ex.what());
            }
            Report::count("scale_parts");
        };
        run("history", [&] { history(seed, a.num("commits", 600000) + seed % 7000); });
        run("many", [&] { many(seed, a.num("entities", 70000) + seed % 5000); });
        run("observers", [&] { observers(seed, a.num("observers", 110)); });
        run("copies", [&] { copies(seed, a.num("copies", 70000)); });
        run("readers", [&] { readers(seed, a.num("readers", 300)); });
        run("writers", [&] { writers(a.num("writers", 300)); });
        run("instances", [&] { instances(seed, a.num("instances", 200)); });
        run("long", [&] { longTx(seed, a.num("operations", 300000)); });
    }
    Report::finish();
    return 0;
}
