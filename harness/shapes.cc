// The same guarantees whatever the component types are: none at all, one, only a global one, empty, enumerations, pointers, over-aligned,
// large, self-referential, holding resources, with overloaded operators. Contents, lists and events against a map.
#include "common.hh"

#include <Tecs.hh>
#include <algorithm>
#include <array>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>

using namespace Tecs;
static std::string where;
static std::string history;
static void bad(const char *tags, const std::string &sig, const std::string &msg) {
    Report::violation(tags, "shapes:" + sig, msg, where, history.size() > 900 ? history.substr(history.size() - 900) : history);
}

struct Empty {
    bool operator==(const Empty &) const { return true; }
};
enum class Small : uint8_t {};
struct alignas(64) Wide {
    char pad[24] = {};
    uint64_t v = 0;
};
struct alignas(32) Odd { // size is not what its members add up to
    uint8_t v[9] = {};
};
struct Big {
    uint64_t v[1200] = {};
};
struct Self { // points into itself: only its own copy and assignment keep it right
    uint64_t v = 0;
    uint64_t *p = &v;
    Self() {}
    explicit Self(uint64_t v) : v(v) {}
    Self(const Self &o) : v(*o.p) {}
    Self &operator=(const Self &o) {
        v = *o.p;
        return *this;
    }
};
struct Base {
    virtual ~Base() {}
    virtual uint64_t get() const { return 0; }
};
struct Virt : Base {
    uint64_t v = 0;
    uint64_t get() const override { return v; }
};
struct Amp { // overloads what a library should not need
    uint64_t v = 0;
    Amp *operator&() const { return nullptr; }
    bool operator,(int) const { return false; }
};
struct Glob {
    std::vector<uint64_t> v;
};
struct Glob2 {
    uint64_t v = 77;
};
template<>
struct Tecs::is_global_component<Glob> : std::true_type {};
template<>
struct Tecs::is_global_component<Glob2> : std::true_type {};
template<int N>
struct Tag {
    uint64_t v = 0;
};

// value -> component and back; def = what a default constructed one holds
template<typename C>
struct Cod {
    static C mk(uint64_t v) {
        C c{};
        c.v = v;
        return c;
    }
    static uint64_t rd(const C &c) { return c.v; }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<int> {
    static int mk(uint64_t v) { return (int)v; }
    static uint64_t rd(int c) { return (uint64_t)c; }
    static uint64_t narrow(uint64_t v) { return v & 0x7fffffff; }
};
template<>
struct Cod<double> {
    static double mk(uint64_t v) { return (double)(v & 0xffffffff) + 0.25 * (double)(v & 0xffffffff ? 1 : 0); }
    static uint64_t rd(double c) { return (uint64_t)c; }
    static uint64_t narrow(uint64_t v) { return v & 0xffffffff; }
};
template<>
struct Cod<const char *> {
    static const char *mk(uint64_t v) { return v ? reinterpret_cast<const char *>(v) : nullptr; }
    static uint64_t rd(const char *c) { return reinterpret_cast<uint64_t>(c); }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<Small> {
    static Small mk(uint64_t v) { return (Small)v; }
    static uint64_t rd(Small c) { return (uint64_t)c; }
    static uint64_t narrow(uint64_t v) { return v & 0xff; }
};
template<>
struct Cod<Empty> {
    static Empty mk(uint64_t) { return {}; }
    static uint64_t rd(const Empty &) { return 0; }
    static uint64_t narrow(uint64_t) { return 0; }
};
template<>
struct Cod<Odd> {
    static Odd mk(uint64_t v) {
        Odd o;
        for (int i = 0; i < 8; i++)
            o.v[1 + i] = (uint8_t)(v >> (8 * i));
        return o;
    }
    static uint64_t rd(const Odd &c) {
        uint64_t v = 0;
        for (int i = 0; i < 8; i++)
            v |= (uint64_t)c.v[1 + i] << (8 * i);
        return v;
    }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<Big> {
    static Big mk(uint64_t v) {
        Big b;
        for (auto &x : b.v)
            x = v;
        return b;
    }
    static uint64_t rd(const Big &c) {
        for (auto &x : c.v)
            if (x != c.v[0]) return ~0ull;
        return c.v[0];
    }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<Self> {
    static Self mk(uint64_t v) { return Self(v); }
    static uint64_t rd(const Self &c) { return c.p == &c.v ? *c.p : ~1ull; }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<Virt> {
    static Virt mk(uint64_t v) {
        Virt c;
        c.v = v;
        return c;
    }
    static uint64_t rd(const Virt &c) { return static_cast<const Base &>(c).get(); }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<std::string> {
    static std::string mk(uint64_t v) { return v ? std::to_string(v) + std::string(v % 40, 'x') : ""; }
    static uint64_t rd(const std::string &c) { return c.empty() ? 0 : c == mk(strtoull(c.c_str(), nullptr, 10)) ? strtoull(c.c_str(), nullptr, 10) : ~2ull; }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<std::shared_ptr<uint64_t>> {
    static std::shared_ptr<uint64_t> mk(uint64_t v) { return v ? std::make_shared<uint64_t>(v) : nullptr; }
    static uint64_t rd(const std::shared_ptr<uint64_t> &c) { return c ? *c : 0; }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<std::vector<bool>> {
    static std::vector<bool> mk(uint64_t v) {
        std::vector<bool> b;
        for (; v; v >>= 1)
            b.push_back(v & 1);
        return b;
    }
    static uint64_t rd(const std::vector<bool> &c) {
        uint64_t v = 0;
        for (size_t i = c.size(); i-- > 0;)
            v = v << 1 | c[i];
        return v;
    }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<std::optional<uint64_t>> {
    static std::optional<uint64_t> mk(uint64_t v) { return v ? std::optional<uint64_t>(v) : std::nullopt; }
    static uint64_t rd(const std::optional<uint64_t> &c) { return c.value_or(0); }
    static uint64_t narrow(uint64_t v) { return v; }
};
template<>
struct Cod<Glob> {
    static Glob mk(uint64_t v) { return v ? Glob{{v, ~v}} : Glob{}; }
    static uint64_t rd(const Glob &c) { return c.v.empty() ? 0 : c.v.size() == 2 && c.v[1] == ~c.v[0] ? c.v[0] : ~3ull; }
    static uint64_t narrow(uint64_t v) { return v; }
};

template<typename... Cs>
struct Run {
    using W = ECS<Cs...>;
    static constexpr size_t N = sizeof...(Cs);
    using Vals = std::array<std::optional<uint64_t>, N + 1>;
    Rng &rng;
    const char *name;
    W ecs;
    std::unordered_map<uint64_t, Vals> com, work; // entities
    Vals gcom, gwork;
    std::vector<Entity> ever;
    uint64_t next = 1;
    std::tuple<Observer<W, ComponentEvent<Cs>>...> obs;
    Observer<W, EntityEvent> oe;
    bool failed = false;

    Run(Rng &rng, const char *name) : rng(rng), name(name) {}
    void fail(const char *tags, const char *sig, const std::string &msg) {
        if (!failed) bad(tags, sig, std::string(name) + ": " + msg);
        failed = true;
    }
    template<typename C>
    static constexpr size_t at() {
        return W::template GetComponentIndex<C>();
    }
    template<typename C>
    static uint64_t def() {
        return Cod<C>::rd(C{});
    }
    template<typename C>
    uint64_t fresh() {
        return Cod<C>::narrow(rng.chance(1, 9) ? next++ * 0x0101010101010101ull : next++);
    }
    template<typename C>
    void aligned(const C &c) {
        if ((uintptr_t)std::addressof(c) % alignof(C)) fail("C13 C05", "alignment", fmt("a component is not aligned to %zu", alignof(C)));
    }

    template<typename C, typename L>
    void change(const L &l, Entity e, Vals &m, bool structural) {
        constexpr size_t i = at<C>();
        unsigned how = rng.below(structural ? 6 : 4);
        if (!m[i] && !structural) return;
        uint64_t v = fresh<C>();
        history += fmt(" e%u.%zu:%u", e.index, i, how);
        switch (how) {
        case 0: {
            C c = Cod<C>::mk(v);
            aligned(e.Set<C>(l, c));
            if (Cod<C>::rd(c) != v) fail("C05", "source-changed", "Set changed the value it was given");
            break;
        }
        case 1: e.Set<C>(l, Cod<C>::mk(v)); break;
        case 2: e.Get<C>(l) = Cod<C>::mk(v); break;
        case 3: { // set to a copy of the component of another entity, through its reference
            Entity o = ever[rng.below(ever.size())];
            auto x = work.find((uint64_t)o);
            if (x == work.end() || !x->second[i]) return;
            v = *x->second[i];
            C c = o.Get<const C>(l);
            e.Set<C>(l, c);
            break;
        }
        case 4:
            if (m[i]) v = *m[i], aligned(e.Get<const C>(l));
            else if (rng.chance(1, 2)) v = def<C>(), (void)e.Get<C>(l);
            else v = def<C>(), (void)e.Set<C>(l);
            break;
        case 5:
            if constexpr (Tecs::is_add_remove_allowed<L>()) e.Unset<C>(l);
            m[i].reset();
            return;
        }
        m[i] = v;
        Report::count("shapes_sets");
    }
    template<typename C, typename L>
    void changeGlobal(const L &l, bool structural) {
        constexpr size_t i = at<C>();
        if (!gwork[i] && !structural) return;
        uint64_t v = fresh<C>();
        unsigned how = rng.below(structural ? 4 : 3);
        history += fmt(" g%zu:%u", i, how);
        switch (how) {
        case 0: {
            C c = Cod<C>::mk(v);
            l.template Set<C>(c);
            break;
        }
        case 1: l.template Set<C>(Cod<C>::mk(v)); break;
        case 2: l.template Get<C>() = Cod<C>::mk(v); break;
        case 3:
            if constexpr (Tecs::is_add_remove_allowed<L>()) l.template Unset<C>();
            gwork[i].reset();
            return;
        }
        gwork[i] = v;
    }
    template<typename C, typename L>
    void one(const L &l, bool structural) {
        if constexpr (Tecs::is_global_component<C>()) {
            if (rng.chance(1, 3)) changeGlobal<C>(l, structural);
        } else if (rng.chance(1, N > 6 ? 4 : 2) && !ever.empty()) {
            for (int k = 0; k < 3; k++) {
                Entity e = ever[rng.below(ever.size())];
                auto m = work.find((uint64_t)e);
                if (m != work.end()) change<C>(l, e, m->second, structural);
            }
        }
    }
    template<typename C, typename L>
    void compare(const L &l, const std::unordered_map<uint64_t, Vals> &now, const Vals &g, const char *what) {
        constexpr size_t i = at<C>();
        if constexpr (Tecs::is_global_component<C>()) {
            if (l.template Has<C>() != g[i].has_value()) return fail("C20 C05", "global", fmt("%s: global %zu exists: %d", what, i, !g[i].has_value()));
            if (g[i] && Cod<C>::rd(l.template Get<const C>()) != *g[i]) return fail("C20 C05", "global", fmt("%s: global %zu is %llx, expected %llx", what, i, (unsigned long long)Cod<C>::rd(l.template Get<const C>()), (unsigned long long)*g[i]));
            if (l.template Had<C>() != gcom[i].has_value() || (gcom[i] && Cod<C>::rd(l.template GetPrevious<C>()) != *gcom[i])) return fail("C20 C03", "global-previous", fmt("%s: previous global %zu", what, i));
            Report::count("shapes_compared");
        } else {
            size_t n = 0;
            for (auto &e : ever) {
                auto m = now.find((uint64_t)e);
                auto p = com.find((uint64_t)e);
                bool has = m != now.end() && m->second[i], had = p != com.end() && p->second[i];
                n += has;
                if (e.template Has<C>(l) != has) return fail("C05 C06", "has", fmt("%s: component %zu of entity %u: %d", what, i, e.index, !has));
                if (e.template Had<C>(l) != had) return fail("C03 C06", "had", fmt("%s: component %zu of entity %u: %d before", what, i, e.index, !had));
                if (has) {
                    const C &c = e.template Get<const C>(l);
                    aligned(c);
                    if (Cod<C>::rd(c) != *m->second[i]) return fail("C05", "value", fmt("%s: component %zu of entity %u is %llx, expected %llx", what, i, e.index, (unsigned long long)Cod<C>::rd(c), (unsigned long long)*m->second[i]));
                }
                if (had && Cod<C>::rd(e.template GetPrevious<C>(l)) != *p->second[i]) return fail("C03 C05", "previous", fmt("%s: previous component %zu of entity %u is %llx, expected %llx", what, i, e.index, (unsigned long long)Cod<C>::rd(e.template GetPrevious<C>(l)), (unsigned long long)*p->second[i]));
                Report::count("shapes_compared");
            }
            size_t listed = 0;
            for (auto &e : l.template EntitiesWith<C>()) {
                if (!e) continue;
                listed++;
                auto m = now.find((uint64_t)e);
                if (m == now.end() || !m->second[i]) return fail("C07", "list", fmt("%s: component %zu: entity %u is listed", what, i, e.index));
            }
            if (listed != n) return fail("C07", "list", fmt("%s: component %zu: %zu listed, %zu expected", what, i, listed, n));
        }
    }
    template<typename L>
    void compareAll(const L &l, const std::unordered_map<uint64_t, Vals> &now, const Vals &g, const char *what) {
        size_t n = 0;
        for (auto &e : l.Entities())
            if (e) n++, (now.count((uint64_t)e) ? (void)0 : fail("C07", "entities", std::string(what) + ": an entity is listed that should not exist"));
        if (n != now.size()) fail("C07", "entities", fmt("%s: %zu entities, expected %zu", what, n, now.size()));
        (compare<Cs>(l, now, g, what), ...);
    }
    using EvKey = std::tuple<int, uint64_t, uint64_t>;
    template<typename C, typename L>
    void events(const L &l, const std::unordered_map<uint64_t, Vals> &before, const Vals &gbefore) {
        constexpr size_t i = at<C>();
        std::multiset<EvKey> want;
        if constexpr (Tecs::is_global_component<C>()) {
            if (gcom[i] && !gbefore[i]) want.insert({(int)EventType::ADDED, 0, *gcom[i]});
            if (!gcom[i] && gbefore[i]) want.insert({(int)EventType::REMOVED, 0, *gbefore[i]});
        } else {
            for (auto &kv : com)
                if (kv.second[i]) {
                    auto b = before.find(kv.first);
                    if (b == before.end() || !b->second[i]) want.insert({(int)EventType::ADDED, kv.first, *kv.second[i]});
                }
            for (auto &kv : before)
                if (kv.second[i]) {
                    auto b = com.find(kv.first);
                    if (b == com.end() || !b->second[i]) want.insert({(int)EventType::REMOVED, kv.first, *kv.second[i]});
                }
        }
        ComponentEvent<C> ev;
        while (std::get<Observer<W, ComponentEvent<C>>>(obs).Poll(l, ev)) {
            auto it = want.find({(int)ev.type, (uint64_t)ev.entity, Cod<C>::rd(ev.component)});
            if (it == want.end()) return fail("C08", "event-wrong", fmt("component %zu: event type %d entity %u value %llx", i, (int)ev.type, ev.entity.index, (unsigned long long)Cod<C>::rd(ev.component)));
            want.erase(it);
            Report::count("shapes_events");
        }
        if (!want.empty()) fail("C08", "event-lost", fmt("component %zu: %zu events", i, want.size()));
    }
    void go(size_t txs) {
        history = name;
        {
            auto l = ecs.template StartTransaction<AddRemove>();
            oe = l.template Watch<EntityEvent>();
            ((std::get<Observer<W, ComponentEvent<Cs>>>(obs) = l.template Watch<ComponentEvent<Cs>>()), ...);
        }
        for (size_t t = 0; t < txs && !failed; t++) {
            auto before = com;
            auto gbefore = gcom;
            work = com;
            gwork = gcom;
            bool structural = ever.empty() || rng.chance(2, 3);
            history += structural ? "; AR" : "; W";
            if (structural) {
                auto l = ecs.template StartTransaction<AddRemove>();
                for (size_t k = 1 + rng.below(6); k > 0; k--) {
                    Entity e = l.NewEntity();
                    ever.push_back(e);
                    work[(uint64_t)e];
                    history += fmt(" +%u", e.index);
                }
                (one<Cs>(l, true), ...);
                if (rng.chance(1, 2))
                    for (int k = 0; k < 3; k++) {
                        Entity e = ever[rng.below(ever.size())];
                        if (!work.erase((uint64_t)e)) continue;
                        history += fmt(" -%u", e.index);
                        e.Destroy(l);
                    }
                (one<Cs>(l, true), ...);
                compareAll(l, work, gwork, "in the transaction");
            } else {
                auto l = ecs.template StartTransaction<WriteAll>();
                (one<Cs>(l, false), ...);
                compareAll(l, work, gwork, "in the transaction");
            }
            com = work;
            gcom = gwork;
            auto l = ecs.template StartTransaction<ReadAll>();
            compareAll(l, com, gcom, "after the transaction");
            (events<Cs>(l, before, gbefore), ...);
            EntityEvent ev;
            size_t n = 0;
            while (oe.Poll(l, ev)) {
                n++;
                if ((ev.type == EventType::ADDED) != (com.count((uint64_t)ev.entity) && !before.count((uint64_t)ev.entity)) ||
                    (ev.type == EventType::REMOVED) != (!com.count((uint64_t)ev.entity) && before.count((uint64_t)ev.entity)))
                    fail("C08", "event-wrong", fmt("entity event type %d entity %u", (int)ev.type, ev.entity.index));
            }
            for (auto &kv : com)
                n -= !before.count(kv.first);
            for (auto &kv : before)
                n -= !com.count(kv.first);
            if (n) fail("C08", "event-lost", "number of entity events");
            Report::count("shapes_transactions");
        }
    }
};

// Compiled in parts (-DPART=0..3), which takes half the time.
void shapesPart(Rng &rng, unsigned n, const std::string &at);
void shapesPart1(Rng &rng, unsigned n, const std::string &at);
void shapesPart2(Rng &rng, unsigned n, const std::string &at);
void shapesPart3(Rng &rng, unsigned n, const std::string &at);
#if PART == 0
void shapesPart(Rng &rng, unsigned n, const std::string &at) {
    where = at;
    switch (n) {
    case 0: Run<>(rng, "no components").go(25); break;
    case 1: Run<int>(rng, "int").go(25); break;
    case 2: Run<Glob>(rng, "one global").go(25); break;
    default: Run<Empty, Wide, Small, Glob2, Odd>(rng, "empty and over-aligned").go(20); break;
    }
}
#elif PART == 1
void shapesPart1(Rng &rng, unsigned n, const std::string &at) {
    where = at;
    if (n % 2) Run<Self, Virt, std::string, Glob, Amp>(rng, "self-referential").go(20);
    else Run<Small, Big, Glob2, Glob>(rng, "large").go(10);
}
#elif PART == 2
void shapesPart2(Rng &rng, unsigned, const std::string &at) {
    where = at;
    Run<std::shared_ptr<uint64_t>, double, const char *, std::vector<bool>, std::optional<uint64_t>>(rng, "library types").go(20);
}
#else
template<size_t... I>
static void tags(Rng &rng, std::index_sequence<I...>) {
    Run<Tag<(int)I>...>(rng, "9 tags").go(12);
}
void shapesPart3(Rng &rng, unsigned, const std::string &at) {
    where = at;
    tags(rng, std::make_index_sequence<9>());
}
#endif

#if PART == 0
int main(int argc, char **argv) {
    Args a(argc, argv);
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), cases = a.num("cases", 100);
    Watchdog::start((int)a.num("watchdog", 60));
    Watchdog::what() = "shapes";
    for (uint64_t n = first; n < first + cases && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 7368787 + n) + 3);
        where = fmt("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)n);
        try {
            unsigned k = n % 8;
            if (k < 4) shapesPart(rng, k, where);
            else if (k < 6) shapesPart1(rng, k, where);
            else if (k < 7) shapesPart2(rng, k, where);
            else shapesPart3(rng, k, where);
        } catch (const std::exception &e) {
            bad("*", "unexpected-exception", e.what());
        }
        Report::count("shapes_cases");
    }
    Report::finish();
    return 0;
}
#endif
