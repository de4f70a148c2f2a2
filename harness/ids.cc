// Entity ids as values: integer round trip, equality, order, hash, text; for ids made by hand over the whole range of the
// configured widths and for ids handed out by real instances.
#include "common.hh"

#include <Tecs.hh>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace Tecs;
using Idx = TECS_ENTITY_INDEX_TYPE;
using Gen = TECS_ENTITY_GENERATION_TYPE;
using Ecs = TECS_ENTITY_ECS_IDENTIFIER_TYPE;
constexpr int IB = sizeof(Idx) * 8, GB = sizeof(Gen) * 8, EB = sizeof(Ecs) * 8;
constexpr uint64_t maxOf(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

struct A {
    int v = 0;
};
using World = ECS<A>;
static std::string where;
static void bad(const std::string &sig, const std::string &msg) { Report::violation("C19", "id:" + sig, msg, where); }

struct Id {
    uint64_t gen, idx, ecs; // gen without the instance
    bool operator==(const Id &o) const { return gen == o.gen && idx == o.idx && ecs == o.ecs; }
    bool operator<(const Id &o) const { return std::tie(ecs, gen, idx) < std::tie(o.ecs, o.gen, o.idx); }
};
static std::string txt(const Id &i) { return fmt("(ecs %llu gen %llu index %llu)", (unsigned long long)i.ecs, (unsigned long long)i.gen, (unsigned long long)i.idx); }

static uint64_t pickv(Rng &rng, int bits) {
    uint64_t m = maxOf(bits);
    switch (rng.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return m;
    case 3: return m - rng.below(4);
    case 4: return (1ull << rng.below((uint64_t)bits)) & m;
    case 5: return rng.below(8) & m;
    default: return rng.next() & m;
    }
}

// the numbers in the textual form
static bool parse(const std::string &s, Id &out, bool &valid) {
    valid = true;
    if (s.find("invalid") != std::string::npos) {
        valid = false;
        return true;
    }
    out.ecs = 1;
    auto num = [&](const char *key, uint64_t &v) {
        auto p = s.find(key);
        if (p == std::string::npos) return false;
        p += strlen(key);
        while (p < s.size() && (s[p] == ' ' || s[p] == '=' || s[p] == ':'))
            p++;
        if (p >= s.size() || !isdigit((unsigned char)s[p])) return false;
        v = strtoull(s.c_str() + p, nullptr, 10);
        return true;
    };
    num("ecs", out.ecs);
    return num("gen", out.gen) && num("index", out.idx);
}

static bool one(const Id &i) {
    Report::count("ids_checked");
    Entity e((Idx)i.idx, (Gen)i.gen, (Ecs)i.ecs);
    bool null = i.gen == 0 && i.idx == 0 && i.ecs == 0;
    if (e.index != (Idx)i.idx) return bad("index", txt(i) + ": index " + std::to_string((uint64_t)e.index)), false;
    if ((uint64_t)GenerationWithoutIdentifier(e.generation) != i.gen) return bad("generation", txt(i) + ": generation " + std::to_string((uint64_t)GenerationWithoutIdentifier(e.generation))), false;
    if ((uint64_t)IdentifierFromGeneration(e.generation) != i.ecs) return bad("instance", txt(i) + ": instance " + std::to_string((uint64_t)IdentifierFromGeneration(e.generation))), false;
    if (GenerationWithIdentifier(GenerationWithoutIdentifier(e.generation), (Ecs)i.ecs) != e.generation) return bad("generation", txt(i) + ": taking apart and putting together differs"), false;
    uint64_t n = (uint64_t)e;
    Entity r(n);
    if (r != e || !(r == e) || r.index != e.index || r.generation != e.generation) return bad("round-trip", txt(i) + " comes back from its integer as index " + std::to_string((uint64_t)r.index) + " generation " + std::to_string((uint64_t)r.generation)), false;
    if ((uint64_t)r != n) return bad("round-trip", txt(i) + ": the integer changes"), false;
    if (i.gen || i.ecs || null) {
        // only the null entity is false (every entity handed out has an instance and a generation)
        if ((bool)e == null || !e != null) return bad("bool", txt(i) + fmt(": bool %d", (int)(bool)e)), false;
        Id p{};
        bool valid;
        std::string s = std::to_string(e);
        if (!parse(s, p, valid)) return bad("text", txt(i) + ": text '" + s + "' has no generation and index"), false;
        if (valid == null || (valid && !(p == i))) return bad("text", txt(i) + ": text '" + s + "'"), false;
    }
    Entity raw((Idx)i.idx, e.generation);
    if (raw != e) return bad("construct", txt(i) + ": constructors differ"), false;
    return true;
}

static bool pairOf(const Id &a, const Id &b) {
    Report::count("pairs_checked");
    Entity x((Idx)a.idx, (Gen)a.gen, (Ecs)a.ecs), y((Idx)b.idx, (Gen)b.gen, (Ecs)b.ecs);
    bool eq = a == b;
    if ((x == y) != eq || (x != y) == eq) return bad("equality", txt(a) + " and " + txt(b)), false;
    if (((uint64_t)x == (uint64_t)y) != eq) return bad("injective", txt(a) + " and " + txt(b) + ": equality of the integers differs"), false;
    if ((x < y) + (y < x) != (eq ? 0 : 1)) return bad("order", txt(a) + " and " + txt(b) + fmt(": < is %d and %d", x < y, y < x)), false;
    if (eq && std::hash<Entity>{}(x) != std::hash<Entity>{}(y)) return bad("hash", txt(a) + ": equal ids hash differently"), false;
    if (!eq && std::to_string(x) == std::to_string(y)) {
        // ids that cannot be handed out (generation and instance 0) may look alike
        if ((a.gen || a.ecs) && (b.gen || b.ecs)) return bad("text", txt(a) + " and " + txt(b) + " have the same text '" + std::to_string(x) + "'"), false;
    }
    return true;
}

static void numbers(Rng &rng) {
    std::vector<Id> ids;
    size_t n = 20 + rng.below(40);
    for (size_t i = 0; i < n; i++) {
        Id d{pickv(rng, GB - EB), pickv(rng, IB), pickv(rng, EB)};
        if (!ids.empty() && rng.chance(2, 3)) { // neighbours of an earlier one
            d = ids[rng.below(ids.size())];
            switch (rng.below(6)) {
            case 0: d.gen = (d.gen + 1) & maxOf(GB - EB); break;
            case 1: d.idx = (d.idx + 1) & maxOf(IB); break;
            case 2: d.ecs = (d.ecs + 1) & maxOf(EB); break;
            case 3: d.idx ^= 1ull << rng.below(IB); break;
            case 4: d.gen ^= 1ull << rng.below(GB - EB); break;
            default: std::swap(d.gen, d.idx); d.gen &= maxOf(GB - EB); d.idx &= maxOf(IB);
            }
        }
        ids.push_back(d);
        if (!one(d)) return;
    }
    std::vector<Entity> es;
    for (auto &i : ids)
        es.emplace_back((Idx)i.idx, (Gen)i.gen, (Ecs)i.ecs);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
            if (!pairOf(ids[i], ids[j])) return;
    // strict total order: transitive, and containers agree with the ids
    for (int k = 0; k < 2000; k++) {
        size_t i = rng.below(n), j = rng.below(n), l = rng.below(n);
        if (es[i] < es[j] && es[j] < es[l] && !(es[i] < es[l])) return bad("order", txt(ids[i]) + " < " + txt(ids[j]) + " < " + txt(ids[l]) + " is not transitive");
        Report::count("triples_checked");
    }
    std::set<Id> want(ids.begin(), ids.end());
    std::set<Entity> s(es.begin(), es.end());
    std::unordered_set<Entity> u(es.begin(), es.end());
    if (s.size() != want.size()) return bad("set", fmt("a std::set of %zu different ids has %zu", want.size(), s.size()));
    if (u.size() != want.size()) return bad("unordered-set", fmt("an unordered_set of %zu different ids has %zu", want.size(), u.size()));
    for (auto &e : es)
        if (!s.count(e) || !u.count(e)) return bad("set", "an id is not found in its set");
    std::sort(es.begin(), es.end());
    for (size_t i = 1; i < es.size(); i++)
        if (es[i] < es[i - 1]) return bad("order", "sorting by < leaves ids out of order");
}

// all values of the small widths, every combination of borders
static void sweep(uint64_t seed) {
    std::unordered_map<uint64_t, Id> seen;
    std::unordered_map<uint64_t, unsigned> hashes;
    uint64_t gstep = std::max<uint64_t>(1, maxOf(GB - EB) / 97), istep = std::max<uint64_t>(1, maxOf(IB) / 101), estep = std::max<uint64_t>(1, maxOf(EB) / 13);
    uint64_t off = seed % 7;
    for (uint64_t g = 0; g <= maxOf(GB - EB); g += gstep)
        for (uint64_t i = 0; i <= maxOf(IB); i += istep)
            for (uint64_t e = 0; e <= maxOf(EB); e += estep) {
                Id d{(g + off) & maxOf(GB - EB), (i + off) & maxOf(IB), (e + off) & maxOf(EB)};
                if (!one(d)) return;
                Entity x((Idx)d.idx, (Gen)d.gen, (Ecs)d.ecs);
                auto r = seen.emplace((uint64_t)x, d);
                if (!r.second && !(r.first->second == d)) return bad("injective", txt(d) + " and " + txt(r.first->second) + " have the same integer");
                hashes[std::hash<Entity>{}(x)]++;
            }
    Report::count("distinct_ids", seen.size());
    unsigned worst = 0;
    for (auto &h : hashes)
        worst = std::max(worst, h.second);
    Report::count("distinct_hashes", hashes.size());
}

// ids of real entities
static void real(Rng &rng) {
    std::vector<std::unique_ptr<World>> ws;
    size_t nw = 1 + rng.below(3);
    std::unordered_map<uint64_t, Id> seen;
    std::unordered_set<std::string> texts;
    std::set<Entity> all;
    for (size_t k = 0; k < nw; k++) {
        ws.push_back(std::make_unique<World>());
        auto &w = *ws.back();
        std::vector<Entity> live;
        std::map<uint64_t, uint64_t> lastGen;
        for (int t = 0; t < 6; t++) {
            auto l = w.StartTransaction<AddRemove>();
            for (size_t i = 0, m = rng.below(12); i < m; i++) {
                auto e = l.NewEntity();
                Report::count("entities_created");
                if (!e || !(bool)e || e == Entity()) return bad("bool", "a new entity is false: " + std::to_string(e));
                if (IdentifierFromGeneration(e.generation) != w.GetInstanceId()) return bad("instance", "a new entity does not carry its instance: " + std::to_string(e));
                Id d{GenerationWithoutIdentifier(e.generation), e.index, w.GetInstanceId()};
                auto r = seen.emplace((uint64_t)e, d);
                if (!r.second) return bad("injective", "two entities have the same integer: " + std::to_string(e));
                if (!texts.insert(std::to_string(e)).second) return bad("text", "two entities have the same text: " + std::to_string(e));
                if (!all.insert(e).second) return bad("order", "two entities are equivalent in the order: " + std::to_string(e));
                if (!one(d)) return;
                if (Entity((uint64_t)e) != e || !Entity((uint64_t)e).Exists(l)) return bad("round-trip", "an entity from its integer is not the same: " + std::to_string(e));
                live.push_back(e);
            }
            for (size_t i = 0; i < live.size();)
                if (rng.chance(1, 2)) {
                    Entity c = live[i];
                    c.Destroy(l);
                    if (c || (bool)c || c != Entity()) return bad("bool", "a destroyed handle does not become the null entity");
                    live.erase(live.begin() + (long)i);
                } else i++;
        }
    }
}

// As many entities as the index type can number: one more is refused, nothing is handed out twice, and everything created
// before is still there and usable.
static void full(uint64_t seed) {
    if constexpr (IB <= 16) {
        Rng rng(seed);
        World w;
        std::vector<Entity> es;
        std::set<uint64_t> seen;
        auto fill = [&](auto &l) {
            for (size_t i = 0; i < (size_t(1) << IB) + 10; i++) {
                Entity e;
                try {
                    e = l.NewEntity();
                } catch (std::runtime_error &) {
                    return true;
                }
                if (!seen.insert((uint64_t)e).second) {
                    Report::violation("C06 C19", "id:overflow-reuse", fmt("entity %zu gets a handle that was handed out before", es.size()), where);
                    return false;
                }
                es.push_back(e);
                Report::count("entities_created");
            }
            Report::violation("C06 C19 C14", "id:overflow", "more entities are alive than the index type can number", where);
            return false;
        };
        size_t before = 0;
        for (int round = 0; round < 3; round++) {
            Watchdog::kick();
            {
                auto l = w.StartTransaction<AddRemove>();
                if (!fill(l)) { // the instance is beyond use
                    Report::finish();
                    fflush(stdout);
                    _exit(0);
                }
                if (round == 0 && es.size() + TECS_ENTITY_ALLOCATION_BATCH_SIZE < (size_t(1) << IB) - 1)
                    Report::violation("C06", "id:overflow-early", fmt("only %zu entities can be created", es.size()), where);
                if (round && es.size() != before) Report::violation("C06", "id:overflow-slots", fmt("%zu entities were alive at the limit, now %zu", before, es.size()), where);
                before = es.size();
                for (int i = 0; i < 200; i++) {
                    Entity e = es[rng.below(es.size())];
                    e.Set<A>(l, A{(int)e.index});
                }
                for (auto &e : es)
                    if (!e.Exists(l)) {
                        Report::violation("C06 C14", "id:overflow-lost", "an entity created before the limit was reached does not exist", where);
                        break;
                    }
            }
            auto l = w.StartTransaction<AddRemove>();
            if (l.Entities().size() != es.size()) Report::violation("C06 C07 C14", "id:overflow-list", fmt("%zu entities listed, %zu created", l.Entities().size(), es.size()), where);
            for (auto &e : es)
                if (!e.Exists(l) || (e.Has<A>(l) && e.Get<const A>(l).v != (int)e.index)) {
                    Report::violation("C06 C14 C05", "id:overflow-lost", "an entity created before the limit was reached is not there any more", where);
                    break;
                }
            for (int i = 0; i < 500 && !es.empty(); i++) {
                size_t k = rng.below(es.size());
                Entity e = es[k];
                e.Destroy(l);
                es[k] = es.back();
                es.pop_back();
            }
            Report::count("limits_reached");
        }
    }
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), cases = a.num("cases", 1000);
    Watchdog::start(60);
    Watchdog::what() = "ids";
    if (!one(Id{0, 0, 0})) {}
    if (Entity() != Entity((uint64_t)0) || (bool)Entity() || !!Entity()) bad("bool", "the null entity is not false or not 0");
    where = "sweep";
    sweep(seed);
    if (a.has("full")) {
        where = fmt("full seed=%llu", (unsigned long long)seed);
        full(seed);
    }
    for (uint64_t n = first; n < first + cases && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 32452843 + n) + 11);
        where = fmt("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)n);
        try {
            numbers(rng);
            if (n < first + 40) real(rng);
        } catch (const std::exception &e) {
            bad("unexpected-exception", e.what());
        }
        Report::count("cases");
    }
    Report::sample(fmt("widths: index %d, generation %d, instance %d bits", IB, GB, EB));
    Report::finish();
    return 0;
}
