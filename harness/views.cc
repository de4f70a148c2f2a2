// Entity views compared with plain slices: random lists, random chains of sub-views, every way of walking and indexing.
#include "common.hh"

#include <Tecs.hh>
#include <algorithm>
#include <list>
#include <memory>
#include <unordered_set>

struct A {
    int v = 0;
};
struct B {
    int v = 0;
};
using World = Tecs::ECS<A, B>;
using namespace Tecs;

static std::unordered_set<uint64_t> shapes;
static std::string where;

static void bad(const char *tags, const std::string &sig, const std::string &msg, const std::string &log = "") {
    Report::violation(tags, "view:" + sig, msg, where, log);
}

template<typename F>
static bool throws(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

using Slice = std::vector<Entity>;

// Compares a view with the slice it must equal.
static bool same(const EntityView &v, const Slice &s, const char *what, Rng &rng, const std::string &log) {
    Report::count("views_compared");
    if (v.size() != s.size()) return bad("C18", "size", fmt("%s: size %zu, expected %zu", what, v.size(), s.size()), log), false;
    if (v.empty() != s.empty()) return bad("C18", "empty", fmt("%s: empty() is %d for size %zu", what, v.empty(), s.size()), log), false;
    for (size_t i = 0; i < s.size(); i++)
        if (v[i] != s[i]) return bad("C18", "index", fmt("%s: [%zu] is not element %zu of the window of %zu", what, i, i, s.size()), log), false;
    size_t n = 0;
    for (auto &e : v) {
        if (n >= s.size() || e != s[n]) return bad("C18", "forward", fmt("%s: forward iteration differs at %zu of %zu", what, n, s.size()), log), false;
        n++;
    }
    if (n != s.size()) return bad("C18", "forward-end", fmt("%s: forward iteration ends after %zu of %zu", what, n, s.size()), log), false;
    n = s.size();
    for (auto it = v.rbegin(); it != v.rend(); ++it) {
        if (n == 0) return bad("C18", "reverse", fmt("%s: reverse iteration does not stop at the first of %zu", what, s.size()), log), false;
        n--;
        if (*it != s[n] || it->index != s[n].index) return bad("C18", "reverse", fmt("%s: reverse iteration differs at %zu of %zu", what, n, s.size()), log), false;
    }
    if (n) return bad("C18", "reverse-end", fmt("%s: reverse iteration stops %zu before the first of %zu", what, n, s.size()), log), false;
    // backwards with --
    {
        auto it = v.end();
        for (size_t i = s.size(); i-- > 0;) {
            if (i % 2) --it;
            else {
                auto old = it--;
                if (old == it) return bad("C18", "post-decrement", fmt("%s: it-- did not move", what), log), false;
            }
            if (*it != s[i] || it->generation != s[i].generation) return bad("C18", "backward", fmt("%s: backward iteration differs at %zu", what, i), log), false;
        }
        if (it != v.begin()) return bad("C18", "backward-end", fmt("%s: backward iteration does not reach begin()", what), log), false;
        for (size_t i = 0; i < s.size(); i++) {
            auto old = it++;
            if (*old != s[i]) return bad("C18", "post-increment", fmt("%s: *it++ differs at %zu", what, i), log), false;
        }
        if (!(it == v.end())) return bad("C18", "forward-end", fmt("%s: it++ does not reach end()", what), log), false;
    }
    // random access
    for (int k = 0; k < 6 && !s.empty(); k++) {
        std::ptrdiff_t i = (std::ptrdiff_t)rng.below(s.size()), j = (std::ptrdiff_t)rng.below(s.size());
        auto a = v.begin() + i;
        if (*a != s[(size_t)i]) return bad("C18", "plus", fmt("%s: *(begin()+%td)", what, i), log), false;
        if (a[j - i] != s[(size_t)j]) return bad("C18", "iterator-index", fmt("%s: (begin()+%td)[%td]", what, i, j - i), log), false;
        if (*(a + (j - i)) != s[(size_t)j] || *(a - (i - j)) != s[(size_t)j]) return bad("C18", "plus-minus", fmt("%s: %td + %td", what, i, j - i), log), false;
        auto b = a;
        b += j - i;
        if (*b != s[(size_t)j]) return bad("C18", "plus-assign", fmt("%s: += %td", what, j - i), log), false;
        b -= j - i;
        if (*b != s[(size_t)i] || b != a || !(b == a)) return bad("C18", "minus-assign", fmt("%s: -= %td", what, j - i), log), false;
        if ((i == j) != (v.begin() + i == v.begin() + j) || (i != j) != (v.begin() + i != v.begin() + j))
            return bad("C18", "iterator-equality", fmt("%s: %td and %td", what, i, j), log), false;
        if (*(v.end() - (std::ptrdiff_t)(s.size() - (size_t)i)) != s[(size_t)i]) return bad("C18", "end-minus", fmt("%s: end() - %zu", what, s.size() - (size_t)i), log), false;
        if (*(v.rbegin() + i) != s[s.size() - 1 - (size_t)i] || v.rbegin()[i] != s[s.size() - 1 - (size_t)i])
            return bad("C18", "reverse-plus", fmt("%s: rbegin() + %td", what, i), log), false;
    }
    if (!s.empty()) {
        size_t c = 0;
        std::for_each(v.begin(), v.end(), [&](const Entity &) { c++; });
        if (c != s.size()) return bad("C18", "for-each", std::string(what) + ": std::for_each", log), false;
        if (v.begin() == v.end()) return bad("C18", "iterator-equality", std::string(what) + ": begin() == end() of a non-empty view", log), false;
    } else if (v.begin() != v.end() || v.rbegin() != v.rend())
        return bad("C18", "empty-range", std::string(what) + ": empty view with a non-empty range", log), false;
#ifndef TECS_UNCHECKED_MODE
    // outside of the window
    std::vector<size_t> outside = {s.size(), s.size() + 1, s.size() + 1 + rng.below(50), ~(size_t)0, (size_t)0 - 1 - rng.below(5)};
    for (size_t i : outside) {
        if (!throws([&] { (void)v[i].index; })) return bad("C18 C13 C14", "index-outside", fmt("%s: [%zd] of a view of %zu does not throw", what, (std::ptrdiff_t)i, s.size()), log), false;
        Report::count("rejections");
    }
    if (!throws([&] { (void)*v.end(); })) return bad("C18 C13 C14", "deref-end", std::string(what) + ": *end() does not throw", log), false;
    if (!throws([&] { (void)v.end()->index; })) return bad("C18 C13 C14", "arrow-end", std::string(what) + ": end()-> does not throw", log), false;
    if (!throws([&] { (void)*(v.begin() - 1); })) return bad("C18 C13 C14", "deref-before", std::string(what) + ": *(begin()-1) does not throw", log), false;
    if (!throws([&] { (void)(v.begin() - 1)->index; })) return bad("C18 C13 C14", "arrow-before", std::string(what) + ": (begin()-1)-> does not throw", log), false;
    if (!throws([&] { (void)v.begin()[(std::ptrdiff_t)s.size()]; })) return bad("C18 C13 C14", "iterator-index-end", std::string(what) + ": begin()[size()] does not throw", log), false;
    if (!throws([&] { (void)v.begin()[-1]; })) return bad("C18 C13 C14", "iterator-index-before", std::string(what) + ": begin()[-1] does not throw", log), false;
    if (!throws([&] { (void)v.end()[0]; })) return bad("C18 C13 C14", "iterator-index-end", std::string(what) + ": end()[0] does not throw", log), false;
    Report::count("rejections", 7);
#endif
    return true;
}

static size_t pickCount(Rng &rng, size_t n) {
    switch (rng.below(6)) {
    case 0: return 0;
    case 1: return n;
    case 2: return n + 1 + rng.below(20);
    case 3: return ~(size_t)0 - rng.below(3);
    default: return n ? rng.below(n + 1) : 0;
    }
}

static bool chain(EntityView v, Slice s, Rng &rng, std::string log) {
    int depth = 1 + (int)rng.below(4);
    std::list<EntityView> keep; // iterators refer to their view
    for (int d = 0; d < depth; d++) {
        size_t off = rng.chance(1, 4) ? 0 : rng.below(s.size() + 1);
        bool withCount = rng.chance(2, 3);
        size_t cnt = withCount ? pickCount(rng, s.size() - off) : 0;
        log += withCount ? fmt(".subview(%zu, %zd)", off, (std::ptrdiff_t)cnt) : fmt(".subview(%zu)", off);
        std::unique_ptr<EntityView> nv;
        try {
            nv = std::make_unique<EntityView>(withCount ? v.subview(off, cnt) : v.subview(off));
        } catch (const std::exception &e) {
            bad("C18 C14", "subview-throws", std::string("a sub-view inside the window is refused: ") + e.what(), log);
            return false;
        }
#ifndef TECS_UNCHECKED_MODE
        size_t over = rng.chance(1, 3) ? ~(size_t)0 - rng.below(30) : s.size() + 1 + (rng.chance(1, 2) ? 0 : rng.below(40));
        // an offset past the window must not give access to anything
        bool leak = false;
        if (!throws([&] {
                auto o = rng.chance(1, 2) ? v.subview(over) : v.subview(over, 1 + rng.below(5));
                leak = !o.empty() || o.begin() != o.end();
            }) && leak) {
            bad("C18 C13", "subview-outside", fmt("a sub-view from offset %zu of a view of %zu is not empty", over, s.size()), log);
            return false;
        }
        Report::count("rejections");
#endif
        size_t take = withCount ? std::min(cnt, s.size() - off) : s.size() - off;
        s = Slice(s.begin() + (std::ptrdiff_t)off, s.begin() + (std::ptrdiff_t)(off + take));
        v = *nv;
        shapes.insert(mix64(d * 1000003ull + off * 1009 + take * 7 + withCount));
        if (!same(v, s, "sub-view", rng, log)) return false;
    }
    return true;
}

// Views of plain vectors
static bool plain(Rng &rng) {
    size_t n = rng.chance(1, 6) ? rng.below(3) : rng.chance(1, 10) ? 200 + rng.below(300) : rng.below(24);
    Slice data;
    for (size_t i = 0; i < n; i++)
        data.emplace_back((TECS_ENTITY_INDEX_TYPE)rng.below(1000), (TECS_ENTITY_GENERATION_TYPE)(i + 1));
    std::string log = fmt("vector of %zu", n);
    if (!same(EntityView(data), data, "whole view", rng, log)) return false;
    {
        EntityView w(data);
        EntityView::iterator first(w);
        if (first != w.begin() || (n && *first != data[0])) return bad("C18", "iterator-start", "an iterator of a whole view does not start at its first element", log), false;
    }
    EntityView none;
    if (none.size() || !none.empty() || none.begin() != none.end()) return bad("C18", "default-view", "a default view is not empty"), false;
    size_t a = rng.below(n + 1), b = a + rng.below(n - a + 1);
    log += fmt(" window %zu..%zu", a, b);
    EntityView v(data, a, b);
    Slice s(data.begin() + (std::ptrdiff_t)a, data.begin() + (std::ptrdiff_t)b);
    if (!same(v, s, "window", rng, log)) return false;
#ifndef TECS_UNCHECKED_MODE
    if (!throws([&] { EntityView x(data, n + 1, n + 1); }) || !throws([&] { EntityView x(data, 0, n + 1 + rng.below(3)); }) ||
        (b > a && !throws([&] { EntityView x(data, b, a); })))
        return bad("C18 C13", "ctor-outside", "a view outside of its list can be made", log), false;
    if (!throws([&] { (void)none.subview(0); })) return bad("C18 C13", "null-subview", "a sub-view of a default view can be made"), false;
#endif
    for (int i = 0; i < 3; i++)
        if (!chain(v, s, rng, log)) return false;
    // copies are independent of the original object
    EntityView c = v;
    v = EntityView(data);
    if (!same(c, s, "copied view", rng, log)) return false;
    // growth of the list behind the view: it keeps its elements
    for (size_t i = 0; i < 50; i++)
        data.emplace_back((TECS_ENTITY_INDEX_TYPE)(5000 + i), (TECS_ENTITY_GENERATION_TYPE)7);
    return same(c, s, "view after growth", rng, log);
}

// Views returned by locks
static bool locks(Rng &rng) {
    World w;
    Slice all, withA;
    std::string log = "locks";
    for (int t = 0; t < 2; t++) {
        auto l = w.StartTransaction<AddRemove>();
        Slice oldAll, oldA;
        for (auto &e : l.Entities())
            oldAll.push_back(e);
        for (auto &e : l.EntitiesWith<A>())
            oldA.push_back(e);
        // (the order of a list may change with a commit)
        auto sorted = [](Slice x) {
            std::sort(x.begin(), x.end());
            return x;
        };
        if (sorted(oldAll) != sorted(all) || sorted(oldA) != sorted(withA)) return bad("C18 C07", "list", "iterating a list gives something else than was committed", log), false;
        EntityView va = l.EntitiesWith<A>(), v = l.Entities(), pv = l.PreviousEntities(), pa = l.PreviousEntitiesWith<A>();
        size_t off = rng.below(va.size() + 1);
        EntityView sub = va.subview(off);
        size_t grow = rng.below(t ? 3000 : 40);
        for (size_t i = 0; i < grow; i++) {
            auto e = l.NewEntity();
            if (rng.chance(2, 3)) e.Set<A>(l, A{(int)i});
        }
        // taken before entities are added: same elements
        if (!same(va, oldA, "EntitiesWith before adding", rng, log) || !same(v, oldAll, "Entities before adding", rng, log) ||
            !same(pv, oldAll, "PreviousEntities before adding", rng, log) || !same(pa, oldA, "PreviousEntitiesWith before adding", rng, log) ||
            !same(sub, Slice(oldA.begin() + (std::ptrdiff_t)off, oldA.end()), "sub-view before adding", rng, log))
            return false;
        // adding while iterating: the loop ends with the old elements
        size_t n = 0, m = v.size();
        for (auto &e : v) {
            if (n >= oldAll.size() || e != oldAll[n]) return bad("C18", "adding-while-iterating", "iteration differs while entities are added", log), false;
            if (n % 7 == 0) {
                Entity(e).Set<B>(l, B{1});
                l.NewEntity();
            }
            n++;
        }
        if (n != m) return bad("C18", "adding-while-iterating", fmt("iteration saw %zu of %zu elements while entities were added", n, m), log), false;
        all.clear();
        withA.clear();
        for (size_t i = 0; i < l.Entities().size(); i++)
            all.push_back(l.Entities()[i]);
        for (size_t i = 0; i < l.EntitiesWith<A>().size(); i++)
            withA.push_back(l.EntitiesWith<A>()[i]);
    }
    auto l = w.StartTransaction<Read<A>>();
    // the lists may be in another order after the commit; compare as sets and then as views
    Slice x;
    for (auto &e : l.EntitiesWith<A>())
        x.push_back(e);
    auto y = x, z = withA;
    std::sort(y.begin(), y.end());
    std::sort(z.begin(), z.end());
    if (y != z) return bad("C18 C07", "list", "a committed list does not hold what the transaction's list held", log), false;
    EntityView va = l.EntitiesWith<A>();
    if (!same(va, x, "EntitiesWith", rng, log)) return false;
    return chain(va, x, rng, log);
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), cases = a.num("cases", 1000);
    Watchdog::start(60);
    Watchdog::what() = "views";
    for (uint64_t n = first; n < first + cases && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 15485863 + n) + 11);
        where = fmt("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)n);
        try {
            plain(rng);
            if (n % 8 == 0) locks(rng);
        } catch (const std::exception &e) {
            bad("C18 C14", "unexpected-exception", e.what());
        }
        Report::count("cases");
        if (n == first) Report::sample(fmt("%s: slice comparisons, rejections and growth for one list", where.c_str()));
    }
    Report::count("distinct_shapes", shapes.size());
    Report::finish();
    return 0;
}
