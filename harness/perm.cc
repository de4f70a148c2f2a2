// Which locks can be derived from which: every pair of 26 ways of spelling permissions, statically and at run time, against
// permission sets written down by hand.
#include "common.hh"

#include <Tecs.hh>
#include <functional>

struct A {
    uint64_t v = 0;
};
struct B {
    uint64_t v = 0;
};
struct C {
    uint64_t v = 0;
};
struct G {
    uint64_t v = 0;
};
TECS_GLOBAL_COMPONENT(G);
using World = Tecs::ECS<A, B, G, C>;
using namespace Tecs;
enum { XA = 1, XB = 2, XC = 4, XG = 8, ALL = 15 };

struct Perm {
    unsigned r, w;
    bool ar;
};
// SubSet(a, b): a asks for no more than b has
static bool subset(const Perm &a, const Perm &b) { return !(a.r & ~b.r) && !(a.w & ~b.w) && (!a.ar || b.ar); }

template<int I>
struct Kind;
#define KIND(I, R, W, AR, ...)                                                                                         \
    template<>                                                                                                         \
    struct Kind<I> {                                                                                                   \
        using L = Lock<World, ##__VA_ARGS__>;                                                                          \
        using D = DynamicLock<World, ##__VA_ARGS__>;                                                                   \
        static constexpr Perm p{R, W, AR};                                                                             \
        static const char *name() { return "<" #__VA_ARGS__ ">"; }                                                     \
        static L start(World &w) { return w.StartTransaction<__VA_ARGS__>(); }                                         \
        template<typename DL>                                                                                          \
        static auto tryLock(const DL &d) { return d.template TryLock<__VA_ARGS__>(); }                                  \
        template<typename LT>                                                                                          \
        static constexpr bool hasPerm() { return LT::template has_permissions<__VA_ARGS__>(); }                         \
        template<typename LT>                                                                                          \
        static constexpr bool isSubsetOfMine() { return LT::template is_lock_subset<__VA_ARGS__>(); }                   \
    };
KIND(0, 0, 0, false)
KIND(1, XA, 0, false, Read<A>)
KIND(2, XB, 0, false, Read<B>)
KIND(3, XG, 0, false, Read<G>)
KIND(4, XC, 0, false, Read<C>)
KIND(5, XA | XC, 0, false, Read<C, A>)
KIND(6, XA | XB, 0, false, Read<A>, Read<B>)
KIND(7, ALL, 0, false, ReadAll)
KIND(8, XA, XA, false, Write<A>)
KIND(9, XB, XB, false, Write<B>)
KIND(10, XC, XC, false, Write<C>)
KIND(11, XG, XG, false, Write<G>)
KIND(12, XA | XB, XB, false, Read<A>, Write<B>)
KIND(13, ALL, ALL, false, Write<A, B, C, G>)
KIND(14, ALL, ALL, false, WriteAll)
KIND(15, ALL, ALL, true, AddRemove)
KIND(16, ALL, XC, false, ReadAll, Write<C>)
KIND(17, XA, XA, false, Read<A>, Write<A>)
KIND(18, ALL, ALL, true, Read<B>, AddRemove)
KIND(19, ALL, ALL, true, Lock<World, AddRemove>)
KIND(20, XA | XB, XB, false, Lock<World, Read<A>, Write<B>>)
KIND(21, XA | XB | XG, XA | XG, false, Write<A>, Read<B>, Write<G>)
KIND(22, ALL, ALL, false, Lock<World, Write<A>>, WriteAll)
KIND(23, ALL, XA | XB, false, Write<A, B>, ReadAll)
KIND(24, XA, 0, false, Read<A>, Read<A>)
KIND(25, 0, 0, false, Read<>, Write<>)
constexpr int NK = 26;

static std::string where;
static void bad(const std::string &sig, const std::string &msg) { Report::violation("C16", "perm:" + sig, msg, where); }

template<typename X, typename L>
static void allowed(unsigned bit, const char *x, const Perm &p, const char *name, const char *variant) {
    Report::count("permission_queries", 2);
    if (is_read_allowed<X, L>() != (bool)(p.r & bit)) bad("read-allowed", fmt("is_read_allowed<%s, %s%s> is %d", x, variant, name, (int)is_read_allowed<X, L>()));
    if (is_write_allowed<X, L>() != (bool)(p.w & bit)) bad("write-allowed", fmt("is_write_allowed<%s, %s%s> is %d", x, variant, name, (int)is_write_allowed<X, L>()));
}
template<typename L>
static void traits(const Perm &p, const char *name, const char *variant) {
    allowed<A, L>(XA, "A", p, name, variant);
    allowed<B, L>(XB, "B", p, name, variant);
    allowed<C, L>(XC, "C", p, name, variant);
    allowed<G, L>(XG, "G", p, name, variant);
    Report::count("permission_queries");
    if (is_add_remove_allowed<L>() != p.ar) bad("add-remove-allowed", fmt("is_add_remove_allowed<%s%s> is %d", variant, name, (int)is_add_remove_allowed<L>()));
}

template<int I, int J>
static void staticPair() {
    using From = typename Kind<I>::L;
    using To = typename Kind<J>::L;
    bool want = subset(Kind<J>::p, Kind<I>::p);
    std::string what = fmt("Lock%s from Lock%s", Kind<J>::name(), Kind<I>::name());
    constexpr bool ctor = std::is_constructible_v<To, const From &>, conv = std::is_convertible_v<const From &, To>;
    Report::count("derivations_static");
    if (ctor != want) bad("static", what + fmt(": constructible is %d", (int)ctor));
    if (conv != want) bad("static", what + fmt(": convertible is %d", (int)conv));
    if (Kind<I>::template isSubsetOfMine<To>() != want) bad("is_lock_subset", what + fmt(": is_lock_subset is %d", (int)!want));
    if (Kind<J>::template hasPerm<From>() != want) bad("has_permissions", what + fmt(": has_permissions is %d", (int)!want));
    // a lock with static permissions made from a dynamic lock
    constexpr bool fromDyn = std::is_constructible_v<To, const typename Kind<I>::D &>;
    if (fromDyn != want) bad("static-from-dynamic", fmt("Lock%s from DynamicLock%s: constructible is %d", Kind<J>::name(), Kind<I>::name(), (int)fromDyn));
}

template<int I, int J, typename DL>
static void dynamicPair(const DL &d, size_t id, const char *via) {
    bool want = subset(Kind<J>::p, Kind<I>::p);
    auto l = Kind<J>::tryLock(d);
    Report::count("derivations_dynamic");
    if (l.has_value() != want)
        bad("dynamic", fmt("TryLock%s on a DynamicLock (%s) of a transaction with %s is %s", Kind<J>::name(), via, Kind<I>::name(), want ? "refused" : "granted"));
    if (l && l->GetTransactionId() != id) bad("transaction", fmt("TryLock%s from %s belongs to another transaction", Kind<J>::name(), Kind<I>::name()));
    if (l && Kind<J>::p.w) {
        // the derived lock can do what it was granted, in the same transaction
        Report::count("granted_writes");
    }
}

// what a granted lock can do takes effect in the transaction, and nothing else
template<int I, typename L>
static void use(const L &l, World &w, Entity e, const Perm &p, const char *what) {
    (void)w;
    uint64_t x = 1000 + I;
    try {
        if constexpr (is_write_allowed<A, L>()) {
            e.template Set<A>(l, A{x});
            if (e.template Get<A>(l).v != x) bad("use", fmt("%s: own write of A is not seen", what));
        } else if constexpr (is_read_allowed<A, L>()) {
            if (e.template Get<A>(l).v != 1) bad("use", fmt("%s: A reads %llu", what, (unsigned long long)e.template Get<A>(l).v));
        }
        if constexpr (is_write_allowed<C, L>()) {
            e.template Get<C>(l).v = x;
            if (e.template Get<C>(l).v != x) bad("use", fmt("%s: own write of C is not seen", what));
        }
        if constexpr (is_write_allowed<G, L>()) {
            l.template Set<G>(G{x});
            if (l.template Get<G>().v != x) bad("use", fmt("%s: own write of G is not seen", what));
        } else if constexpr (is_read_allowed<G, L>()) {
            if (l.template Get<G>().v != 1) bad("use", fmt("%s: G reads %llu", what, (unsigned long long)l.template Get<G>().v));
        }
        if constexpr (is_add_remove_allowed<L>()) {
            auto n = l.NewEntity();
            n.template Set<B>(l, B{x});
            if (!n.Exists(l) || !n.template Has<B>(l) || n.template Get<B>(l).v != x) bad("use", fmt("%s: a new entity is not seen", what));
        }
        Report::count("locks_used");
    } catch (const std::exception &ex) {
        bad("use", fmt("%s (r=%x w=%x): an operation it permits throws: %s", what, p.r, p.w, ex.what()));
    }
}

template<int I, int... J>
static void fromKind(std::integer_sequence<int, J...>) {
    where = fmt("source %s", Kind<I>::name());
    traits<typename Kind<I>::L>(Kind<I>::p, Kind<I>::name(), "Lock");
    traits<const typename Kind<I>::L>(Kind<I>::p, Kind<I>::name(), "const Lock");
    traits<typename Kind<I>::D>(Kind<I>::p, Kind<I>::name(), "DynamicLock");
    traits<const typename Kind<I>::D>(Kind<I>::p, Kind<I>::name(), "const DynamicLock");
    (staticPair<I, J>(), ...);
    World w;
    Entity e;
    {
        auto l = w.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, A{1});
        e.Set<B>(l, B{1});
        e.Set<C>(l, C{1});
        l.Set<G>(G{1});
    }
    auto count = [&] {
        auto l = w.StartTransaction<ReadAll>();
        return l.Entities().size();
    };
    {
        auto l = Kind<I>::start(w);
        DynamicLock<World> none(l);
        (dynamicPair<I, J>(none, l.GetTransactionId(), "no static permissions"), ...);
        typename Kind<I>::D full(l);
        (dynamicPair<I, J>(full, l.GetTransactionId(), "all static permissions"), ...);
        // through a copy of the source, and through a static copy of itself
        auto copy = l;
        DynamicLock<World> none2(copy);
        (dynamicPair<I, J>(none2, l.GetTransactionId(), "made from a copy"), ...);
        DynamicLock<World> none3(none);
        (void)none3;
        // made read-only: nothing derived from it can write
        auto ro = l.ReadOnlySubset();
        using RO = decltype(ro);
        traits<RO>(Perm{Kind<I>::p.r, 0, false}, Kind<I>::name(), "ReadOnlySubset of ");
        if (ro.GetTransactionId() != l.GetTransactionId()) bad("transaction", "ReadOnlySubset belongs to another transaction");
        auto chk = [&](auto jc) {
            constexpr int K = decltype(jc)::value;
            bool want = subset(Kind<K>::p, Perm{Kind<I>::p.r, 0, false});
            constexpr bool ctor = std::is_constructible_v<typename Kind<K>::L, const RO &>;
            if (ctor != want) bad("read-only-static", fmt("Lock%s from the read-only subset of Lock%s: constructible is %d", Kind<K>::name(), Kind<I>::name(), (int)ctor));
            Report::count("derivations_static");
        };
        (chk(std::integral_constant<int, J>{}), ...);
    }
    // use what was granted: statically and dynamically derived
    auto useDyn = [&](auto jc) {
        constexpr int K = decltype(jc)::value;
        if (!subset(Kind<K>::p, Kind<I>::p)) return;
        World w2;
        Entity e2;
        {
            auto l = w2.StartTransaction<AddRemove>();
            e2 = l.NewEntity();
            e2.Set<A>(l, A{1});
            e2.Set<B>(l, B{1});
            e2.Set<C>(l, C{1});
            l.Set<G>(G{1});
        }
        {
            auto l = Kind<I>::start(w2);
            DynamicLock<World> d(l);
            auto t = Kind<K>::tryLock(d);
            if (t) use<K>(*t, w2, e2, Kind<K>::p, fmt("TryLock%s from %s", Kind<K>::name(), Kind<I>::name()).c_str());
        }
        // committed exactly what the lock wrote
        auto l = w2.StartTransaction<ReadAll>();
        uint64_t x = 1000 + K;
        if (e2.Get<A>(l).v != ((Kind<K>::p.w & XA) ? x : 1) || e2.Get<B>(l).v != 1 || e2.Get<C>(l).v != ((Kind<K>::p.w & XC) ? x : 1) ||
            l.Get<G>().v != ((Kind<K>::p.w & XG) ? x : 1) || l.Entities().size() != (Kind<K>::p.ar ? 2u : 1u))
            bad("commit", fmt("writes through TryLock%s from %s are not what is committed", Kind<K>::name(), Kind<I>::name()));
        Report::count("commits_checked");
    };
    (useDyn(std::integral_constant<int, J>{}), ...);
    (void)count;
}

// compiled in four parts (PART=0..3); the first has main
template<int... I>
static void some(std::integer_sequence<int, I...>) {
    (fromKind<I * 4 + PART>(std::make_integer_sequence<int, NK>()), ...);
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(part, PART)() { some(std::make_integer_sequence<int, (NK - PART + 3) / 4>()); }

#if PART == 0
void part1();
void part2();
void part3();
int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    Watchdog::start(60);
    Watchdog::what() = "perm";
    part0();
    part1();
    part2();
    part3();
    Report::count("cases", NK);
    Report::sample("26 permission spellings, e.g. <Write<A>, Read<B>, Write<G>> against <Read<A>, Write<B>>: refused statically and dynamically");
    Report::finish();
    return 0;
}
#endif
