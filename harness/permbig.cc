// Run-time derivation of locks in instances with about as many components as fit into a machine word, and with more.
// BIGN: the number of component types. Every pair of 10 permission sets against sets written down by hand.
#include "common.hh"

#include <Tecs.hh>
#include <set>
#include <utility>

#ifndef BIGN
    #define BIGN 70
#endif
using namespace Tecs;
#define CAT4(a, b, c, d) a##b##c##d
#define CAT(a, b, c, d) CAT4(a, b, c, d)
namespace CAT(big, BIGN, , ) {
    template<int I>
    struct K {
        uint64_t v = 0;
    };
    template<int... I>
    auto make(std::integer_sequence<int, I...>) -> ECS<K<I>...>;
    constexpr int N = BIGN, LAST = N - 1, MID = N / 2;
    using World = decltype(make(std::make_integer_sequence<int, N>()));

    struct Perm {
        std::set<int> r, w;
        bool ar = false;
    };
    inline std::set<int> all() {
        std::set<int> s;
        for (int i = 0; i < N; i++) s.insert(i);
        return s;
    }
    inline bool within(const std::set<int> &a, const std::set<int> &b) {
        for (int x : a)
            if (!b.count(x)) return false;
        return true;
    }
    inline bool subset(const Perm &a, const Perm &b) { return within(a.r, b.r) && within(a.w, b.w) && (!a.ar || b.ar); }

    template<int I>
    struct Kind;
#define KIND(I, P, ...)                                                                                                \
    template<>                                                                                                         \
    struct Kind<I> {                                                                                                   \
        using L = Lock<World, ##__VA_ARGS__>;                                                                          \
        static Perm p() { return Perm P; }                                                                             \
        static const char *name() { return "<" #__VA_ARGS__ ">"; }                                                     \
        static L start(World &w);                                                                                      \
        template<typename DL>                                                                                          \
        static auto tryLock(const DL &d) { return d.template TryLock<__VA_ARGS__>(); }                                 \
    };
#define S(...) std::set<int>{__VA_ARGS__}
#define P(...) {__VA_ARGS__}
    KIND(0, P(S(), S(), false))
    KIND(1, P(S(0), S(), false), Read<K<0>>)
    KIND(2, P(S(0), S(0), false), Write<K<0>>)
    KIND(3, P(S(LAST), S(LAST), false), Write<K<LAST>>)
    KIND(4, P(S(31, 32, LAST - 1), S(LAST - 1), false), Read<K<31>, K<32>>, Write<K<LAST - 1>>)
    KIND(5, P(all(), S(), false), ReadAll)
    KIND(6, P(all(), all(), false), WriteAll)
    KIND(7, P(all(), all(), true), AddRemove)
    KIND(8, P(all(), S(LAST), false), ReadAll, Write<K<LAST>>)
    KIND(9, P(S(LAST, 0), S(0), false), Read<K<LAST>>, Write<K<0>>)
#undef P
#undef S
    constexpr int NK = 10;

    // Starting transactions takes most of the compile time, so that has units of its own (PART 10 and up).
#define START(I, ...) typename Kind<I>::L Kind<I>::start(World &w) { return w.StartTransaction<__VA_ARGS__>(); }
    Entity setup(World &w);
    std::string contents(World &w, Entity e);
    inline void bad(const std::string &sig, const std::string &msg) { Report::violation("C16", "permbig:" + sig, msg, fmt("%d components", N)); }

    template<int C, typename L>
    void useOne(const L &l, Entity e, const Perm &p, const char *what) {
        if (is_read_allowed<K<C>, L>() != (p.r.count(C) > 0) || is_write_allowed<K<C>, L>() != (p.w.count(C) > 0))
            bad("allowed", fmt("%s: the permissions for component %d are not those asked for", what, C));
        if constexpr (is_write_allowed<K<C>, L>()) {
            e.template Set<K<C>>(l, K<C>{2});
            if (e.template Get<K<C>>(l).v != 2) bad("use", fmt("%s: own write of component %d is not seen", what, C));
        } else if constexpr (is_read_allowed<K<C>, L>()) {
            if (e.template Get<K<C>>(l).v != 1) bad("use", fmt("%s: component %d reads another value", what, C));
        }
    }

    template<int I, int J>
    void pair() {
        Perm from = Kind<I>::p(), to = Kind<J>::p();
        bool want = subset(to, from);
        static bool seen = false;
        if (!seen) Report::count("distinct_pairs");
        seen = true;
        std::string what = fmt("TryLock%s from a transaction with %s", Kind<J>::name(), Kind<I>::name());
        constexpr bool ctor = std::is_constructible_v<typename Kind<J>::L, const typename Kind<I>::L &>;
        Report::count("derivations_static");
        if (ctor != want) bad("static", fmt("Lock%s from Lock%s: constructible is %d", Kind<J>::name(), Kind<I>::name(), (int)ctor));
        World w;
        Entity e = setup(w);
        bool used = false;
        {
            auto l = Kind<I>::start(w);
            DynamicLock<World> d(l);
            DynamicLock<World> d2(d);
            (void)d2;
            auto t = Kind<J>::tryLock(d);
            Report::count("derivations_dynamic");
            if (t.has_value() != want) bad("dynamic", what + (want ? " is refused" : " is granted"));
            if (t && want) {
                try {
                    useOne<0>(*t, e, to, what.c_str());
                    useOne<1>(*t, e, to, what.c_str());
                    useOne<MID>(*t, e, to, what.c_str());
                    useOne<LAST - 1>(*t, e, to, what.c_str());
                    useOne<LAST>(*t, e, to, what.c_str());
                    if (is_add_remove_allowed<typename Kind<J>::L>() != to.ar) bad("allowed", what + ": add/remove permission is not what was asked for");
                    if constexpr (is_add_remove_allowed<typename Kind<J>::L>()) (*t).NewEntity().template Set<K<LAST>>(*t, K<LAST>{3});
                    used = true;
                } catch (const std::exception &ex) {
                    bad("use", what + ": an operation it permits throws: " + ex.what());
                }
            }
            // made read-only, it can do no more than read
            auto ro = l.ReadOnlySubset();
            DynamicLock<World> rd(ro);
            auto t2 = Kind<J>::tryLock(rd);
            bool wantRo = subset(to, Perm{from.r, {}, false});
            if (t2.has_value() != wantRo) bad("read-only", fmt("TryLock%s from the read-only subset of %s%s", Kind<J>::name(), Kind<I>::name(), wantRo ? " is refused" : " is granted"));
        }
        auto v = [&](int c) { return used && to.w.count(c) ? 2 : 1; };
        std::string want2 = fmt("%d %d %d %d %d %d", v(0), v(1), v(MID), v(LAST - 1), v(LAST), used && to.ar ? 2 : 1), got = contents(w, e);
        if (got != want2) bad("commit", "writes through " + what + " are not what is committed: " + got + " instead of " + want2);
        Report::count("commits_checked");
    }
    template<int I, int... J>
    void row(std::integer_sequence<int, J...>) {
        (pair<I, J>(), ...);
    }
    template<int Part, int... I>
    void table(std::integer_sequence<int, I...>) {
        (row<I * 5 + Part>(std::make_integer_sequence<int, NK>()), ...);
    }
// PART 0..4: the pairs, a fifth of the sources each; 10: setup; 11..: the transactions
#if PART < 10
    void CAT(big, BIGN, part, PART)() {
        table<PART>(std::make_integer_sequence<int, (NK - PART + 4) / 5>());
        if (PART == 0) Report::count("component_counts");
    }
#elif PART == 10
    Entity setup(World &w) {
        auto l = w.StartTransaction<AddRemove>();
        Entity e = l.NewEntity();
        e.Set<K<0>>(l, K<0>{1});
        e.Set<K<1>>(l, K<1>{1});
        e.Set<K<MID>>(l, K<MID>{1});
        e.Set<K<LAST - 1>>(l, K<LAST - 1>{1});
        e.Set<K<LAST>>(l, K<LAST>{1});
        return e;
    }
    START(7, AddRemove)
#elif PART == 11
    START(6, WriteAll)
    START(8, ReadAll, Write<K<LAST>>)
    START(0)
#elif PART == 12
    START(5, ReadAll)
    START(1, Read<K<0>>)
    START(2, Write<K<0>>)
    START(3, Write<K<LAST>>)
    START(4, Read<K<31>, K<32>>, Write<K<LAST - 1>>)
    START(9, Read<K<LAST>>, Write<K<0>>)
    std::string contents(World &w, Entity e) {
        auto l = w.StartTransaction<ReadAll>();
        auto g = [&](auto c) { return (int)e.Get<K<decltype(c)::value>>(l).v; };
        return fmt("%d %d %d %d %d %d", g(std::integral_constant<int, 0>()), g(std::integral_constant<int, 1>()), g(std::integral_constant<int, MID>()),
            g(std::integral_constant<int, LAST - 1>()), g(std::integral_constant<int, LAST>()), (int)l.Entities().size() + (e.Has<K<2>>(l) ? 100 : 0));
    }
#endif
} // namespace

#if BIGN == 63 && PART == 0
    #define PARTS(n) X(n, 0) X(n, 1) X(n, 2) X(n, 3) X(n, 4)
    #define X(n, p) namespace big##n { void CAT(big, n, part, p)(); }
PARTS(63)
PARTS(64)
    #undef X
int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    Watchdog::start(60);
    Watchdog::what() = "permbig";
    #define X(n, p) big##n::CAT(big, n, part, p)();
    PARTS(63)
    PARTS(64)
    Report::finish();
    return 0;
}
#endif
