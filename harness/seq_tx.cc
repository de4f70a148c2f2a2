// Instantiates the lock handles. GROUP selects which permission lists, so that several translation units compile in parallel.
#include "seq.hh"

template<int I>
struct Tx final : TxBase {
    using L = typename LockOf<I>::type;
    L lock;
    Tx(const L &l) : lock(l) {}

    template<typename X>
    static constexpr bool rd = Tecs::is_read_allowed<X, L>::value;
    template<typename X>
    static constexpr bool wr = Tecs::is_write_allowed<X, L>::value;
    static constexpr bool ar = Tecs::is_add_remove_allowed<L>::value;

    int perm() const override { return I; }
    unsigned traitMask(int which) const override {
        if (which == 0)
            return rd<A> << cA | rd<G> << cG | rd<B> << cB | rd<T> << cT | rd<C> << cC | rd<H> << cH;
        if (which == 1)
            return wr<A> << cA | wr<G> << cG | wr<B> << cB | wr<T> << cT | wr<C> << cC | wr<H> << cH;
        return ar;
    }

    template<typename F>
    static Res guard(F &&f) {
        Res r;
        try {
            f(r);
        } catch (const std::runtime_error &e) {
            r.k = Res::THREW;
            r.what = e.what();
        }
        return r;
    }
    template<typename F>
    static Res entComp(int c, F &&f) {
        switch (c) {
        case cA: return f((A *)nullptr);
        case cB: return f((B *)nullptr);
        case cT: return f((T *)nullptr);
        case cC: return f((C *)nullptr);
        }
        abort();
    }
    template<typename F>
    static Res globComp(int c, F &&f) {
        switch (c) {
        case cG: return f((G *)nullptr);
        case cH: return f((H *)nullptr);
        }
        abort();
    }
    static Res noperm() {
        Res r;
        r.k = Res::NOPERM;
        return r;
    }

    bool exists(Entity e) const override { return e.Exists(lock); }
    bool existed(Entity e) const override { return e.Existed(lock); }
    bool has(unsigned m, Entity e) const override {
        switch (m) {
        case 0: return e.Exists(lock);
        case bit(cA): return e.Has<A>(lock);
        case bit(cB): return e.Has<B>(lock);
        case bit(cT): return e.Has<T>(lock);
        case bit(cC): return e.Has<C>(lock);
        case bit(cA) | bit(cB): return e.Has<A, B>(lock);
        case bit(cA) | bit(cT) | bit(cC): return e.Has<C, A, T>(lock);
        case bit(cB) | bit(cC): return e.Has<C, B>(lock);
        case bit(cA) | bit(cB) | bit(cT) | bit(cC): return e.Has<A, B, C, T>(lock);
        }
        abort();
    }
    bool had(unsigned m, Entity e) const override {
        switch (m) {
        case 0: return e.Existed(lock);
        case bit(cA): return e.Had<A>(lock);
        case bit(cB): return e.Had<B>(lock);
        case bit(cT): return e.Had<T>(lock);
        case bit(cC): return e.Had<C>(lock);
        case bit(cA) | bit(cB): return e.Had<A, B>(lock);
        case bit(cA) | bit(cT) | bit(cC): return e.Had<C, A, T>(lock);
        case bit(cB) | bit(cC): return e.Had<C, B>(lock);
        case bit(cA) | bit(cB) | bit(cT) | bit(cC): return e.Had<A, B, C, T>(lock);
        }
        abort();
    }
    Res get(int c, Entity e, bool write, uint64_t v) const override {
        return entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    auto &x = e.template Get<X>(lock);
                    r.v = Codec<X>::get(x);
                    if constexpr (wr<X>) {
                        if (write) x = Codec<X>::make(v);
                    }
                });
            } else
                return noperm();
        });
    }
    Res cget(int c, Entity e) const override {
        return entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    const X &x = e.template Get<const X>(lock);
                    r.v = Codec<X>::get(x);
                });
            } else
                return noperm();
        });
    }
    Res pget(int c, Entity e) const override {
        return entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    const X &x = e.template GetPrevious<X>(lock);
                    r.v = Codec<X>::get(x);
                });
            } else
                return noperm();
        });
    }
    template<typename X>
    void setEnt(const Entity &e, uint64_t v, int mode, Res &r) const {
        if (mode == sLvalue) {
            X x = Codec<X>::make(v);
            r.v = Codec<X>::get(e.template Set<X>(lock, x));
        } else if (mode == sArgs) {
            r.v = Codec<X>::get(e.template Set<X>(lock, Codec<X>::make(v)));
        } else if (mode == sConst) {
            const X x = Codec<X>::make(v);
            r.v = Codec<X>::get(e.template Set<X>(lock, x));
        } else if (mode == sDefault) {
            r.v = Codec<X>::get(e.template Set<X>(lock));
        } else {
            X &x = e.template Set<X>(lock);
            x = Codec<X>::make(v);
            r.v = Codec<X>::get(x);
        }
    }
    Res set(int c, Entity e, uint64_t v, int mode) const override {
        return entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (wr<X>) {
                return guard([&](Res &r) {
                    setEnt<X>(e, v, mode, r);
                });
            } else
                return noperm();
        });
    }
    Res copySet(int c, Entity dst, Entity src) const override {
        return entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (wr<X>) {
                return guard([&](Res &r) {
                    X &s = src.template Get<X>(lock);
                    r.v = Codec<X>::get(dst.template Set<X>(lock, s));
                });
            } else
                return noperm();
        });
    }
    void doUnset(unsigned m, const Entity &e) const {
        if constexpr (ar) {
            switch (m) {
            case bit(cA): e.Unset<A>(lock); return;
            case bit(cB): e.Unset<B>(lock); return;
            case bit(cT): e.Unset<T>(lock); return;
            case bit(cC): e.Unset<C>(lock); return;
            case bit(cA) | bit(cB): e.Unset<A, B>(lock); return;
            case bit(cB) | bit(cT) | bit(cC): e.Unset<T, B, C>(lock); return;
            case bit(cA) | bit(cB) | bit(cT) | bit(cC): e.Unset<A, B, T, C>(lock); return;
            }
            abort();
        }
    }
    Res unset(unsigned m, Entity e) const override {
        if constexpr (ar) {
            return guard([&](Res &) {
                doUnset(m, e);
            });
        } else
            return noperm();
    }
    Res destroy(Entity &e, bool constCall) const override {
        if constexpr (ar) {
            return guard([&](Res &) {
                if (constCall) {
                    const Entity &ce = e;
                    ce.Destroy(lock);
                } else
                    e.Destroy(lock);
            });
        } else
            return noperm();
    }
    Res newEntity(Entity &out) const override {
        if constexpr (ar) {
            return guard([&](Res &) {
                out = lock.NewEntity();
            });
        } else
            return noperm();
    }
    EntityView view(int c) const override {
        switch (c) {
        case -1: return lock.Entities();
        case cA: return lock.template EntitiesWith<A>();
        case cB: return lock.template EntitiesWith<B>();
        case cT: return lock.template EntitiesWith<T>();
        case cC: return lock.template EntitiesWith<C>();
        }
        abort();
    }
    EntityView prevView(int c) const override {
        switch (c) {
        case -1: return lock.PreviousEntities();
        case cA: return lock.template PreviousEntitiesWith<A>();
        case cB: return lock.template PreviousEntitiesWith<B>();
        case cT: return lock.template PreviousEntitiesWith<T>();
        case cC: return lock.template PreviousEntitiesWith<C>();
        }
        abort();
    }
    Res actOnRef(int viewc, size_t i, int act, int c, uint64_t v) const override {
        if constexpr (ar) {
            return entComp(c, [&](auto *t) {
                using X = std::remove_pointer_t<decltype(t)>;
                return guard([&](Res &r) {
                    auto vw = view(viewc);
                    const Entity &e = vw[i]; // deliberately a reference into the list
                    switch (act) {
                    case actUnset: e.template Unset<X>(lock); break;
                    case actUnset2: doUnset(bit(cA) | bit(cB) | bit(cT) | bit(cC), e); break;
                    case actDestroy: e.Destroy(lock); break;
                    case actSet: setEnt<X>(e, v, sArgs, r); break;
                    case actGet: r.v = Codec<X>::get(e.template Get<X>(lock)); break;
                    }
                });
            });
        } else
            return noperm();
    }
    void *ref(int c, Entity e) const override {
        void *out = nullptr;
        entComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (wr<X>) {
                return guard([&](Res &) {
                    out = &e.template Get<X>(lock);
                });
            } else
                return noperm();
        });
        return out;
    }
    bool ghas(unsigned m) const override {
        if (m == (bit(cG) | bit(cH))) return lock.template Has<G, H>();
        return m == bit(cG) ? lock.template Has<G>() : lock.template Has<H>();
    }
    bool ghad(unsigned m) const override {
        if (m == (bit(cG) | bit(cH))) return lock.template Had<G, H>();
        return m == bit(cG) ? lock.template Had<G>() : lock.template Had<H>();
    }
    Res gget(int c, bool write, uint64_t v) const override {
        return globComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    auto &x = lock.template Get<X>();
                    r.v = Codec<X>::get(x);
                    if constexpr (wr<X>) {
                        if (write) x = Codec<X>::make(v);
                    }
                });
            } else
                return noperm();
        });
    }
    Res gcget(int c) const override {
        return globComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    const X &x = lock.template Get<const X>();
                    r.v = Codec<X>::get(x);
                });
            } else
                return noperm();
        });
    }
    Res gpget(int c) const override {
        return globComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (rd<X>) {
                return guard([&](Res &r) {
                    const X &x = lock.template GetPrevious<X>();
                    r.v = Codec<X>::get(x);
                });
            } else
                return noperm();
        });
    }
    Res gset(int c, uint64_t v, int mode) const override {
        return globComp(c, [&](auto *t) {
            using X = std::remove_pointer_t<decltype(t)>;
            if constexpr (wr<X>) {
                return guard([&](Res &r) {
                    if (mode == sLvalue) {
                        X x = Codec<X>::make(v);
                        r.v = Codec<X>::get(lock.template Set<X>(x));
                    } else if (mode == sArgs) {
                        r.v = Codec<X>::get(lock.template Set<X>(Codec<X>::make(v)));
                    } else if (mode == sConst) {
                        const X x = Codec<X>::make(v);
                        r.v = Codec<X>::get(lock.template Set<X>(x));
                    } else if (mode == sDefault) {
                        r.v = Codec<X>::get(lock.template Set<X>());
                    } else {
                        X &x = lock.template Set<X>();
                        x = Codec<X>::make(v);
                        r.v = Codec<X>::get(x);
                    }
                });
            } else
                return noperm();
        });
    }
    Res gunset(unsigned m) const override {
        if constexpr (ar) {
            return guard([&](Res &) {
                if (m == (bit(cG) | bit(cH))) lock.template Unset<G, H>();
                else if (m == bit(cG)) lock.template Unset<G>();
                else lock.template Unset<H>();
            });
        } else
            return noperm();
    }

    template<int J>
    static constexpr bool canDeriveTo() {
        return std::is_constructible_v<typename LockOf<J>::type, const L &>;
    }
    template<int... J>
    bool canDeriveI(int j, std::integer_sequence<int, J...>) const {
        bool r = false;
        ((r = j == J ? canDeriveTo<J>() : r), ...);
        return r;
    }
    bool canDerive(int j) const override { return canDeriveI(j, std::make_integer_sequence<int, NPERM>()); }
    template<int... J>
    bool hasPermI(int j, std::integer_sequence<int, J...>) const {
        bool r = false;
        ((r = j == J ? L::template has_permissions<typename LockOf<J>::type>() : r), ...);
        return r;
    }
    bool hasPermissions(int j) const override { return hasPermI(j, std::make_integer_sequence<int, NPERM>()); }

    template<int J>
    TxBase *deriveTo(int how) const {
        if constexpr (canDeriveTo<J>()) {
            using LJ = typename LockOf<J>::type;
            if constexpr (L::template has_permissions<LJ>()) {
                if (how == 1) return wrapLock<J>(lock.template Subset<LJ>());
            }
            LJ d = lock;
            return wrapLock<J>(d);
        } else
            return nullptr;
    }
    template<int... J>
    TxBase *deriveI(int j, int how, std::integer_sequence<int, J...>) const {
        TxBase *r = nullptr;
        ((j == J ? (void)(r = deriveTo<J>(how)) : (void)0), ...);
        return r;
    }
    TxBase *derive(int j, int how) const override { return deriveI(j, how, std::make_integer_sequence<int, NPERM>()); }

    TxBase *readOnly() const override {
        auto ro = lock.ReadOnlySubset();
        constexpr int J = readOnlyOf[I];
        using LJ = typename LockOf<J>::type;
        if constexpr (std::is_constructible_v<LJ, const decltype(ro) &>) return wrapLock<J>(LJ(ro));
        else return nullptr;
    }
    template<int J, typename Dyn>
    TxBase *tryTo(const Dyn &d) const {
        auto o = d.template TryLock<typename LockOf<J>::type>();
        if (!o) return nullptr;
        typename LockOf<J>::type lj = *o;
        return wrapLock<J>(lj);
    }
    template<typename Dyn, int... J>
    TxBase *tryI(const Dyn &d, int j, std::integer_sequence<int, J...>) const {
        TxBase *r = nullptr;
        ((j == J ? (void)(r = tryTo<J>(d)) : (void)0), ...);
        return r;
    }
    TxBase *tryLock(int flavour, int j) const override {
        constexpr auto seq = std::make_integer_sequence<int, NPERM>();
        if constexpr (std::is_constructible_v<Tecs::Lock<World, Tecs::Read<A>>, const L &>) {
            if (flavour == 1) {
                Tecs::DynamicLock<World, Tecs::Read<A>> d(lock);
                return tryI(d, j, seq);
            }
        }
        Tecs::DynamicLock<World> d(lock);
        return tryI(d, j, seq);
    }
    TxBase *copy() const override { return new Tx<I>(lock); }
    Tecs::Lock<World> base() const override { return lock; }
    bool addRemoveLock(void (*f)(const Tecs::Lock<World, Tecs::AddRemove> &, void *), void *p) const override {
        if constexpr (ar && std::is_constructible_v<Tecs::Lock<World, Tecs::AddRemove>, const L &>) {
            f(lock, p);
            return true;
        } else
            return false;
    }
    long useCount() const override { return lock.UseCount(); }
    uint64_t txid() const override {
#ifdef TECS_HEADER_ONLY
        return 0;
#else
        return lock.GetTransactionId();
#endif
    }
    World *instance() const override { return &lock.GetInstance(); }
};

#define INST(J)                                                                                                        \
    TxBase *wrapLockImpl(std::integral_constant<int, J>, const LockOf<J>::type &l) {                                   \
        return new Tx<J>(l);                                                                                           \
    }                                                                                                                  \
    TxBase *startTx##J(World &w) {                                                                                     \
        return new Tx<J>(LockOf<J>::start(w));                                                                         \
    }
#if GROUP == 0
INST(0) INST(1) INST(2)
#elif GROUP == 1
INST(3) INST(12)
#elif GROUP == 2
INST(4) INST(5)
#elif GROUP == 3
INST(6) INST(11)
#elif GROUP == 4
INST(7) INST(13)
#elif GROUP == 5
INST(8)
#elif GROUP == 6
INST(9) INST(14)
#elif GROUP == 7
INST(10)
#endif
