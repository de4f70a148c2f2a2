// World, component codecs, permission table and the type-erased lock handle of the sequential fuzzer.
#pragma once
#include "common.hh"

#include <Tecs.hh>
#include <memory>
#include <optional>
#include <string>

// ---- component types -------------------------------------------------------------------------------------------
struct A { // plain data with a self check
    uint64_t v = 0;
    uint64_t chk = 0;
};
using B = std::string;

struct Payload {
    uint64_t id;
};
struct Tok { // owns a resource; instances are counted and checked
    static std::atomic<int64_t> live;
    static std::atomic<uint64_t> bad;
    uint64_t magic = 0x600DF00Dull;
    uint64_t v = 0;
    std::shared_ptr<Payload> p;
    Tok() { live++; }
    Tok(uint64_t v, std::shared_ptr<Payload> p) : v(v), p(std::move(p)) { live++; }
    Tok(const Tok &o) : v(o.v), p(o.p) {
        live++;
        if (o.magic != 0x600DF00Dull) bad++;
    }
    Tok &operator=(const Tok &o) {
        if (o.magic != 0x600DF00Dull || magic != 0x600DF00Dull) bad++;
        v = o.v;
        p = o.p;
        return *this;
    }
    ~Tok() {
        if (magic != 0x600DF00Dull) bad++;
        magic = 0xDEADull;
        live--;
    }
};
struct T : Tok {
    using Tok::Tok;
};
struct H : Tok {
    using Tok::Tok;
};
using C = uint8_t;
struct G {
    uint64_t v = 0;
    uint32_t w = 0;
};
TECS_GLOBAL_COMPONENT(G);
TECS_GLOBAL_COMPONENT(H);
TECS_NAME_COMPONENT(B, "Bname");

using World = Tecs::ECS<A, G, B, T, C, H>;
enum { cA, cG, cB, cT, cC, cH, NCOMP };
static const char *const compNames[] = {"A", "G", "B", "T", "C", "H"};
constexpr bool isGlobalC(int c) { return c == cG || c == cH; }
constexpr unsigned ALL = 0x3f;
constexpr uint64_t CORRUPT = ~0ull;

std::shared_ptr<Payload> newPayload(uint64_t v); // registers a weak reference (seq_main.cc)

template<typename X>
struct Codec;
template<>
struct Codec<A> {
    static uint64_t norm(uint64_t v) { return v; }
    static A make(uint64_t v) { return A{v, v ? v * 3 + 7 : 0}; }
    static uint64_t get(const A &a) { return a.chk == (a.v ? a.v * 3 + 7 : 0) ? a.v : CORRUPT; }
};
template<>
struct Codec<B> {
    static uint64_t norm(uint64_t v) { return v; }
    static B make(uint64_t v) { return v ? std::to_string(v) + std::string(v % 29, 'x') : B(); }
    static uint64_t get(const B &b) {
        if (b.empty()) return 0;
        uint64_t v = strtoull(b.c_str(), nullptr, 10);
        return b == make(v) ? v : CORRUPT;
    }
};
template<typename X>
struct TokCodec {
    static uint64_t norm(uint64_t v) { return v; }
    static X make(uint64_t v) { return v ? X(v, newPayload(v)) : X(); }
    static uint64_t get(const X &t) {
        if (t.magic != 0x600DF00Dull) return CORRUPT;
        if (!t.v) return t.p ? CORRUPT : 0;
        return t.p && t.p->id == t.v ? t.v : CORRUPT;
    }
};
template<>
struct Codec<T> : TokCodec<T> {};
template<>
struct Codec<H> : TokCodec<H> {};
template<>
struct Codec<C> {
    static uint64_t norm(uint64_t v) { return v & 0xff; }
    static C make(uint64_t v) { return (C)v; }
    static uint64_t get(const C &c) { return c; }
};
template<>
struct Codec<G> {
    static uint64_t norm(uint64_t v) { return v; }
    static G make(uint64_t v) { return G{v, (uint32_t)(v ^ (v >> 32))}; }
    static uint64_t get(const G &g) { return g.w == (uint32_t)(g.v ^ (g.v >> 32)) ? g.v : CORRUPT; }
};

// ---- permission table (the harness' own notion of what each list grants) -----------------------------------------
struct PermDef {
    const char *name;
    unsigned rd, wr;
    bool ar;
};
constexpr unsigned bit(int c) { return 1u << c; }
constexpr PermDef perms[] = {
    {"", 0, 0, false},                                                                        // 0
    {"Read<A>", bit(cA), 0, false},                                                           // 1
    {"Read<A,G,B>", bit(cA) | bit(cG) | bit(cB), 0, false},                                   // 2
    {"ReadAll", ALL, 0, false},                                                               // 3
    {"Write<A>", bit(cA), bit(cA), false},                                                    // 4
    {"Read<B>,Write<A,G>", bit(cA) | bit(cG) | bit(cB), bit(cA) | bit(cG), false},            // 5
    {"Write<B,T>", bit(cB) | bit(cT), bit(cB) | bit(cT), false},                              // 6
    {"WriteAll", ALL, ALL, false},                                                            // 7
    {"AddRemove", ALL, ALL, true},                                                            // 8
    {"ReadAll,Write<T,H>", ALL, bit(cT) | bit(cH), false},                                    // 9
    {"AddRemove,Write<A>", ALL, ALL, true},                                                   // 10
    {"Write<C,H>,Read<T>", bit(cT) | bit(cC) | bit(cH), bit(cC) | bit(cH), false},            // 11
    {"Read<A,G,B,T,C,H>", ALL, 0, false},                                                     // 12
    {"Read<B,T>", bit(cB) | bit(cT), 0, false},                                               // 13
    {"Read<T,C,H>", bit(cT) | bit(cC) | bit(cH), 0, false},                                   // 14
};
constexpr int NPERM = 15;
// for each, which entry its read-only variant is (component order)
constexpr int readOnlyOf[NPERM] = {0, 1, 2, 12, 1, 2, 13, 12, 12, 12, 12, 14, 12, 13, 14};

constexpr bool permSubset(int sub, unsigned rd, unsigned wr, bool ar) {
    return (perms[sub].rd & ~rd) == 0 && (perms[sub].wr & ~wr) == 0 && (!perms[sub].ar || ar);
}

template<int I>
struct LockOf;
#define DEF_LOCK(I, ...)                                                                                               \
    template<>                                                                                                         \
    struct LockOf<I> {                                                                                                 \
        using type = Tecs::Lock<World, ##__VA_ARGS__>;                                                                 \
        static type start(World &w) { return w.StartTransaction<__VA_ARGS__>(); }                                      \
    };
namespace tp {
    using namespace Tecs;
    using R1 = Read<A>;
    using R2 = Read<A, G, B>;
    using W5 = Write<A, G>;
    using W6 = Write<B, T>;
    using W9 = Write<T, H>;
    using W11 = Write<C, H>;
    using R12 = Read<A, G, B, T, C, H>;
    using R13 = Read<B, T>;
    using R14 = Read<T, C, H>;
} // namespace tp
DEF_LOCK(0)
DEF_LOCK(1, tp::R1)
DEF_LOCK(2, tp::R2)
DEF_LOCK(3, Tecs::ReadAll)
DEF_LOCK(4, Tecs::Write<A>)
DEF_LOCK(5, Tecs::Read<B>, tp::W5)
DEF_LOCK(6, tp::W6)
DEF_LOCK(7, Tecs::WriteAll)
DEF_LOCK(8, Tecs::AddRemove)
DEF_LOCK(9, Tecs::ReadAll, tp::W9)
DEF_LOCK(10, Tecs::AddRemove, Tecs::Write<A>)
DEF_LOCK(11, tp::W11, Tecs::Read<T>)
DEF_LOCK(12, tp::R12)
DEF_LOCK(13, tp::R13)
DEF_LOCK(14, tp::R14)

// ---- type-erased lock ----------------------------------------------------------------------------------------------
using Tecs::Entity;
using Tecs::EntityView;
struct Res {
    enum K { OK, THREW, NOPERM } k = OK;
    uint64_t v = 0;
    std::string what;
};
enum SetMode { sLvalue, sArgs, sConst, sDefault, sThroughResult, NSETMODE };
enum ActKind { actUnset, actUnset2, actDestroy, actSet, actGet, NACT };

struct TxBase {
    virtual ~TxBase() {}
    virtual int perm() const = 0;
    virtual unsigned traitMask(int which) const = 0; // 0 read, 1 write, 2 addremove
    virtual bool exists(Entity) const = 0;
    virtual bool existed(Entity) const = 0;
    virtual bool has(unsigned mask, Entity) const = 0; // mask over entity components, see hasMasks
    virtual bool had(unsigned mask, Entity) const = 0;
    virtual Res get(int c, Entity, bool write, uint64_t v) const = 0;
    virtual Res cget(int c, Entity) const = 0;
    virtual Res pget(int c, Entity) const = 0;
    virtual Res set(int c, Entity, uint64_t v, int mode) const = 0;
    virtual Res copySet(int c, Entity dst, Entity src) const = 0;
    virtual Res unset(unsigned mask, Entity) const = 0;
    virtual Res destroy(Entity &, bool constCall) const = 0;
    virtual Res newEntity(Entity &out) const = 0;
    virtual EntityView view(int c) const = 0; // -1: all entities
    virtual EntityView prevView(int c) const = 0;
    virtual Res actOnRef(int viewc, size_t i, int act, int c, uint64_t v) const = 0;
    virtual void *ref(int c, Entity) const = 0; // mutable reference, entity has the component
    virtual bool ghas(unsigned mask) const = 0;
    virtual bool ghad(unsigned mask) const = 0;
    virtual Res gget(int c, bool write, uint64_t v) const = 0;
    virtual Res gcget(int c) const = 0;
    virtual Res gpget(int c) const = 0;
    virtual Res gset(int c, uint64_t v, int mode) const = 0;
    virtual Res gunset(unsigned mask) const = 0;
    virtual bool canDerive(int j) const = 0;
    virtual bool hasPermissions(int j) const = 0;
    virtual TxBase *derive(int j, int how) const = 0; // 0 conversion, 1 Subset<>
    virtual TxBase *readOnly() const = 0;
    virtual TxBase *tryLock(int flavour, int j) const = 0; // through a DynamicLock; null if refused
    virtual TxBase *copy() const = 0;
    virtual Tecs::Lock<World> base() const = 0;
    virtual bool addRemoveLock(void (*f)(const Tecs::Lock<World, Tecs::AddRemove> &, void *), void *) const = 0;
    virtual long useCount() const = 0;
    virtual uint64_t txid() const = 0;
    virtual World *instance() const = 0;
};
uint64_t readRef(int c, const void *);
void writeRef(int c, void *, uint64_t v);
using StartFn = TxBase *(*)(World &);
#define DECL_WRAP(J)                                                                                                   \
    TxBase *wrapLockImpl(std::integral_constant<int, J>, const LockOf<J>::type &);                                     \
    TxBase *startTx##J(World &);
DECL_WRAP(0) DECL_WRAP(1) DECL_WRAP(2) DECL_WRAP(3) DECL_WRAP(4) DECL_WRAP(5) DECL_WRAP(6) DECL_WRAP(7) DECL_WRAP(8)
DECL_WRAP(9) DECL_WRAP(10) DECL_WRAP(11) DECL_WRAP(12) DECL_WRAP(13) DECL_WRAP(14)
template<int J>
TxBase *wrapLock(const typename LockOf<J>::type &l) {
    return wrapLockImpl(std::integral_constant<int, J>(), l);
}

// masks used for multi-component calls
constexpr unsigned hasMasks[] = {0, bit(cA), bit(cB), bit(cT), bit(cC), bit(cA) | bit(cB), bit(cA) | bit(cT) | bit(cC),
    bit(cB) | bit(cC), bit(cA) | bit(cB) | bit(cT) | bit(cC)};
constexpr int NHASMASK = 9;
constexpr unsigned unsetMasks[] = {bit(cA), bit(cB), bit(cT), bit(cC), bit(cA) | bit(cB), bit(cB) | bit(cT) | bit(cC),
    bit(cA) | bit(cB) | bit(cT) | bit(cC)};
constexpr int NUNSETMASK = 7;
