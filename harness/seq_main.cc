// Model-based sequential fuzzer: generated transaction programs run on the real ECS (two instances, two threads) and on a
// reference model; every result, list, event and the life time of every value is compared.
#include "seq.hh"

#include <algorithm>
#include <condition_variable>
#include <deque>
#include <functional>
#include <set>
#include <unordered_map>
#include <unordered_set>

std::atomic<int64_t> Tok::live{0};
std::atomic<uint64_t> Tok::bad{0};

static std::unordered_map<uint64_t, std::weak_ptr<Payload>> payloads;
std::shared_ptr<Payload> newPayload(uint64_t v) {
    auto it = payloads.find(v);
    if (it != payloads.end()) {
        if (auto p = it->second.lock()) return p;
    }
    auto p = std::make_shared<Payload>(Payload{v});
    payloads[v] = p;
    return p;
}
uint64_t readRef(int c, const void *p) {
    switch (c) {
    case cA: return Codec<A>::get(*(const A *)p);
    case cB: return Codec<B>::get(*(const B *)p);
    case cT: return Codec<T>::get(*(const T *)p);
    case cC: return Codec<C>::get(*(const C *)p);
    }
    abort();
}
void writeRef(int c, void *p, uint64_t v) {
    switch (c) {
    case cA: *(A *)p = Codec<A>::make(v); break;
    case cB: *(B *)p = Codec<B>::make(v); break;
    case cT: *(T *)p = Codec<T>::make(v); break;
    case cC: *(C *)p = Codec<C>::make(v); break;
    }
}
static StartFn startFns[NPERM] = {startTx0, startTx1, startTx2, startTx3, startTx4, startTx5, startTx6, startTx7, startTx8,
    startTx9, startTx10, startTx11, startTx12, startTx13, startTx14};

static uint64_t normv(int c, uint64_t v) { return c == cC ? v & 0xff : v; }
static const int entComps[] = {cA, cB, cT, cC};
static const int globComps[] = {cG, cH};

// The harness' own identity of a handle: the order of creation, so that nothing depends on which slots are chosen.
using Key = uint64_t;
static uint64_t rawOf(const Entity &e) { return (uint64_t)e.generation << 32 | (uint64_t)e.index; }
static std::unordered_map<uint64_t, Key> canon;
static Key nextKey;
static Key keyOf(const Entity &e) {
    if (!e) return 0;
    auto it = canon.find(rawOf(e));
    return it == canon.end() ? rawOf(e) | 1ull << 63 : it->second;
}

struct MEnt {
    Entity e;
    unsigned has = 0;
    uint64_t val[NCOMP] = {};
};
struct MState {
    std::map<Key, MEnt> ents;
    unsigned ghas = 0;
    uint64_t gval[NCOMP] = {};
};

#ifdef TECS_UNCHECKED_MODE
static const bool checkedMode = false;
#else
static const bool checkedMode = true;
#endif
#ifdef TECS_HEADER_ONLY
static const bool detectsNesting = false;
#else
static const bool detectsNesting = true;
#endif
static bool validOnly = false;
static uint64_t digest = 0;
static bool verbose = false;

// A worker thread that runs one closure at a time; the main thread waits for it.
struct Worker {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool has = false, done = false, quit = false;
    std::string error;
    std::thread th;
    Worker() {
        th = std::thread([this] {
            std::unique_lock<std::mutex> l(m);
            while (true) {
                cv.wait(l, [&] { return has || quit; });
                if (quit) return;
                has = false;
                try {
                    job();
                } catch (const std::exception &e) {
                    error = e.what();
                } catch (...) {
                    error = "unknown exception";
                }
                done = true;
                cv.notify_all();
            }
        });
    }
    ~Worker() {
        {
            std::lock_guard<std::mutex> l(m);
            quit = true;
            cv.notify_all();
        }
        th.join();
    }
    void run(std::function<void()> f) {
        std::unique_lock<std::mutex> l(m);
        job = std::move(f);
        has = true;
        done = false;
        error.clear();
        cv.notify_all();
        cv.wait(l, [&] { return done; });
    }
};

struct CaseAbort {};

struct Ev {
    int type;
    Key key;
    uint64_t val;
    bool operator==(const Ev &o) const { return type == o.type && key == o.key && val == o.val; }
};
static const int EVK_ENTITY = -1;

struct ObsBase {
    int kind;
    bool active = true;
    std::deque<std::vector<Ev>> expect;
    virtual ~ObsBase() {}
    virtual bool poll(const Tecs::Lock<World> &l, Ev &out) = 0;
    virtual void stop(const Tecs::Lock<World, Tecs::AddRemove> &l, bool viaObserver) = 0;
    virtual bool alive() = 0;
    virtual bool allAlive() = 0;
};
template<typename E>
struct Obs : ObsBase {
    Tecs::Observer<World, E> o;
    Tecs::Observer<World, E> copy; // another handle to the same queue
    unsigned polls = 0;
    bool strange = false; // an observer without a queue gave an event or is valid
    bool poll(const Tecs::Lock<World> &l, Ev &out) override {
        E e;
        if (!(++polls % 3 ? o : copy).Poll(l, e)) return false;
        out.type = (int)e.type;
        out.key = keyOf(e.entity);
        out.val = 0;
        if constexpr (!std::is_same_v<E, Tecs::EntityEvent>) {
            out.val = Codec<std::decay_t<decltype(e.component)>>::get(e.component);
        }
        return true;
    }
    void stop(const Tecs::Lock<World, Tecs::AddRemove> &l, bool viaObserver) override {
        auto &x = ++polls % 2 ? o : copy;
        if (viaObserver) x.Stop(l);
        else l.template StopWatching<E>(x);
        if (polls % 5 == 0) { // one that never watched anything
            Tecs::Observer<World, E> none;
            E e;
            strange |= none.Poll(l, e) || (bool)none;
            none.Stop(l);
        }
    }
    bool alive() override { return (bool)o || (bool)copy; }
    bool allAlive() override {
        return (bool)o && (bool)copy && !strange;
    }
};
template<typename E>
static ObsBase *watch(const Tecs::Lock<World, Tecs::AddRemove> &l) {
    auto o = new Obs<E>;
    o->o = l.template Watch<E>();
    o->copy = o->o;
    return o;
}
static ObsBase *watchKind(int kind, const Tecs::Lock<World, Tecs::AddRemove> &l) {
    switch (kind) {
    case EVK_ENTITY: return watch<Tecs::EntityEvent>(l);
    case cA: return watch<Tecs::ComponentEvent<A>>(l);
    case cB: return watch<Tecs::ComponentEvent<B>>(l);
    case cT: return watch<Tecs::ComponentEvent<T>>(l);
    case cC: return watch<Tecs::ComponentEvent<C>>(l);
    case cG: return watch<Tecs::ComponentEvent<G>>(l);
    case cH: return watch<Tecs::ComponentEvent<H>>(l);
    }
    abort();
}

struct LockH {
    std::unique_ptr<TxBase> t;
    int perm;
    bool ro;
};
struct HeldRef {
    int c;
    Key key;
    void *p;
};
struct HeldView {
    int c;
    bool prev;
    EntityView v;
    std::vector<Key> elems;
};
struct WState;
struct MTx {
    WState *w;
    int perm;
    int thread;
    bool ar;
    unsigned W;
    MState work;
    std::vector<LockH> locks;
    std::vector<HeldRef> refs;
    std::vector<std::unique_ptr<HeldView>> views;
    std::set<std::pair<int, Key>> removed; // (component or -1, entity) removed from the list in this transaction
    std::map<int, size_t> removals;
    uint64_t txid = 0;
    bool wrote = false;
    size_t ops = 0;
};
struct Hnd {
    Entity e;
};
struct WState {
    int idx = 0;
    std::unique_ptr<World> ecs;
    MState com;
    std::vector<Hnd> handles;
    std::unordered_set<uint64_t> everSeen;
    std::vector<std::unique_ptr<ObsBase>> obs;
    std::unique_ptr<MTx> tx;
    uint64_t commits = 0;
};

struct Runner {
    Rng rng;
    uint64_t seed, caseNo;
    Worker workers[2];
    WState ws[2];
    std::deque<std::string> log;
    uint64_t nextVal = 1;
    int nviol = 0;
    uint64_t lastTxid[2] = {0, 0};
    std::set<uint64_t> *allTxids;
    size_t maxEnts;
    static inline unsigned bigEvery = 150;
    std::set<std::string> kinds;
    std::vector<std::string> opTrace;
    // profile
    int wNew, wSet, wGet, wUnset, wDestroy, wDerive, wCheck, wBad, wObs, wGlobal, wBulk;
    int permBias;

    Runner(uint64_t seed, uint64_t caseNo, std::set<uint64_t> *ids)
        : rng(mix64(seed * 1000003 + caseNo)), seed(seed), caseNo(caseNo), allTxids(ids) {}

    void note(const std::string &s) {
        if (verbose) fprintf(stderr, "  %s\n", s.c_str());
        log.push_back(s);
        if (log.size() > 60) log.pop_front();
    }
    void bad(const std::string &tags, const std::string &sig, const std::string &msg) {
        std::string l;
        for (auto &s : log)
            l += s + "\n";
        bool foc = Report::violation(tags, sig, msg, fmt("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)caseNo), l);
        if (foc || ++nviol > 20) throw CaseAbort();
    }
    // Runs f on a thread; exceptions that escape are violations.
    void on(int th, const char *what, const std::function<void()> &f) {
        Watchdog::what() = what;
        Watchdog::kick();
        workers[th].run(f);
        Watchdog::kick();
        if (!workers[th].error.empty()) {
            bad("*", "unexpected-exception", fmt("unexpected exception during %s: ", what) + workers[th].error);
        }
    }
    void dig(uint64_t v) { digest = mix64(digest ^ v) + 0x1234567; }

    // ---- views of the model through a lock -------------------------------------------------------------------
    const MState &existState(const MTx &tx, const LockH &l) const {
        return (!l.ro && tx.ar) ? tx.work : tx.w->com;
    }
    const MState &valState(const MTx &tx, const LockH &l, int c) const {
        return (!l.ro && (tx.W & bit(c))) ? tx.work : tx.w->com;
    }
    static const MEnt *find(const MState &s, const Entity &e) {
        auto it = s.ents.find(keyOf(e));
        return it == s.ents.end() ? nullptr : &it->second;
    }
    std::string ename(const WState &w, const Entity &e) const {
        return fmt("w%d:e%u.%u", w.idx, (unsigned)e.index, (unsigned)Tecs::GenerationWithoutIdentifier(e.generation));
    }
    const std::string vtags(const MTx &tx, const LockH &l, int c) const {
        std::string t = "C05";
        if (l.ro || !(tx.W & bit(c))) t += " C03 C04";
        else t += " C03";
        if (l.ro || tx.locks.size() > 1) t += " C16 C17";
        if (isGlobalC(c)) t += " C20";
        if (ws[1 - tx.w->idx].ecs) t += " C22";
        t += " C06 C21 C24";
        return t;
    }

    // ---- full comparison of what a lock shows ------------------------------------------------------------------
    void checkList(const MTx &tx, const LockH &l, int c, bool prev) {
        const MState &s = prev ? tx.w->com : existState(tx, l);
        bool working = !prev && !l.ro && tx.ar;
        EntityView v = prev ? l.t->prevView(c) : l.t->view(c);
        std::vector<Key> got;
        size_t nulls = 0;
        std::string why;
        size_t n = 0;
        for (auto it = v.begin(); it != v.end(); ++it) {
            const Entity &e = *it;
            n++;
            if (n > v.size()) break;
            if (!e) {
                nulls++;
                continue;
            }
            got.push_back(keyOf(e));
        }
        if (n != v.size()) bad("C18 C07", "view-iteration", "iterating a list yields a different number of elements than size()");
        if (v.empty() != (v.size() == 0)) bad("C18 C07", "view-empty", "empty() disagrees with size()");
        if (v.size()) {
            size_t i = rng.below(v.size());
            if (!(v[i] == *(v.begin() + (ptrdiff_t)i))) bad("C18 C07", "view-index", "view[i] differs from *(begin()+i)");
        }
        std::sort(got.begin(), got.end());
        std::vector<Key> want;
        for (auto &kv : s.ents)
            if (c < 0 || (kv.second.has & bit(c))) want.push_back(kv.first);
        std::sort(want.begin(), want.end());
        std::string tags = "C07 C05 C21 C22";
        if (prev || !working) tags += " C03 C04";
        else tags += " C03";
        if (l.ro) tags += " C16";
        if (got != want) {
            bad(tags, fmt("list-%s", c < 0 ? "entities" : compNames[c]),
                fmt("%s list of %s has %zu live entries (%zu null), expected %zu; lock %s%s", prev ? "previous" : working ? "working" : "committed",
                    c < 0 ? "entities" : compNames[c], got.size(), nulls, want.size(), perms[l.perm].name, l.ro ? " (read-only)" : ""));
        }
        size_t allowed = 0;
        if (working) {
            auto it = tx.removals.find(c);
            if (it != tx.removals.end()) allowed = it->second;
        }
        if (nulls > allowed)
            bad(tags, "list-null", fmt("list of %s contains %zu null entries, %zu removals in this transaction", c < 0 ? "entities" : compNames[c], nulls, allowed));
        Report::count("lists_checked");
    }
    void checkEnt(const MTx &tx, const LockH &l, const Entity &e) {
        const MState &s = existState(tx, l);
        const MEnt *m = find(s, e), *p = find(tx.w->com, e);
        std::string tags = "C05 C06 C04 C03 C21";
        if (l.ro) tags += " C16";
        if (!m && !p) tags = "C06 C05 C14";
        tags += " C22";
        auto n = ename(*tx.w, e);
        if (l.t->exists(e) != (m != nullptr)) bad(tags, "exists", n + fmt(" Exists()=%d", !m));
        if (l.t->existed(e) != (p != nullptr)) bad(tags, "existed", n + fmt(" Existed()=%d", !p));
        unsigned has = m ? m->has : 0, had = p ? p->has : 0;
        for (int i = 0; i < NHASMASK; i++) {
            unsigned mk = hasMasks[i];
            bool wh = m && (has & mk) == mk, wd = p && (had & mk) == mk;
            if (l.t->has(mk, e) != wh) bad(tags, "has", n + fmt(" Has<mask %x>()=%d, model %d", mk, !wh, wh));
            if (l.t->had(mk, e) != wd) bad(tags, "had", n + fmt(" Had<mask %x>()=%d, model %d", mk, !wd, wd));
        }
        Report::count("entity_checks");
        for (int c : entComps) {
            if (!(perms[l.perm].rd & bit(c))) continue;
            if (has & bit(c)) {
                uint64_t want = find(valState(tx, l, c), e)->val[c];
                Res r = l.t->cget(c, e);
                if (r.k != Res::OK) bad("C05 C14 C16", "cget-throw", n + " reading " + compNames[c] + " threw: " + r.what);
                else if (r.v != want)
                    bad(vtags(tx, l, c), fmt("value-%s", compNames[c]), n + fmt(" %s is %llu, model %llu (lock %s%s)", compNames[c], (unsigned long long)r.v, (unsigned long long)want, perms[l.perm].name, l.ro ? " read-only" : ""));
                Report::count("values_compared");
            }
            if (had & bit(c)) {
                Res r = l.t->pget(c, e);
                uint64_t want = p->val[c];
                if (r.k != Res::OK) bad("C03 C05 C14", "pget-throw", n + " reading previous " + compNames[c] + " threw: " + r.what);
                else if (r.v != want)
                    bad("C03 C05 C04 C21 C24", fmt("previous-%s", compNames[c]), n + fmt(" previous %s is %llu, model %llu", compNames[c], (unsigned long long)r.v, (unsigned long long)want));
                Report::count("values_compared");
            }
        }
    }
    void checkGlobals(const MTx &tx, const LockH &l) {
        const MState &s = existState(tx, l);
        const MState &p = tx.w->com;
        const std::string tags = "C20 C05 C03 C04 C21 C22";
        for (unsigned mk : {bit(cG), bit(cH), bit(cG) | bit(cH)}) {
            if (l.t->ghas(mk) != ((s.ghas & mk) == mk)) bad(tags, "global-has", fmt("global Has<%x> wrong (model %x)", mk, s.ghas));
            if (l.t->ghad(mk) != ((p.ghas & mk) == mk)) bad(tags, "global-had", fmt("global Had<%x> wrong (model %x)", mk, p.ghas));
        }
        for (int c : globComps) {
            if (!(perms[l.perm].rd & bit(c))) continue;
            if (s.ghas & bit(c)) {
                Res r = l.t->gcget(c);
                uint64_t want = valState(tx, l, c).gval[c];
                if (r.k != Res::OK) bad("C20 C14 C05", "gcget-throw", std::string("reading global threw: ") + r.what);
                else if (r.v != want) bad(tags + " C24", fmt("gvalue-%s", compNames[c]), fmt("global %s is %llu, model %llu", compNames[c], (unsigned long long)r.v, (unsigned long long)want));
            }
            if (p.ghas & bit(c)) {
                Res r = l.t->gpget(c);
                if (r.k != Res::OK) bad("C20 C14 C03", "gpget-throw", std::string("reading previous global threw: ") + r.what);
                else if (r.v != p.gval[c]) bad(tags + " C24", fmt("gprev-%s", compNames[c]), fmt("previous global %s is %llu, model %llu", compNames[c], (unsigned long long)r.v, (unsigned long long)p.gval[c]));
            }
        }
        Report::count("global_checks");
    }
    void checkAll(const MTx &tx, const LockH &l) {
        checkList(tx, l, -1, false);
        checkList(tx, l, -1, true);
        for (int c : entComps) {
            checkList(tx, l, c, false);
            checkList(tx, l, c, true);
        }
        size_t n = tx.w->handles.size();
        size_t step = n > 400 ? n / 200 : 1;
        for (size_t i = n > 400 ? rng.below(step) : 0; i < n; i += step)
            checkEnt(tx, l, tx.w->handles[i].e);
        if (n > 400) {
            // the recent ones completely
            for (size_t i = n - 60; i < n; i++)
                checkEnt(tx, l, tx.w->handles[i].e);
        }
        // handles of the other instance do not exist here
        auto &o = ws[1 - tx.w->idx];
        for (int k = 0; k < 4 && !o.handles.empty(); k++) {
            auto &e = o.handles[rng.below(o.handles.size())].e;
            if (l.t->exists(e) || l.t->existed(e) || l.t->has(bit(cA), e))
                bad("C22 C06", "foreign-exists", "an entity of another instance exists here");
        }
        if (l.t->exists(Entity()) || l.t->has(0, Entity())) bad("C06 C14", "null-exists", "the null entity exists");
        checkGlobals(tx, l);
        Report::count("full_checks");
    }

    // ---- transactions ---------------------------------------------------------------------------------------------
    TxBase *tryStart(WState &w, int perm, int th, std::string &err) {
        TxBase *t = nullptr;
        on(th, "start", [&] {
            try {
                t = startFns[perm](*w.ecs);
            } catch (const std::runtime_error &e) {
                err = e.what();
            }
        });
        return t;
    }
    void noteTxid(int th, uint64_t id) {
        if (!detectsNesting) return;
        if (!allTxids->insert(id).second) bad("C15", "txid-dup", fmt("transaction id %llu was used before", (unsigned long long)id));
        if (id <= lastTxid[th]) bad("C15", "txid-order", fmt("transaction id %llu after %llu in one thread", (unsigned long long)id, (unsigned long long)lastTxid[th]));
        lastTxid[th] = id;
    }
    bool start(WState &w, int perm, int th) {
        std::string err;
        note(fmt("[t%d] w%d start <%s>", th, w.idx, perms[perm].name));
        TxBase *t = tryStart(w, perm, th, err);
        if (!t) {
            bad(ws[1 - w.idx].tx ? "C15 C22 C14" : "C15 C14 C17", "start-refused", "StartTransaction threw: " + err);
            return false;
        }
        auto tx = std::make_unique<MTx>();
        tx->w = &w;
        tx->perm = perm;
        tx->thread = th;
        tx->ar = perms[perm].ar;
        tx->W = perms[perm].wr;
        tx->work = w.com;
        w.tx = std::move(tx);
        w.tx->txid = t->txid();
        noteTxid(th, w.tx->txid);
        if (t->instance() != w.ecs.get()) bad("C22", "instance", "GetInstance() is another instance");
        addLock(*w.tx, t, perm, false);
        Report::count("transactions");
        kinds.insert(fmt("tx%d", perm));
        return true;
    }
    void addLock(MTx &tx, TxBase *t, int perm, bool ro) {
        tx.locks.push_back(LockH{std::unique_ptr<TxBase>(t), perm, ro});
        const auto &l = tx.locks.back();
        if (l.t->traitMask(0) != perms[perm].rd || l.t->traitMask(1) != perms[perm].wr || l.t->traitMask(2) != (unsigned)perms[perm].ar)
            bad("C16", "trait", fmt("permission traits of <%s> are wrong", perms[perm].name));
        checkUse(tx);
        if (t->txid() != tx.txid) bad("C16 C17 C15", "derived-txid", "a derived lock has another transaction id");
        if (t->instance() != tx.w->ecs.get()) bad("C16 C22", "derived-instance", "a derived lock refers to another instance");
    }
    void checkUse(MTx &tx) {
        long n = 0;
        on(tx.thread, "usecount", [&] { n = tx.locks[rng.below(tx.locks.size())].t->useCount(); });
        if (n != (long)tx.locks.size()) bad("C17", "use-count", fmt("use count is %ld with %zu live locks", n, tx.locks.size()));
    }
    void commitModel(MTx &tx) {
        WState &w = *tx.w;
        if (tx.W) {
            // events
            if (tx.ar) {
                for (int kind : {EVK_ENTITY, (int)cA, (int)cB, (int)cT, (int)cC, (int)cG, (int)cH}) {
                    std::vector<Ev> evs;
                    if (kind >= 0 && isGlobalC(kind)) {
                        bool o = w.com.ghas & bit(kind), n = tx.work.ghas & bit(kind);
                        if (o && !n) evs.push_back({(int)Tecs::EventType::REMOVED, 0, w.com.gval[kind]});
                        if (!o && n) evs.push_back({(int)Tecs::EventType::ADDED, 0, tx.work.gval[kind]});
                    } else {
                        for (auto &kv : w.com.ents) {
                            bool o = kind < 0 || (kv.second.has & bit(kind));
                            auto it = tx.work.ents.find(kv.first);
                            bool n = it != tx.work.ents.end() && (kind < 0 || (it->second.has & bit(kind)));
                            if (o && !n) evs.push_back({(int)Tecs::EventType::REMOVED, kv.first, kind < 0 ? 0 : kv.second.val[kind]});
                        }
                        for (auto &kv : tx.work.ents) {
                            bool n = kind < 0 || (kv.second.has & bit(kind));
                            auto it = w.com.ents.find(kv.first);
                            bool o = it != w.com.ents.end() && (kind < 0 || (it->second.has & bit(kind)));
                            if (!o && n) evs.push_back({(int)Tecs::EventType::ADDED, kv.first, kind < 0 ? 0 : kv.second.val[kind]});
                        }
                    }
                    if (evs.empty()) continue;
                    for (auto &o : w.obs)
                        if (o->kind == kind && o->active) {
                            o->expect.push_back(evs);
                            Report::count("events_expected", evs.size());
                        }
                }
            }
            w.com = tx.work;
            w.commits++;
        }
    }
    void releaseLock(MTx &tx, size_t i, bool viaException = false) {
        std::unique_ptr<TxBase> t = std::move(tx.locks[i].t);
        tx.locks.erase(tx.locks.begin() + i);
        bool last = tx.locks.empty();
        if (last) {
            tx.views.clear();
            tx.refs.clear();
        }
        on(tx.thread, last ? "commit" : "release", [&] {
            if (viaException) {
                try {
                    std::unique_ptr<TxBase> inner = std::move(t);
                    throw std::logic_error("leaving the scope");
                } catch (const std::logic_error &) {}
            } else
                t.reset();
        });
    }
    // Ends a transaction: releases all locks in random order, checks isolation on the way, then durability.
    void endTx(WState &w) {
        MTx &tx = *w.tx;
        note(fmt("[t%d] w%d end <%s> (%zu locks)", tx.thread, w.idx, perms[tx.perm].name, tx.locks.size()));
        checkHeld(tx);
        bool viaEx = rng.chance(1, 10);
        while (tx.locks.size() > 1) {
            {
                size_t which = rng.below(tx.locks.size());
                releaseLock(tx, which, rng.chance(1, 10));
            }
            checkUse(tx);
            if (rng.chance(1, 6)) probe(w, true);
            if (rng.chance(1, 8)) {
                auto &l = tx.locks[rng.below(tx.locks.size())];
                on(tx.thread, "check", [&] { guardCheck([&] { checkAll(tx, l); }); });
                rethrow();
            }
        }
        if (rng.chance(1, 8)) probe(w, true);
        commitModel(tx);
        releaseLock(tx, 0, viaEx);
        int th = tx.thread;
        if (tx.ops > 0) Report::count("nontrivial_transactions");
        w.tx.reset();
        Report::count("commits");
        // visible to a transaction that starts afterwards, on either thread
        int vth = rng.chance(1, 2) ? th : 1 - th;
        verifyCommitted(w, vth, "after-commit");
        if (!ws[0].tx && !ws[1].tx) checkLifetimes();
    }
    bool abortPending = false;
    template<typename F>
    void guardCheck(F &&f) {
        try {
            f();
        } catch (const CaseAbort &) {
            abortPending = true;
        }
    }
    void rethrow() {
        if (abortPending) throw CaseAbort();
    }
    // Opens a fresh reading transaction and compares everything with the committed model.
    void verifyCommitted(WState &w, int th, const char *what) {
        static const int readers[] = {3, 12, 3, 12, 3, 2, 1, 13, 14, 0, 7, 8};
        int perm = readers[rng.below(12)];
        std::string err;
        TxBase *t = tryStart(w, perm, th, err);
        if (!t) {
            bad(ws[1 - w.idx].tx ? "C15 C22 C14" : "C15 C14 C17", "start-refused", "StartTransaction threw: " + err);
            return;
        }
        MTx tx;
        tx.w = &w;
        tx.perm = perm;
        tx.thread = th;
        tx.ar = perms[perm].ar;
        tx.W = perms[perm].wr;
        tx.work = w.com;
        tx.txid = t->txid();
        noteTxid(th, tx.txid);
        tx.locks.push_back(LockH{std::unique_ptr<TxBase>(t), perm, false});
        on(th, what, [&] { guardCheck([&] { checkAll(tx, tx.locks[0]); }); });
        rethrow();
        if (rng.chance(1, 2)) pollSome(tx, tx.locks[0], false);
        releaseLock(tx, 0);
        Report::count("verifications");
    }
    // While a transaction is open, another thread must see only what was committed before.
    void probe(WState &w, bool releasing) {
        MTx &tx = *w.tx;
        int th = 1 - tx.thread;
        static const int readers[] = {3, 12, 2, 13, 14, 0, 1};
        int perm = readers[rng.below(7)];
        std::string err;
        note(fmt("[t%d] w%d probe <%s>", th, w.idx, perms[perm].name));
        TxBase *t = tryStart(w, perm, th, err);
        if (!t) {
            bad("C15 C22 C14", "probe-refused", "StartTransaction in another thread threw: " + err);
            return;
        }
        MTx ptx;
        ptx.w = &w;
        ptx.perm = perm;
        ptx.thread = th;
        ptx.ar = false;
        ptx.W = 0;
        ptx.work = w.com;
        ptx.txid = t->txid();
        noteTxid(th, ptx.txid);
        ptx.locks.push_back(LockH{std::unique_ptr<TxBase>(t), perm, false});
        int before = Report::violations();
        std::string f = Report::focus();
        on(th, "probe", [&] { guardCheck([&] { checkAll(ptx, ptx.locks[0]); }); });
        if (Report::violations() != before) {
            bad(releasing ? "C03 C17" : "C03 C17 C01", "uncommitted-visible", "another thread sees a difference from the committed state while the transaction is open");
        }
        rethrow();
        if (rng.chance(1, 3)) pollSome(ptx, ptx.locks[0], false);
        releaseLock(ptx, 0);
        Report::count("probes");
    }
    void checkLifetimes() {
        std::set<uint64_t> must, may;
        for (auto &w : ws) {
            if (!w.ecs) continue;
            for (auto &kv : w.com.ents)
                if (kv.second.has & bit(cT)) must.insert(kv.second.val[cT]);
            if (w.com.ghas & bit(cH)) must.insert(w.com.gval[cH]);
            for (auto &o : w.obs)
                if ((o->kind == cT || o->kind == cH) && o->active)
                    for (auto &b : o->expect)
                        for (auto &e : b)
                            may.insert(e.val);
        }
        for (auto it = payloads.begin(); it != payloads.end();) {
            bool alive = !it->second.expired();
            if (alive && !must.count(it->first) && !may.count(it->first)) {
                auto v = it->first;
                it = payloads.erase(it);
                bad("C24", "value-kept", fmt("value %llu is still held by the library after its removal was committed", (unsigned long long)v));
                continue;
            }
            if (!alive && must.count(it->first)) {
                auto v = it->first;
                it = payloads.erase(it);
                bad("C24 C05", "value-lost", fmt("value %llu of an existing component was destroyed", (unsigned long long)v));
                continue;
            }
            if (!alive) it = payloads.erase(it);
            else ++it;
        }
        if (Tok::bad) {
            Tok::bad = 0;
            bad("C24 C13", "object-lifetime", "a destroyed component object was copied, assigned or destroyed again");
        }
        Report::count("lifetime_sweeps");
        Report::count("lifetime_values", must.size());
    }

    // ---- choosing ---------------------------------------------------------------------------------------------------
    uint64_t newValue() { return rng.chance(1, 12) ? 0 : nextVal++; }
    LockH &pickLock(MTx &tx) { return tx.locks[rng.below(tx.locks.size())]; }
    Entity pickEnt(MTx &tx, bool &valid) {
        Entity e = pickEnt0(tx, valid);
        Report::count("handles_as_integers");
        Entity back((uint64_t)e);
        if (!(back == e) || back != e || back.index != e.index || back.generation != e.generation || (bool)back != (bool)e)
            bad("C19 C21", "integer-handle", fmt("a handle (index %llu, generation %llu) kept as an integer comes back as another (index %llu, generation %llu)",
                (unsigned long long)e.index, (unsigned long long)e.generation, (unsigned long long)back.index, (unsigned long long)back.generation));
        return back;
    }
    Entity pickEnt0(MTx &tx, bool &valid) {
        WState &w = *tx.w;
        valid = true;
        unsigned k = rng.below(100);
        if (k < 100 - (unsigned)wBad || validOnly) {
            const MState &s = tx.work;
            if (s.ents.empty()) {
                valid = false;
                return Entity();
            }
            if (rng.chance(1, 3)) { // a recent one
                for (int t = 0; t < 4; t++) {
                    auto &h = w.handles[w.handles.size() - 1 - rng.below(std::min<size_t>(8, w.handles.size()))];
                    if (find(s, h.e)) return h.e;
                }
            }
            auto it = s.ents.begin();
            std::advance(it, rng.below(s.ents.size()));
            return it->second.e;
        }
        valid = false;
        switch (rng.below(validOnly ? 3 : 6)) {
        case 0: return Entity();
        case 1: { // any handle ever, often stale
            if (w.handles.empty()) return Entity();
            return w.handles[rng.below(w.handles.size())].e;
        }
        case 2: {
            auto &o = ws[1 - w.idx];
            if (o.handles.empty()) return Entity();
            return o.handles[rng.below(o.handles.size())].e;
        }
        case 3: { // forged index, plausible generation
            TECS_ENTITY_INDEX_TYPE idx[] = {0, 1, (TECS_ENTITY_INDEX_TYPE)w.handles.size(), 5, 999, 1000, 1001,
                std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max(),
                (TECS_ENTITY_INDEX_TYPE)(std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max() / 2)};
            return Entity(idx[rng.below(9)], (TECS_ENTITY_GENERATION_TYPE)(1 + rng.below(3)), w.ecs->GetInstanceId());
        }
        case 4: { // neighbouring generation or another instance's id
            if (w.handles.empty()) return Entity();
            Entity e = w.handles[rng.below(w.handles.size())].e;
            if (rng.chance(1, 3)) return Entity(e.index, Tecs::GenerationWithoutIdentifier(e.generation), (TECS_ENTITY_ECS_IDENTIFIER_TYPE)(w.ecs->GetInstanceId() + 1));
            e.generation += rng.chance(1, 2) ? 1 : -1;
            return e;
        }
        default: { // destroyed in this transaction or lately
            if (w.handles.empty()) return Entity();
            for (int t = 0; t < 10; t++) {
                auto &h = w.handles[w.handles.size() - 1 - rng.below(std::min<size_t>(30, w.handles.size()))];
                if (!find(tx.work, h.e)) return h.e;
            }
            return Entity();
        }
        }
    }
    void dropRefs(MTx &tx, Key k, int c) { // c<0: all of the entity
        tx.refs.erase(std::remove_if(tx.refs.begin(), tx.refs.end(),
                          [&](const HeldRef &r) { return r.key == k && (c < 0 || r.c == c); }),
            tx.refs.end());
    }

    // expected outcome helpers
    void expectThrow(const Res &r, const std::string &tags, const std::string &sig, const std::string &what) {
        Report::count("invalid_ops");
        if (r.k != Res::THREW) bad(tags, sig + "-accepted", what + " was accepted");
    }
    bool expectOk(const Res &r, const std::string &tags, const std::string &sig, const std::string &what) {
        if (r.k == Res::THREW) {
            bad(tags, sig + "-threw", what + " threw: " + r.what);
            return false;
        }
        if (r.k == Res::NOPERM) {
            bad("C16", "noperm", what + " is not permitted by the traits");
            return false;
        }
        return true;
    }
    void mRemove(MTx &tx, MEnt &m, int c) {
        if (m.has & bit(c)) {
            m.has &= ~bit(c);
            m.val[c] = 0;
            tx.removed.insert({c, keyOf(m.e)});
            tx.removals[c]++;
            dropRefs(tx, keyOf(m.e), c);
            tx.wrote = true;
        }
    }
    void mDestroy(MTx &tx, const Entity &e) {
        auto it = tx.work.ents.find(keyOf(e));
        for (int c : entComps)
            mRemove(tx, it->second, c);
        tx.removed.insert({-1, keyOf(e)});
        tx.removals[-1]++;
        dropRefs(tx, keyOf(e), -1);
        tx.work.ents.erase(it);
        tx.wrote = true;
    }
    static bool sar(const LockH &l) { return perms[l.perm].ar; }

    void opNew(MTx &tx, int count) {
        LockH *l = nullptr;
        for (int t = 0; t < 6 && (!l || !sar(*l)); t++)
            l = &pickLock(tx);
        if (!sar(*l)) return;
        WState &w = *tx.w;
        for (int i = 0; i < count; i++) {
            Entity e;
            Res r;
            on(tx.thread, "NewEntity", [&] { r = l->t->newEntity(e); });
            if (!expectOk(r, "C05 C06 C14", "new", "NewEntity")) return;
            note(fmt("  new %s", ename(w, e).c_str()));
            tx.refs.clear(); // references may be invalidated by growth
            if (!e) bad("C06", "new-null", "NewEntity returned a null entity");
            bool fresh = w.everSeen.insert(rawOf(e)).second;
            if (fresh) canon[rawOf(e)] = ++nextKey;
            else bad("C06 C05", "handle-reused", "NewEntity returned a handle handed out before: " + ename(w, e));
            for (auto &h : tx.work.ents)
                if (h.second.e.index == e.index) bad("C06 C05 C07", "slot-in-use", "NewEntity returned a slot that is in use: " + ename(w, e));
            auto &o = ws[1 - w.idx];
            if (o.everSeen.count(rawOf(e))) bad("C06 C22", "handle-foreign", "handle equals one of another instance");
            if (Tecs::IdentifierFromGeneration(e.generation) != w.ecs->GetInstanceId())
                bad("C22 C06 C19", "instance-id", "entity does not carry the id of its instance");
            w.handles.push_back({e});
            MEnt m;
            m.e = e;
            tx.work.ents[keyOf(e)] = m;
            tx.wrote = true;
            dig(keyOf(e));
            // usually give it something
            unsigned k = rng.below(8);
            for (int c : entComps) {
                if (k == 7 || (k > 2 && rng.chance(1, 2)) || (k == 1 && c == cA)) {
                    uint64_t nv = newValue();
                    doSet(tx, *l, c, e, nv, rng.below(NSETMODE));
                }
            }
        }
        Report::count("entities_created", count);
    }
    void doSet(MTx &tx, LockH &l, int c, const Entity &e, uint64_t v, int mode) {
        if (!(perms[l.perm].wr & bit(c))) return;
        const MEnt *m = find(existState(tx, l), e);
        bool ok = m && (sar(l) || (m->has & bit(c)));
        if (!ok && (!checkedMode || validOnly)) return;
        if (mode == sDefault) v = 0;
        v = normv(c, v);
        note(fmt("  set %s %s=%llu mode %d via <%s>", ename(*tx.w, e).c_str(), compNames[c], (unsigned long long)v, mode, perms[l.perm].name));
        Res r;
        on(tx.thread, "Set", [&] { r = l.t->set(c, e, v, mode); });
        if (!ok) {
            expectThrow(r, "C14 C06", "set", fmt("Set<%s> on %s", compNames[c], m ? "an entity without it" : "an entity that does not exist"));
            return;
        }
        if (!expectOk(r, "C14 C05", "set", "Set")) return;
        if (r.v != v) bad("C05 C03", "set-result", "the reference returned by Set does not hold the value");
        MEnt &w = tx.work.ents[keyOf(e)];
        w.has |= bit(c);
        w.val[c] = v;
        tx.wrote = true;
        tx.ops++;
        dig(v);
    }
    void opSet(MTx &tx) {
        LockH &l = pickLock(tx);
        bool valid;
        Entity e = pickEnt(tx, valid);
        if (!e && (!checkedMode || validOnly)) return;
        int c = entComps[rng.below(4)];
        uint64_t nv = newValue();
        doSet(tx, l, c, e, nv, rng.below(NSETMODE));
        kinds.insert("set");
    }
    void opGet(MTx &tx) {
        LockH &l = pickLock(tx);
        int c = entComps[rng.below(4)];
        bool valid;
        Entity e = pickEnt(tx, valid);
        int how = rng.below(4);
        bool write = how == 1 || how == 0;
        uint64_t v = normv(c, newValue());
        if (!(perms[l.perm].rd & bit(c))) return;
        bool wr = perms[l.perm].wr & bit(c);
        if (how == 2) { // const
            const MEnt *m = find(existState(tx, l), e);
            bool ok = m && (m->has & bit(c));
            if (!ok && (!checkedMode || validOnly)) return;
            Res r;
            on(tx.thread, "Get<const>", [&] { r = l.t->cget(c, e); });
            note(fmt("  cget %s %s -> %llu", ename(*tx.w, e).c_str(), compNames[c], (unsigned long long)r.v));
            if (!ok) return expectThrow(r, "C14 C06", "cget", "Get<const> of a missing component");
            if (!expectOk(r, "C14 C05", "cget", "Get<const>")) return;
            uint64_t want = find(valState(tx, l, c), e)->val[c];
            if (r.v != want) bad(vtags(tx, l, c), fmt("value-%s", compNames[c]), fmt("Get<const %s> is %llu, model %llu", compNames[c], (unsigned long long)r.v, (unsigned long long)want));
            dig(r.v);
            return;
        }
        if (how == 3) {
            const MEnt *m = find(tx.w->com, e);
            bool ok = m && (m->has & bit(c));
            if (!ok && (!checkedMode || validOnly)) return;
            Res r;
            on(tx.thread, "GetPrevious", [&] { r = l.t->pget(c, e); });
            note(fmt("  pget %s %s -> %llu", ename(*tx.w, e).c_str(), compNames[c], (unsigned long long)r.v));
            if (!ok) return expectThrow(r, "C14 C06", "pget", "GetPrevious of a missing component");
            if (!expectOk(r, "C14 C05 C03", "pget", "GetPrevious")) return;
            if (r.v != m->val[c]) bad("C03 C05 C21", fmt("previous-%s", compNames[c]), fmt("GetPrevious<%s> is %llu, model %llu", compNames[c], (unsigned long long)r.v, (unsigned long long)m->val[c]));
            dig(r.v);
            return;
        }
        const MEnt *m = find(existState(tx, l), e);
        bool ok = m && ((m->has & bit(c)) || (wr && sar(l)));
        if (!ok && (!checkedMode || validOnly)) return;
        bool had = m && (m->has & bit(c));
        Res r;
        on(tx.thread, "Get", [&] { r = l.t->get(c, e, write, v); });
        note(fmt("  get %s %s -> %llu%s via <%s>", ename(*tx.w, e).c_str(), compNames[c], (unsigned long long)r.v,
            wr && write ? fmt(", write %llu", (unsigned long long)v).c_str() : "", perms[l.perm].name));
        if (!ok) return expectThrow(r, "C14 C06", "get", m ? "Get of a missing component" : "Get on an entity that does not exist");
        if (!expectOk(r, "C14 C05", "get", "Get")) return;
        uint64_t want = had ? find(valState(tx, l, c), e)->val[c] : 0;
        if (r.v != want) bad(vtags(tx, l, c), fmt("value-%s", compNames[c]), fmt("Get<%s> is %llu, model %llu%s", compNames[c], (unsigned long long)r.v, (unsigned long long)want, had ? "" : " (newly added, default expected)"));
        if (wr) {
            MEnt &w = tx.work.ents[keyOf(e)];
            w.has |= bit(c);
            if (!had) w.val[c] = 0;
            if (write) w.val[c] = v;
            tx.wrote = true;
            tx.ops++;
        }
        dig(r.v);
        kinds.insert("get");
    }
    void opCopy(MTx &tx) {
        LockH &l = pickLock(tx);
        int c = entComps[rng.below(4)];
        bool v1, v2;
        Entity d = pickEnt(tx, v1), s = pickEnt(tx, v2);
        if (!(perms[l.perm].wr & bit(c))) return;
        const MEnt *md = find(existState(tx, l), d), *ms = find(existState(tx, l), s);
        if (!md || !ms || !(ms->has & bit(c)) || !(sar(l) || (md->has & bit(c)))) return;
        Res r;
        uint64_t v = find(valState(tx, l, c), s)->val[c];
        on(tx.thread, "Set from another component", [&] { r = l.t->copySet(c, d, s); });
        note(fmt("  copy %s %s <- %s", compNames[c], ename(*tx.w, d).c_str(), ename(*tx.w, s).c_str()));
        if (!expectOk(r, "C14 C05", "copy", "Set from another component")) return;
        if (r.v != v) bad("C05", "copy-result", "Set(reference) gave another value");
        MEnt &w = tx.work.ents[keyOf(d)];
        w.has |= bit(c);
        w.val[c] = v;
        tx.wrote = true;
        tx.ops++;
        kinds.insert("copy");
    }
    void opUnset(MTx &tx) {
        LockH &l = pickLock(tx);
        bool valid;
        Entity e = pickEnt(tx, valid);
        unsigned mk = unsetMasks[rng.below(NUNSETMASK)];
        if (!sar(l)) return;
        const MEnt *m = find(existState(tx, l), e);
        if (!m && (!checkedMode || validOnly)) return;
        Res r;
        on(tx.thread, "Unset", [&] { r = l.t->unset(mk, e); });
        note(fmt("  unset %s mask %x", ename(*tx.w, e).c_str(), mk));
        if (!m) return expectThrow(r, "C14 C06", "unset", "Unset on an entity that does not exist");
        if (!expectOk(r, "C14 C05", "unset", "Unset")) return;
        MEnt &w = tx.work.ents[keyOf(e)];
        for (int c : entComps)
            if (mk & bit(c)) mRemove(tx, w, c);
        tx.ops++;
        dig(mk);
        kinds.insert("unset");
    }
    void doDestroy(MTx &tx, LockH &l, Entity e) {
        if (!sar(l)) return;
        const MEnt *m = find(existState(tx, l), e);
        if (!m && (!checkedMode || validOnly)) return;
        Res r;
        Entity arg = e;
        bool cc = rng.chance(1, 2);
        on(tx.thread, "Destroy", [&] { r = l.t->destroy(arg, cc); });
        note(fmt("  destroy %s", ename(*tx.w, e).c_str()));
        if (!m) return expectThrow(r, "C14 C06", "destroy", "Destroy of an entity that does not exist");
        if (!expectOk(r, "C14 C05", "destroy", "Destroy")) return;
        if (!cc && arg) bad("C05 C06", "destroy-handle", "Destroy did not clear the handle");
        if (cc && rawOf(arg) != rawOf(e)) bad("C05 C06", "destroy-const", "Destroy changed a const handle");
        mDestroy(tx, e);
        tx.ops++;
        dig(keyOf(e));
        kinds.insert("destroy");
    }
    void opDestroy(MTx &tx) {
        LockH &l = pickLock(tx);
        bool valid;
        Entity e = pickEnt(tx, valid);
        doDestroy(tx, l, e);
    }
    void applyAct(MTx &tx, const Entity &e, int act, int c, uint64_t v, const Res &r) {
        MEnt &m = tx.work.ents[keyOf(e)];
        switch (act) {
        case actUnset: mRemove(tx, m, c); break;
        case actUnset2:
            for (int x : entComps)
                mRemove(tx, m, x);
            break;
        case actDestroy: mDestroy(tx, e); break;
        case actSet:
            m.has |= bit(c);
            m.val[c] = v;
            break;
        case actGet: {
            uint64_t want = (m.has & bit(c)) ? m.val[c] : 0;
            if (r.v != want) bad("C05 C03", "value-by-reference", "Get through a list reference gave another value");
            m.has |= bit(c);
            m.val[c] = want;
            break;
        }
        }
        tx.wrote = true;
        tx.ops++;
    }
    void opList(MTx &tx) { // modify through references into a list
        LockH &l = pickLock(tx);
        if (!sar(l)) return;
        int viewc = (int)rng.below(5) - 1;
        viewc = viewc < 0 ? -1 : entComps[viewc];
        int act = rng.below(NACT), c = entComps[rng.below(4)];
        bool loop = rng.chance(1, 3);
        if (!loop) {
            size_t n = 0;
            Entity e;
            on(tx.thread, "list", [&] {
                EntityView v = l.t->view(viewc);
                n = v.size();
                if (!n) return;
                // the live element created k-th, wherever it is in the list
                std::map<Key, Entity> live;
                for (auto &x : v)
                    if (x) live[keyOf(x)] = x;
                if (live.empty()) return;
                auto it = live.begin();
                std::advance(it, rng.below(live.size()));
                e = it->second;
            });
            if (!n || !e || !find(tx.work, e)) return;
            size_t at = n;
            on(tx.thread, "list", [&] {
                EntityView v = l.t->view(viewc);
                for (size_t i = 0; i < v.size(); i++)
                    if (v[i] == e) at = i;
            });
            if (at >= n) return;
            uint64_t v = normv(c, newValue());
            Res r;
            note(fmt("  by reference into list %d at %zu: act %d %s on %s", viewc, at, act, compNames[c], ename(*tx.w, e).c_str()));
            on(tx.thread, "operation through a list reference", [&] { r = l.t->actOnRef(viewc, at, act, c, v); });
            if (!expectOk(r, "C05 C14 C07 C13", "by-reference", "operation through a list reference")) return;
            applyAct(tx, e, act, c, v, r);
            kinds.insert("byref");
        } else { // range-for over the list, acting on the entities while iterating
            unsigned mod = 1 + rng.below(3);
            std::vector<Entity> visited, acted;
            std::vector<Res> rs;
            uint64_t v = normv(c, newValue());
            if (act == actGet || act == actSet) return;
            std::set<Key> before;
            for (auto &kv : tx.work.ents)
                if (viewc < 0 || (kv.second.has & bit(viewc))) before.insert(kv.first);
            note(fmt("  iterate list %d: act %d %s on every %u.", viewc, act, compNames[c], mod));
            on(tx.thread, "iterate and modify", [&] {
                EntityView vw = l.t->view(viewc);
                size_t i = 0;
                for (auto &e : vw) {
                    if (e) {
                        visited.push_back(e);
                        if (keyOf(e) % mod == 0) {
                            acted.push_back(e);
                            rs.push_back(l.t->actOnRef(viewc, i, act, c, v));
                        }
                    }
                    i++;
                }
            });
            std::set<Key> seen;
            for (auto &e : visited) {
                if (!seen.insert(keyOf(e)).second) bad("C07 C05", "iterate-twice", "an entity was visited twice while removing");
            }
            if (seen != before) bad("C07 C05", "iterate-miss", fmt("iterating while removing visited %zu of %zu entities", seen.size(), before.size()));
            for (size_t i = 0; i < acted.size(); i++) {
                if (!expectOk(rs[i], "C05 C14 C07 C13", "by-reference", "operation through a list reference")) return;
                if (find(tx.work, acted[i])) applyAct(tx, acted[i], act, c, v, rs[i]);
            }
            kinds.insert("iterate");
        }
    }
    void opRef(MTx &tx) {
        if (tx.refs.size() < 4 && rng.chance(1, 2)) {
            LockH &l = pickLock(tx);
            int c = entComps[rng.below(4)];
            if (!(perms[l.perm].wr & bit(c))) return;
            bool valid;
            Entity e = pickEnt(tx, valid);
            const MEnt *m = find(existState(tx, l), e);
            if (!m || !(m->has & bit(c))) return;
            void *p = nullptr;
            on(tx.thread, "Get", [&] { p = l.t->ref(c, e); });
            if (!p) return bad("C14 C05", "ref-threw", "Get of an existing component threw");
            tx.refs.push_back({c, keyOf(e), p});
            tx.wrote = true;
        } else if (!tx.refs.empty()) {
            HeldRef &r = tx.refs[rng.below(tx.refs.size())];
            uint64_t got = 0, v = normv(r.c, newValue());
            bool write = rng.chance(2, 3);
            MEnt &m = tx.work.ents[r.key];
            on(tx.thread, "reference", [&] {
                got = readRef(r.c, r.p);
                if (write) writeRef(r.c, r.p, v);
            });
            if (got != m.val[r.c]) bad("C05 C03", "stale-reference", fmt("a held %s reference shows %llu, model %llu", compNames[r.c], (unsigned long long)got, (unsigned long long)m.val[r.c]));
            if (write) {
                m.val[r.c] = v;
                note(fmt("  write %s=%llu through a held reference to %s", compNames[r.c], (unsigned long long)v, ename(*tx.w, m.e).c_str()));
            }
            tx.ops++;
            kinds.insert("ref");
        }
    }
    void opView(MTx &tx) {
        LockH &l = pickLock(tx);
        int c = (int)rng.below(5) - 1;
        c = c < 0 ? -1 : entComps[c];
        auto hv = std::make_unique<HeldView>();
        hv->c = c;
        hv->prev = rng.chance(1, 3) || l.ro || !tx.ar;
        bool viaPrev = rng.chance(1, 2);
        on(tx.thread, "view", [&] {
            hv->v = hv->prev && (viaPrev || (tx.ar && !l.ro)) ? l.t->prevView(c) : l.t->view(c);
            for (auto &e : hv->v)
                hv->elems.push_back(keyOf(e));
        });
        if (tx.views.size() > 3) tx.views.erase(tx.views.begin());
        tx.views.push_back(std::move(hv));
    }
    void checkHeld(MTx &tx) {
        for (auto &hv : tx.views) {
            std::string err;
            on(tx.thread, "held view", [&] {
                if (hv->v.size() != hv->elems.size()) err = "its size changed";
                else
                    for (size_t i = 0; i < hv->elems.size(); i++) {
                        Key k = keyOf(hv->v[i]);
                        if (k == hv->elems[i]) continue;
                        if (hv->prev) err = "a previous list changed while the transaction is open";
                        else if (k != 0) err = "an element changed";
                        else if (!tx.removed.count({hv->c, hv->elems[i]})) err = "an element vanished";
                    }
            });
            if (!err.empty()) bad("C07 C18 C03", "held-view", "a view taken earlier in the transaction: " + err);
            Report::count("held_views");
        }
    }
    void opDerive(MTx &tx) {
        LockH &l = pickLock(tx);
        size_t li = &l - &tx.locks[0];
        if (tx.locks.size() > 6 || (tx.locks.size() > 1 && rng.chance(1, 3))) {
            note(fmt("  release lock <%s>%s", perms[l.perm].name, l.ro ? " ro" : ""));
            if (tx.locks.size() > 1) {
                releaseLock(tx, li, rng.chance(1, 8));
                checkUse(tx);
            }
            return;
        }
        int how = rng.below(6), j = rng.below(NPERM);
        bool sub = permSubset(j, perms[l.perm].rd, perms[l.perm].wr, perms[l.perm].ar);
        TxBase *t = nullptr;
        bool can = false, hasP = false;
        int lperm = l.perm;
        bool lro = l.ro;
        switch (how) {
        case 0:
        case 1:
            on(tx.thread, "derive", [&] {
                can = l.t->canDerive(j);
                hasP = l.t->hasPermissions(j);
                t = l.t->derive(j, how);
            });
            note(fmt("  derive <%s> from <%s>%s -> %d", perms[j].name, perms[lperm].name, lro ? " ro" : "", t != nullptr));
            if (can != sub) bad("C16", "convertible", fmt("<%s> is %s from <%s>", perms[j].name, can ? "constructible" : "not constructible", perms[lperm].name));
            if (hasP != sub) bad("C16", "has-permissions", fmt("has_permissions of <%s> in <%s> is %d", perms[j].name, perms[lperm].name, hasP));
            if (t) addLock(tx, t, j, lro);
            break;
        case 2:
            on(tx.thread, "readonly", [&] { t = l.t->readOnly(); });
            note(fmt("  read-only from <%s>", perms[lperm].name));
            if (!t) return bad("C16", "readonly-type", "the read-only variant lacks a read permission");
            addLock(tx, t, readOnlyOf[lperm], true);
            break;
        case 3:
            on(tx.thread, "copy", [&] { t = l.t->copy(); });
            addLock(tx, t, lperm, lro);
            break;
        default: {
            int fl = rng.below(2);
            on(tx.thread, "trylock", [&] { t = l.t->tryLock(fl, j); });
            note(fmt("  TryLock <%s> from <%s>%s -> %d", perms[j].name, perms[lperm].name, lro ? " ro" : "", t != nullptr));
            bool upper = permSubset(j, perms[tx.perm].rd, perms[tx.perm].wr, perms[tx.perm].ar) &&
                         (!lro || (!perms[j].wr && !perms[j].ar)) && (perms[j].rd & ~perms[lperm].rd) == 0;
            if (t && !upper) {
                std::unique_ptr<TxBase> own(t);
                on(tx.thread, "release", [&] { own.reset(); });
                bad("C16", "trylock-excess", fmt("TryLock<%s> granted from <%s>%s of a <%s> transaction", perms[j].name, perms[lperm].name, lro ? " (read-only)" : "", perms[tx.perm].name));
                return;
            }
            if (!t && sub) return bad("C16", "trylock-refused", fmt("TryLock<%s> refused from <%s>%s", perms[j].name, perms[lperm].name, lro ? " (read-only)" : ""));
            if (t) addLock(tx, t, j, lro);
        }
        }
        Report::count("derivations");
        kinds.insert(fmt("derive%d", how));
    }
    void opGlobal(MTx &tx) {
        LockH &l = pickLock(tx);
        int c = globComps[rng.below(2)];
        int op = rng.below(7);
        uint64_t v = newValue();
        int mode = rng.below(NSETMODE);
        const MState &s = existState(tx, l);
        bool has = s.ghas & bit(c), wr = perms[l.perm].wr & bit(c), rd = perms[l.perm].rd & bit(c);
        Res r;
        std::string n = std::string("global ") + compNames[c];
        if (op <= 2) {
            if (!wr) return;
            bool ok = has || sar(l);
            if (!ok && (!checkedMode || validOnly)) return;
            if (mode == sDefault) v = 0;
            note(fmt("  gset %s=%llu mode %d via <%s>", compNames[c], (unsigned long long)v, mode, perms[l.perm].name));
            on(tx.thread, "global Set", [&] { r = l.t->gset(c, v, mode); });
            if (!ok) return expectThrow(r, "C14 C20", "gset", "Set of a missing " + n);
            if (!expectOk(r, "C14 C20", "gset", "Set " + n)) return;
            if (r.v != v) bad("C20 C05", "gset-result", n + ": Set returned another value");
            tx.work.ghas |= bit(c);
            tx.work.gval[c] = v;
            tx.wrote = true;
        } else if (op == 3) {
            if (!rd) return;
            bool ok = has || (wr && sar(l));
            if (!ok && (!checkedMode || validOnly)) return;
            bool write = rng.chance(1, 2);
            on(tx.thread, "global Get", [&] { r = l.t->gget(c, write, v); });
            note(fmt("  gget %s -> %llu via <%s>%s", compNames[c], (unsigned long long)r.v, perms[l.perm].name, write && wr ? " write" : ""));
            if (!ok) return expectThrow(r, "C14 C20", "gget", "Get of a missing " + n);
            if (!expectOk(r, "C14 C20", "gget", "Get " + n)) return;
            uint64_t want = has ? valState(tx, l, c).gval[c] : 0;
            if (r.v != want) bad("C20 C05 C03", fmt("gvalue-%s", compNames[c]), n + fmt(" is %llu, model %llu", (unsigned long long)r.v, (unsigned long long)want));
            if (wr) {
                tx.work.ghas |= bit(c);
                if (!has) tx.work.gval[c] = 0;
                if (write) tx.work.gval[c] = v;
                tx.wrote = true;
            }
        } else if (op == 4) {
            if (!rd) return;
            if (!has && (!checkedMode || validOnly)) return;
            on(tx.thread, "global Get<const>", [&] { r = l.t->gcget(c); });
            note(fmt("  gcget %s -> %llu via <%s>", compNames[c], (unsigned long long)r.v, perms[l.perm].name));
            if (!has) return expectThrow(r, "C14 C20", "gcget", "Get<const> of a missing " + n);
            if (!expectOk(r, "C14 C20", "gcget", "Get<const> " + n)) return;
            if (r.v != valState(tx, l, c).gval[c]) bad("C20 C05 C03", fmt("gvalue-%s", compNames[c]), n + " has another value");
        } else if (op == 5) {
            if (!rd) return;
            bool had = tx.w->com.ghas & bit(c);
            if (!had && (!checkedMode || validOnly)) return;
            on(tx.thread, "global GetPrevious", [&] { r = l.t->gpget(c); });
            note(fmt("  gpget %s -> %llu", compNames[c], (unsigned long long)r.v));
            if (!had) return expectThrow(r, "C14 C20", "gpget", "GetPrevious of a missing " + n);
            if (!expectOk(r, "C14 C20 C03", "gpget", "GetPrevious " + n)) return;
            if (r.v != tx.w->com.gval[c]) bad("C20 C03", fmt("gprev-%s", compNames[c]), n + " has another previous value");
        } else {
            if (!sar(l)) return;
            unsigned mk = rng.chance(1, 3) ? bit(cG) | bit(cH) : bit(c);
            note(fmt("  gunset %x", mk));
            on(tx.thread, "global Unset", [&] { r = l.t->gunset(mk); });
            if (!expectOk(r, "C14 C20", "gunset", "Unset " + n)) return;
            for (int x : globComps)
                if (mk & bit(x)) {
                    tx.work.ghas &= ~bit(x);
                    tx.work.gval[x] = 0;
                }
            tx.wrote = true;
        }
        tx.ops++;
        dig(r.v);
        kinds.insert(fmt("global%d", op));
    }
    void pollSome(MTx &tx, LockH &l, bool drain) {
        WState &w = *tx.w;
        for (auto &o : w.obs) {
            if (!drain && rng.chance(1, 2)) continue;
            if (o->active && !o->allAlive()) bad("C08", "observer-dead", "an observer that was not stopped is not valid, or one that never watched anything is");
            if (!o->active && o->alive()) bad("C08", "observer-alive", "a stopped observer is valid again");
            size_t n = drain ? 100000 : 1 + rng.below(20);
            for (size_t i = 0; i < n; i++) {
                Ev e{};
                bool got = false;
                on(tx.thread, "poll", [&] { got = o->poll(l.t->base(), e); });
                Report::count("polls");
                std::string kn = o->kind < 0 ? "EntityEvent" : fmt("ComponentEvent<%s>", compNames[o->kind]);
                std::string tags = "C08 C21 C22";
                if (o->kind >= 0 && isGlobalC(o->kind)) tags += " C20";
                if (!o->active) {
                    if (got) bad(tags, "event-after-stop", "a stopped observer of " + kn + " received an event");
                    break;
                }
                if (!got) {
                    if (!o->expect.empty()) {
                        auto &x = o->expect.front()[0];
                        bad(tags, "event-lost", kn + fmt(" event missing: type %d entity %llx value %llu (+%zu more in this commit)", x.type, (unsigned long long)x.key, (unsigned long long)x.val, o->expect.front().size() - 1));
                        o->expect.clear();
                    }
                    break;
                }
                Report::count("events_received");
                if (o->expect.empty()) {
                    bad(tags, "event-extra", kn + fmt(" event not expected: type %d entity %llx value %llu", e.type, (unsigned long long)e.key, (unsigned long long)e.val));
                    break;
                }
                auto &b = o->expect.front();
                auto it = std::find(b.begin(), b.end(), e);
                if (it == b.end()) {
                    auto &x = b.front();
                    bad(tags, "event-wrong", kn + fmt(" event type %d entity %llx value %llu; %zu others expected first, such as type %d entity %llx value %llu", e.type, (unsigned long long)e.key, (unsigned long long)e.val, b.size(), x.type, (unsigned long long)x.key, (unsigned long long)x.val));
                    break;
                }
                b.erase(it);
                if (b.empty()) o->expect.pop_front();
            }
        }
    }
    struct ArCall {
        std::function<void(const Tecs::Lock<World, Tecs::AddRemove> &)> f;
        static void go(const Tecs::Lock<World, Tecs::AddRemove> &l, void *p) { ((ArCall *)p)->f(l); }
    };
    void opObs(MTx &tx) {
        LockH &l = pickLock(tx);
        WState &w = *tx.w;
        int k = rng.below(6);
        if (k == 0 && sar(l) && w.obs.size() < 9) {
            static const int ks[] = {EVK_ENTITY, cA, cB, cT, cC, cG, cH, EVK_ENTITY, cA};
            int kind = ks[rng.below(9)];
            ArCall call{[&](const Tecs::Lock<World, Tecs::AddRemove> &al) {
                w.obs.emplace_back(watchKind(kind, al));
                w.obs.back()->kind = kind;
            }};
            on(tx.thread, "watch", [&] { l.t->addRemoveLock(ArCall::go, &call); });
            note(fmt("  watch kind %d", kind));
            Report::count("observers");
            kinds.insert("watch");
        } else if (k == 1 && sar(l) && !w.obs.empty() && rng.chance(1, 3)) {
            auto &o = w.obs[rng.below(w.obs.size())];
            if (!o->active && rng.chance(1, 2)) return; // else stopped again, which changes nothing
            bool via = rng.chance(1, 2);
            ArCall call{[&](const Tecs::Lock<World, Tecs::AddRemove> &al) { o->stop(al, via); }};
            on(tx.thread, "stop watching", [&] { l.t->addRemoveLock(ArCall::go, &call); });
            note(fmt("  stop observer kind %d", o->kind));
            if (!o->active) Report::count("stopped_again");
            o->active = false;
            o->expect.clear();
            if (o->alive()) bad("C08", "observer-alive", "a stopped observer is still valid");
            kinds.insert("stop");
        } else
            pollSome(tx, l, rng.chance(1, 8));
    }
    void opBulk(MTx &tx) {
        if (!tx.ar) {
            // write many existing components through one lock
            LockH &l = pickLock(tx);
            std::vector<Entity> es;
            for (auto &kv : tx.work.ents)
                es.push_back(kv.second.e);
            for (int c : entComps) {
                if (!(perms[l.perm].wr & bit(c)) || rng.chance(1, 2)) continue;
                for (auto &e : es)
                    if ((find(tx.work, e)->has & bit(c)) && rng.chance(1, 3)) doSet(tx, l, c, e, newValue(), sArgs);
            }
            return;
        }
        if (tx.work.ents.size() < maxEnts && rng.chance(1, 2)) {
            opNew(tx, 1 + rng.below(maxEnts / 2));
        } else {
            LockH *l = nullptr;
            for (int t = 0; t < 6 && (!l || !sar(*l)); t++)
                l = &pickLock(tx);
            if (!sar(*l)) return;
            std::vector<Entity> es;
            for (auto &kv : tx.work.ents)
                es.push_back(kv.second.e);
            unsigned keep = rng.below(10);
            bool unset = rng.chance(1, 3);
            unsigned mk = unsetMasks[rng.below(NUNSETMASK)];
            for (auto &e : es) {
                if (rng.below(10) < keep) continue;
                if (unset) {
                    Res r;
                    on(tx.thread, "Unset", [&] { r = l->t->unset(mk, e); });
                    note(fmt("  unset %s mask %x", ename(*tx.w, e).c_str(), mk));
                    if (!expectOk(r, "C14 C05", "unset", "Unset")) return;
                    MEnt &m = tx.work.ents[keyOf(e)];
                    for (int c : entComps)
                        if (mk & bit(c)) mRemove(tx, m, c);
                } else
                    doDestroy(tx, *l, e);
            }
        }
        kinds.insert("bulk");
    }
    void opNested(MTx &tx) {
        if (!detectsNesting || validOnly) return;
        int perm = rng.below(NPERM);
        std::string err;
        note(fmt("[t%d] w%d nested start <%s>", tx.thread, tx.w->idx, perms[perm].name));
        TxBase *t = tryStart(*tx.w, perm, tx.thread, err);
        Report::count("nested_attempts");
        if (t) {
            std::unique_ptr<TxBase> own(t);
            bad("C15", "nested-accepted", "a nested transaction was accepted");
            on(tx.thread, "release", [&] { own.reset(); });
        }
    }
    void step(MTx &tx) {
        Report::count("steps");
        int weights[] = {wNew, wSet, wGet, wUnset, wDestroy, wDerive, wCheck, wObs, wGlobal, wBulk, 3, 3, 3, 2, 4};
        int total = 0;
        for (int x : weights)
            total += x;
        int k = rng.below(total), i = 0;
        while (k >= weights[i])
            k -= weights[i++];
        switch (i) {
        case 0: opNew(tx, 1 + rng.below(3)); break;
        case 1: opSet(tx); break;
        case 2: opGet(tx); break;
        case 3: opUnset(tx); break;
        case 4: opDestroy(tx); break;
        case 5: opDerive(tx); break;
        case 6: {
            auto &l = pickLock(tx);
            on(tx.thread, "check", [&] { guardCheck([&] { checkAll(tx, l); }); });
            rethrow();
            checkHeld(tx);
            break;
        }
        case 7: opObs(tx); break;
        case 8: opGlobal(tx); break;
        case 9: opBulk(tx); break;
        case 10: opRef(tx); break;
        case 11: opView(tx); break;
        case 12: probe(*tx.w, false); break;
        case 13: opNested(tx); break;
        case 14: opList(tx); break;
        }
        if (rng.chance(1, 12)) opCopy(tx);
    }
    void newWorld(WState &w, int idx) {
        w.idx = idx;
        w.ecs = std::make_unique<World>();
    }
    void run() {
        // profile of this case
        wNew = 2 + rng.below(6);
        wSet = 4 + rng.below(14);
        wGet = 4 + rng.below(10);
        wUnset = rng.below(8);
        wDestroy = rng.below(7);
        wDerive = rng.below(8);
        wCheck = 1 + rng.below(3);
        wBad = validOnly ? 0 : (int)rng.below(25);
        wObs = rng.below(8);
        wGlobal = rng.below(8);
        wBulk = rng.below(3);
        permBias = rng.below(3);
        maxEnts = rng.chance(1, 12) ? 150 : rng.chance(1, 2) ? 8 : 30;
        size_t txs = 12 + rng.below(30);
        // every property shares the generator; the one being decided gets more of the operations it is about
        const std::string &foc = Report::focus();
        if (foc == "C08") wObs += 8, permBias = rng.below(2);
        if (foc == "C14") wBad = validOnly ? 0 : wBad + 10;
        if (foc == "C20") wGlobal += 14;
        if (foc == "C16" || foc == "C17") wDerive += 12;
        if (foc == "C06") wNew += 4, wDestroy += 5;
        if (rng.chance(1, bigEvery)) { // beyond one default allocation batch
            maxEnts = 2600;
            txs = 8;
            wCheck = 1;
            wBulk += 8;
            permBias = 0;
        }
        canon.clear();
        nextKey = 0;
        newWorld(ws[0], 0);
        newWorld(ws[1], 1);
        if (ws[0].ecs->GetInstanceId() == ws[1].ecs->GetInstanceId()) bad("C22 C06", "same-instance-id", "two instances have the same id");
        verifyCommitted(ws[0], 0, "empty");
        size_t started = 0;
        while (started < txs || ws[0].tx || ws[1].tx) {
            if (started < txs && ((!ws[0].tx && !ws[1].tx) || ((!ws[0].tx || !ws[1].tx) && rng.chance(1, 25)))) {
                int wi = ws[0].tx ? 1 : ws[1].tx ? 0 : (rng.chance(1, 4) ? 1 : 0);
                int perm = permBias == 0 || rng.chance(2, 5) ? (rng.chance(1, 4) ? 10 : 8) : rng.below(NPERM);
                if (ws[wi].com.ents.empty() && rng.chance(2, 3)) perm = 8;
                start(ws[wi], perm, rng.below(2));
                started++;
                continue;
            }
            int wi = !ws[0].tx ? 1 : !ws[1].tx ? 0 : (int)rng.below(2);
            if (rng.chance(1, 10)) {
                endTx(ws[wi]);
                // rarely replace the other, idle instance
                auto &o = ws[1 - wi];
                if (!o.tx && rng.chance(1, 25)) dropWorld(o, true);
            } else
                step(*ws[wi].tx);
        }
        verifyCommitted(ws[0], 1, "final");
        verifyCommitted(ws[1], 0, "final");
        for (auto &w : ws)
            drainAll(w);
        checkLifetimes();
        for (auto &kv : ws[0].com.ents)
            dig(kv.second.has);
        if (rng.chance(1, 2)) {
            dropWorld(ws[0], false);
            verifyCommitted(ws[1], 0, "after the other instance was destroyed");
            dropWorld(ws[1], false);
        } else {
            dropWorld(ws[1], false);
            verifyCommitted(ws[0], 1, "after the other instance was destroyed");
            dropWorld(ws[0], false);
        }
        checkLifetimes();
        if (Tok::live != 0) {
            auto n = (long long)Tok::live.exchange(0);
            bad("C24 C13", "instances-left", fmt("%lld component objects are alive after all instances were destroyed", n));
        }
#ifdef TECS_ENABLE_TRACY
        if (auto n = tracy::unbalanced().exchange(0)) bad("C21", "profiler-locks", fmt("%llu locks were reported to the profiler as taken and released unequally often", (unsigned long long)n));
        Report::count("profiler_reports", tracy::reported().exchange(0));
#endif
    }
    void drainAll(WState &w) {
        std::string err;
        TxBase *t = tryStart(w, 3, 0, err);
        if (!t) return bad("C15 C14 C17", "start-refused", "StartTransaction threw: " + err);
        MTx tx;
        tx.w = &w;
        tx.perm = 3;
        tx.thread = 0;
        tx.ar = false;
        tx.W = 0;
        tx.work = w.com;
        tx.txid = t->txid();
        noteTxid(0, tx.txid);
        tx.locks.push_back(LockH{std::unique_ptr<TxBase>(t), 3, false});
        pollSome(tx, tx.locks[0], true);
        releaseLock(tx, 0);
    }
    void dropWorld(WState &w, bool renew) {
        int idx = w.idx;
        note(fmt("destroy instance w%d", idx));
        on(0, "destroy instance", [&] { w.ecs.reset(); });
        for (auto &o : w.obs)
            if (o->alive()) bad("C08 C22", "observer-alive", "an observer is valid after its instance was destroyed");
        WState fresh;
        w.com = MState();
        w.handles.clear();
        w.everSeen.clear();
        w.obs.clear();
        if (renew) {
            newWorld(w, idx);
            Report::count("instances_replaced");
        }
    }
};

int main(int argc, char **argv) {
    Args a(argc, argv);
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), n = a.num("cases", 20);
    validOnly = a.has("valid-only");
    verbose = a.has("verbose");
    Runner::bigEvery = (unsigned)a.num("big-every", 150);
    Watchdog::start((int)a.num("watchdog", 60));
    std::set<uint64_t> ids;
    std::set<std::string> kinds;
    std::set<uint64_t> shapes;
    for (uint64_t c = first; c < first + n; c++) {
        auto r = std::make_unique<Runner>(seed, c, &ids);
        bool abortCase = false;
        try {
            r->run();
        } catch (const CaseAbort &) {
            abortCase = true;
        }
        Report::count("cases");
        for (auto &k : r->kinds)
            kinds.insert(k);
        uint64_t h = 0;
        for (auto &k : r->kinds)
            for (char ch : k)
                h = h * 131 + ch;
        shapes.insert(mix64(h ^ r->nextVal * 77777));
        if (c == first) {
            std::string s;
            for (auto &x : r->log)
                s += x + "; ";
            Report::sample(fmt("seqfuzz seed %llu case %llu, last operations: ", (unsigned long long)seed, (unsigned long long)c) + s.substr(0, 900));
        }
        if (abortCase) {
            Report::count("aborted_cases");
            Report::finish();
            fflush(stdout);
            _exit(0); // open transactions and instances are left behind
        }
        if (Report::violations() > 60) {
            Report::finish();
            _exit(0);
        }
    }
    Report::counters()["distinct"] = shapes.size();
    Report::counters()["op_kinds"] = kinds.size();
    Report::line("{\"t\":\"digest\",\"v\":\"" + fmt("%016llx", (unsigned long long)digest) + "\"}");
    Report::finish();
    if (Report::violations()) _exit(0);
    return 0;
}
