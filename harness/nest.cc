// Nested transactions: which starts are refused, with many instances, several threads, the limit per thread, and ids.
#include "common.hh"

#include <Tecs.hh>
#include <algorithm>
#include <any>
#include <functional>
#include <memory>
#include <set>
#include <unordered_set>

struct A {
    uint64_t v = 0;
};
struct B {
    uint64_t v = 0;
};
using World = Tecs::ECS<A, B>;
using namespace Tecs;
constexpr size_t LIMIT = TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD;

struct Inst {
    World w;
    Entity e;
    uint64_t a = 1, b = 1; // committed values
    bool shared = false;   // readers of several threads; never written after set-up
    Inst(bool shared, uint64_t v) : a(v), b(v), shared(shared) {
        auto l = w.StartTransaction<AddRemove>();
        e = l.NewEntity();
        e.Set<A>(l, A{v});
        e.Set<B>(l, B{v});
    }
};

struct OpenTx {
    Inst *i;
    int kind; // 0 none, 1 Read<A>, 2 Write<A>, 3 AddRemove, 4 ReadAll
    std::vector<std::any> hs;
    size_t id;
    uint64_t wrote = 0;
    Inst *own = nullptr;
};

struct ThreadRun {
    int id;
    Rng rng{1};
    std::string where;
    std::vector<std::unique_ptr<Inst>> own;
    std::vector<Inst *> shared;
    std::vector<OpenTx> open;
    std::vector<size_t> ids;
    size_t lastId = 0;
    bool failed = false;
    std::string log;
    std::map<std::string, uint64_t> counts;

    void bad(const char *sig, const std::string &msg, const char *tags = "C15") {
        failed = true;
        Report::violation(tags, std::string("nest:") + sig, msg, where + fmt(" thread=%d", id), log.size() > 3000 ? log.substr(log.size() - 3000) : log);
    }
    template<typename... P>
    bool tryOpen(OpenTx &t) {
        auto l = t.i->w.StartTransaction<P...>();
        t.id = l.GetTransactionId();
        t.hs.emplace_back(l);
        return true;
    }
    template<typename... P>
    Lock<World, P...> *lk(OpenTx &t) {
        for (auto &h : t.hs)
            if (auto *p = std::any_cast<Lock<World, P...>>(&h)) return p;
        return nullptr;
    }
    uint64_t readA(OpenTx &t) {
        switch (t.kind) {
        case 1: return t.i->e.Get<A>(*lk<Read<A>>(t)).v;
        case 2: return static_cast<const A &>(t.i->e.Get<const A>(*lk<Write<A>>(t))).v;
        case 3: return static_cast<const A &>(t.i->e.Get<const A>(*lk<AddRemove>(t))).v;
        case 4: return t.i->e.Get<A>(*lk<ReadAll>(t)).v;
        }
        return t.i->a;
    }
    // an open transaction still works
    bool works(OpenTx &t, const char *when) {
        counts["open_checked"]++;
        uint64_t want = t.wrote ? t.wrote : t.i->a;
        try {
            uint64_t v = readA(t);
            if (v != want) {
                bad("harmed", fmt("an open transaction reads %llu instead of %llu %s", (unsigned long long)v, (unsigned long long)want, when));
                return false;
            }
        } catch (const std::exception &e) {
            bad("harmed", fmt("an open transaction throws %s: %s", when, e.what()));
            return false;
        }
        return true;
    }
    void start(Inst *i) {
        bool nested = false;
        for (auto &t : open)
            nested |= t.i == i;
        bool full = open.size() >= LIMIT;
        OpenTx t;
        t.i = i;
        t.kind = i->shared ? (rng.chance(1, 2) ? 1 : rng.chance(1, 2) ? 4 : 0) : (int)rng.below(5);
        // with others on the instance only readers; own instances take any
        static const char *const kn[] = {"none", "Read<A>", "Write<A>", "AddRemove", "ReadAll"};
        log += fmt("start %s instance %d%s%s\n", kn[t.kind], (int)i->w.GetInstanceId(), nested ? " (nested)" : "", full ? " (at the limit)" : "");
        bool ok = false;
        std::string err;
        try {
            switch (t.kind) {
            case 0: ok = tryOpen<>(t); break;
            case 1: ok = tryOpen<Read<A>>(t); break;
            case 2: ok = tryOpen<Write<A>>(t); break;
            case 3: ok = tryOpen<AddRemove>(t); break;
            case 4: ok = tryOpen<ReadAll>(t); break;
            }
        } catch (const std::exception &e) {
            err = e.what();
        }
        if (nested) {
            counts["nested_refused"]++;
            if (ok) return bad("accepted", "a transaction on an instance the thread already has one open on is not refused");
        } else if (full) {
            counts["limit_refused"]++;
            if (ok) return bad("limit", fmt("more than %zu open transactions in a thread are not refused", LIMIT));
        } else {
            counts["accepted"]++;
            if (!ok) return bad("refused", fmt("a transaction that is not nested is refused (%zu open): %s", open.size(), err.c_str()));
            if (t.id <= lastId) return bad("id-order", fmt("transaction id %zu after %zu in the same thread", t.id, lastId));
            lastId = t.id;
            ids.push_back(t.id);
            open.push_back(std::move(t));
            if (!works(open.back(), "when just started")) return;
        }
        if ((nested || full) && !open.empty()) {
            // the refusal left everything else as it was
            for (auto &o : open)
                if (o.i == i || rng.chance(1, 4))
                    if (!works(o, "after a refused start")) return;
        }
    }
    void write(OpenTx &t) {
        uint64_t v = rng.next() | 1;
        if (t.kind == 2) t.i->e.Set<A>(*lk<Write<A>>(t), A{v});
        else if (t.kind == 3) {
            t.i->e.Set<A>(*lk<AddRemove>(t), A{v});
            if (rng.chance(1, 4)) lk<AddRemove>(t)->NewEntity();
        } else return;
        t.wrote = v;
        works(t, "after its write");
    }
    void copy(OpenTx &t) {
        switch (t.kind) {
        case 0: t.hs.emplace_back(Lock<World>(*lk<>(t))); break;
        case 1: t.hs.emplace_back(Lock<World>(*lk<Read<A>>(t))); break;
        case 2: t.hs.emplace_back(Lock<World, Read<A>>(*lk<Write<A>>(t))); break;
        case 3: t.hs.emplace_back(Lock<World, Write<A>>(*lk<AddRemove>(t))); break;
        case 4: t.hs.emplace_back(DynamicLock<World>(*lk<ReadAll>(t))); break;
        }
        if (auto *l = std::any_cast<Lock<World>>(&t.hs.back()))
            if (l->GetTransactionId() != t.id) bad("id-copy", "a derived lock has another transaction id");
    }
    void close(size_t k) {
        OpenTx t = std::move(open[k]);
        open.erase(open.begin() + (long)k);
        log += fmt("end instance %d\n", (int)t.i->w.GetInstanceId());
        bool thrown = rng.chance(1, 6);
        try {
            std::vector<std::any> hs = std::move(t.hs);
            while (hs.size() > 1)
                hs.erase(hs.begin() + (long)rng.below(hs.size()));
            if (thrown) throw 1;
        } catch (int) {}
        if (t.wrote) t.i->a = t.wrote;
        counts["ended"]++;
        // a new one can be started at once
        if (rng.chance(1, 2)) start(t.i);
    }
    void run(int steps) {
        // profile: many instances (towards the limit) or few
        bool big = own.size() > LIMIT;
        if (big) steps *= 3;
        size_t target = big ? LIMIT + 4 : 1 + rng.below(12);
        for (int s = 0; s < steps && !failed; s++) {
            if (s % 50 == 0) Watchdog::kick();
            uint64_t r = rng.below(100);
            bool grow = open.size() < target;
            if (r < (grow ? 62u : 25u)) {
                bool again = !open.empty() && rng.chance(1, 3);
                Inst *i = again ? open[rng.below(open.size())].i : rng.chance(1, 5) && !shared.empty() ? shared[rng.below(shared.size())] : own[rng.below(own.size())].get();
                start(i);
            } else if (r < (grow ? 70u : 60u)) {
                if (!open.empty()) close(rng.below(open.size()));
            } else if (r < 80) {
                if (!open.empty()) write(open[rng.below(open.size())]);
            } else if (r < 90) {
                if (!open.empty()) copy(open[rng.below(open.size())]);
            } else if (r < 93) {
                target = big && !rng.chance(1, 4) ? LIMIT + 4 : 1 + rng.below(12);
            } else if (r < 96) {
                // an instance dies and a new one takes its place
                size_t k = rng.below(own.size());
                bool used = false;
                for (auto &t : open)
                    used |= t.i == own[k].get();
                if (!used && open.size() < LIMIT) {
                    own[k].reset();
                    own[k] = std::make_unique<Inst>(false, 1 + rng.below(1000));
                    counts["instances_replaced"]++;
                }
            } else if (!open.empty() && !works(open[rng.below(open.size())], "later"))
                return;
        }
        while (!open.empty() && !failed)
            close(open.size() - 1);
        if (!failed)
            for (auto &i : own) {
                auto l = i->w.StartTransaction<Read<A>>();
                if (i->e.Get<A>(l).v != i->a) return bad("lost", "a committed value is missing at the end", "C15 C05");
                size_t id = l.GetTransactionId();
                if (id <= lastId) return bad("id-order", fmt("transaction id %zu after %zu in the same thread", id, lastId));
                lastId = id;
                ids.push_back(id);
            }
    }
};

// The last lock of a transaction goes away on another thread than the one that started it.
static void probeCrossThread() {
    World w;
    {
        std::any keep;
        {
            auto l = w.StartTransaction<Read<A>>();
            keep = l;
        }
        std::thread([&] { keep.reset(); }).join();
    }
    Report::count("cross_thread_releases");
    try {
        auto l = w.StartTransaction<Read<A>>();
    } catch (const std::exception &e) {
        Report::violation("C15", "nest:released-on-another-thread",
            std::string("a transaction whose last lock was released on another thread has ended, but its own thread is refused a new one for ever: ") + e.what(), "probe");
    }
}

int main(int argc, char **argv) {
    Args a(argc, argv);
    Report::focus() = a.str("focus", "");
    uint64_t seed = a.num("seed", 1), first = a.num("first", 0), cases = a.num("cases", 100);
    int steps = (int)a.num("steps", 300);
    Watchdog::start(60);
    Watchdog::what() = "nest";
    if (a.has("probe")) {
        std::thread(probeCrossThread).join();
        Report::count("cases");
        Report::finish();
        return 0;
    }
    for (uint64_t n = first; n < first + cases && Report::violations() < 5; n++) {
        Watchdog::kick();
        Rng rng(mix64(seed * 49979687 + n) + 11);
        std::string where = fmt("seed=%llu case=%llu", (unsigned long long)seed, (unsigned long long)n);
        int nt = 1 + (int)rng.below(4);
        std::vector<std::unique_ptr<Inst>> shared;
        for (int i = 0; i < 4; i++)
            shared.push_back(std::make_unique<Inst>(true, 7));
        std::vector<std::unique_ptr<ThreadRun>> rs;
        bool big = rng.chance(1, 4);
        for (int t = 0; t < nt; t++) {
            rs.push_back(std::make_unique<ThreadRun>());
            auto &r = *rs.back();
            r.id = t;
            r.where = where;
            r.rng = Rng(rng.next());
            for (auto &s : shared)
                r.shared.push_back(s.get());
            for (size_t i = 0, m = big ? LIMIT + 6 : 3 + r.rng.below(12); i < m; i++)
                r.own.push_back(std::make_unique<Inst>(false, 1 + r.rng.below(1000)));
        }
        auto go = [&](ThreadRun &r) {
            try {
                r.run(steps);
            } catch (const std::exception &e) {
                r.bad("unexpected-exception", e.what(), "C15");
            }
            r.open.clear();
        };
        if (nt == 1 && rng.chance(1, 2)) go(*rs[0]);
        else {
            std::vector<std::thread> ts;
            for (auto &r : rs)
                ts.emplace_back([&, p = r.get()] { go(*p); });
            for (auto &t : ts)
                t.join();
        }
        std::unordered_set<size_t> seen;
        for (auto &r : rs) {
            for (auto id : r->ids)
                if (!seen.insert(id).second) Report::violation("C15", "nest:id-unique", fmt("transaction id %zu was given twice", id), where);
            for (auto &c : r->counts)
                Report::count(c.first.c_str(), c.second);
            Report::count("ids", r->ids.size());
        }
        if (n == first) Report::sample(rs[0]->log.substr(0, 700));
        Report::count("cases");
    }
    Report::finish();
    return 0;
}
