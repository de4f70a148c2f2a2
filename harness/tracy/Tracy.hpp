// A stand-in for the Tracy profiler's client (which is not available here), with the names the library uses. It keeps the books
// of every lock it is told about: when a lock goes away, it must have been released as often as it was taken.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>

namespace tracy {
    struct SourceLocationData {
        const char *name, *function, *file;
        uint32_t line, color;
    };
    // filled in by the harness
    inline std::atomic_uint64_t &unbalanced() {
        static std::atomic_uint64_t n{0};
        return n;
    }
    inline std::atomic_uint64_t &reported() {
        static std::atomic_uint64_t n{0};
        return n;
    }
    struct Balance {
        std::atomic_int64_t begun{0}, taken{0}, released{0};
        bool before() {
            begun++;
            return true;
        }
        void after() {
            begun--;
            taken++;
        }
        void tried(bool ok) {
            if (ok) taken++;
        }
        void unlock() {
            released++;
            reported()++;
        }
        ~Balance() {
            if (begun || taken != released) unbalanced()++;
        }
    };
    struct LockableCtx {
        Balance x;
        explicit LockableCtx(const SourceLocationData *) {}
        LockableCtx(const LockableCtx &) = delete;
        LockableCtx &operator=(const LockableCtx &) = delete;
        bool BeforeLock() { return x.before(); }
        void AfterLock() { x.after(); }
        void AfterUnlock() { x.unlock(); }
        void AfterTryLock(bool ok) { x.tried(ok); }
    };
    struct SharedLockableCtx {
        Balance x, s;
        explicit SharedLockableCtx(const SourceLocationData *) {}
        SharedLockableCtx(const SharedLockableCtx &) = delete;
        SharedLockableCtx &operator=(const SharedLockableCtx &) = delete;
        bool BeforeLock() { return x.before(); }
        void AfterLock() { x.after(); }
        void AfterUnlock() { x.unlock(); }
        void AfterTryLock(bool ok) { x.tried(ok); }
        bool BeforeLockShared() { return s.before(); }
        void AfterLockShared() { s.after(); }
        void AfterUnlockShared() { s.unlock(); }
        void AfterTryLockShared(bool ok) { s.tried(ok); }
    };
    struct ScopedZone {
        size_t len = 0;
        explicit ScopedZone(const SourceLocationData *l, bool = true) {
            for (const char *p = l->function; p && *p; p++) // the name must be there for as long as the zone is
                len++;
        }
        ScopedZone(const SourceLocationData *l, int, bool) : ScopedZone(l) {}
        ScopedZone(const ScopedZone &) = delete;
        void Text(const char *, size_t) {}
    };
} // namespace tracy
#define ZoneNamedN(var, txt, active)                                                                                   \
    static constexpr tracy::SourceLocationData var##Loc{txt, __FUNCTION__, __FILE__, (uint32_t)__LINE__, 0};           \
    tracy::ScopedZone var(&var##Loc, active)
#define ZoneTextV(var, txt, size) var.Text(txt, size)
