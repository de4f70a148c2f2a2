#define _GNU_SOURCE
#include "tsched.h"
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 32
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void fwait(int *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static int fwait_to(int *w, long ms) {
    struct timespec ts = {ms / 1000, (ms % 1000) * 1000000};
    if (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, (long)&ts, 0, 0);
    if (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) return 0;
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
    return 1;
}
static void fpost(int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static struct th {
    int sem;
    int state;
    const void *addr;
    const char *last;
    uint64_t points;
    uint64_t quiet; // points since the last progress
    int prio;
    char pad[64];
} T[MAXT];
static sched_cfg C;
static volatile int active;   // a run is going on
static volatile int freerun;  // gave up steering this run
static int ctl;               // controller's semaphore
static int cur;
static int result;
static uint64_t steps, switches, hash_, clk, rng, grant;
static int settle;            // directed: any ready thread may run
static int lowprio;
static uint64_t changeAt[64];
static int nchange;
static __thread int self = -1;
static unsigned delay_den, delay_us;
uint64_t sched_point_hits;
static __thread uint64_t trng;

static uint64_t rnd(void) {
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void sched_begin(const sched_cfg *c) {
    C = *c;
    if (!C.max_steps) C.max_steps = 400000;
    rng = C.seed * 0x2545F4914F6CDD1Dull + 99;
    steps = switches = hash_ = 0;
    result = RUN_OK;
    freerun = 0;
    settle = 0;
    grant = 0;
    lowprio = 0;
    for (int i = 0; i < C.nthreads; i++) {
        T[i].sem = 0;
        T[i].state = ST_READY;
        T[i].addr = 0;
        T[i].last = "start";
        T[i].points = T[i].quiet = 0;
        T[i].prio = 1000 + (int)(rnd() % 100000);
    }
    nchange = C.pct_depth > 60 ? 60 : C.pct_depth;
    for (int i = 0; i < nchange; i++)
        changeAt[i] = 1 + rnd() % (C.pct_steps ? C.pct_steps : 500);
    cur = -1;
    ctl = 0;
    __atomic_store_n(&active, 1, __ATOMIC_SEQ_CST);
}
int sched_self(void) { return self; }
int sched_state(int id) { return T[id].state; }
const char *sched_last_point(int id) { return T[id].last; }
uint64_t sched_steps(void) { return steps; }
uint64_t sched_switches(void) { return switches; }
uint64_t sched_points_of(int id) { return T[id].points; }
uint64_t sched_trace_hash(void) { return hash_; }
void sched_progress(void) {
    if (self >= 0) T[self].quiet = 0;
}
uint64_t sched_clock(void) {
    if (active && self >= 0 && !freerun) return ++clk;
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + (uint64_t)ts.tv_nsec + (1ull << 62);
}
void sched_describe(char *b, int n) {
    static const char *const sn[] = {"idle", "ready", "blocked", "parked", "done"};
    int o = 0;
    for (int i = 0; i < C.nthreads && o < n - 80; i++)
        o += snprintf(b + o, n - o, "thread %d %s at %s%s", i, sn[T[i].state], T[i].last, i + 1 < C.nthreads ? "; " : "");
}

// Picks the next thread to run; -1 if none is ready.
static int pick(int from) {
    int ready[MAXT], n = 0;
    for (int i = 0; i < C.nthreads; i++)
        if (T[i].state == ST_READY) ready[n++] = i;
    if (!n) return -1;
    if (C.policy == SCHED_PCT && steps < C.max_steps) {
        int best = ready[0];
        for (int i = 1; i < n; i++)
            if (T[ready[i]].prio > T[best].prio) best = ready[i];
        return best;
    }
    (void)from;
    return ready[rnd() % n];
}
static void handover(int to) {
    int me = self;
    if (to == me) return;
    switches++;
    cur = to;
    fpost(&T[to].sem);
    fwait(&T[me].sem);
}
// The current thread cannot or must not go on.
static void to_controller(void) {
    cur = -1;
    fpost(&ctl);
}
static void give_up(int r) {
    result = r;
    to_controller();
    for (;;)
        raw6(SYS_pause, 0, 0, 0, 0, 0, 0); // the controller reports and ends the process
}

static void maybe_spurious(void) {
    if (!C.spurious_den || rnd() % C.spurious_den) return;
    for (int k = 0; k < 4; k++) {
        int i = rnd() % C.nthreads;
        if (T[i].state == ST_BLOCKED) {
            T[i].state = ST_READY;
            return;
        }
    }
}

int sched_trace, sched_soft;
static void point(const char *where, int yield) {
    int me = self;
    if (sched_trace) fprintf(stderr, "%llu t%d %s\n", (unsigned long long)clk, me, where);
    struct th *t = &T[me];
    steps++;
    t->points++;
    t->quiet++;
    t->last = where;
    if (freerun) return;
    if (C.policy == SCHED_DIRECTED && !settle) {
        if (grant && --grant == 0) { // used up its points: spinning
            result = RUN_SPINNING;
            to_controller();
            fwait(&t->sem);
        }
        return;
    }
    maybe_spurious();
    int to = me;
    if (C.policy == SCHED_DIRECTED) {
        if (grant && --grant == 0) {
            if (!sched_soft) give_up(RUN_LIVELOCK);
            result = RUN_SPINNING; // still running: the controller looks at the states
            to_controller();
            fwait(&t->sem);
            return;
        }
        if (yield || rnd() % 3 == 0) to = pick(me);
    } else {
        if (steps >= 2 * C.max_steps) give_up(RUN_LIVELOCK);
        if (C.policy == SCHED_PCT && steps < C.max_steps) {
            for (int i = 0; i < nchange; i++)
                if (changeAt[i] == steps) t->prio = --lowprio;
            if (yield || (t->quiet % 600) == 599) t->prio = --lowprio;
            to = pick(me);
        } else if (yield || rnd() % (C.switch_den > 0 ? C.switch_den : 2) == 0 || steps >= C.max_steps)
            to = pick(me);
    }
    if (to < 0) to = me;
    hash_ = (hash_ ^ (uint64_t)(to + 1)) * 0x100000001b3ull;
    if (to != me) {
        for (const char *c = where; *c; c++)
            hash_ = (hash_ ^ (uint64_t)*c) * 0x100000001b3ull;
        handover(to);
    }
}

static void delay(void) {
    if (!delay_den) return;
    if (!trng) {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        trng = (uint64_t)(uintptr_t)&trng ^ (uint64_t)ts.tv_nsec * 77777;
    }
    trng ^= trng << 13;
    trng ^= trng >> 7;
    trng ^= trng << 17;
    if (trng % delay_den) return;
    unsigned k = (unsigned)(trng >> 20) % 8;
    if (k < 3) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    else if (k < 6) {
        for (volatile int i = 0; i < (int)((trng >> 32) % 2000); i++) {}
    } else {
        struct timespec ts = {0, 1000 * (long)(1 + (trng >> 32) % (delay_us ? delay_us : 1))};
        raw6(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
    }
}
void sched_delays(unsigned den, unsigned max_us) {
    delay_den = den;
    delay_us = max_us;
}
void tecs_verif_point(const char *where) {
    __atomic_fetch_add(&sched_point_hits, 1, __ATOMIC_RELAXED);
    if (active && self >= 0) point(where, 0);
    else delay();
}
void app_point(const char *where) {
    if (active && self >= 0) point(where, 0);
    else delay();
}
// from sched_rt.c
void sched_atomic_point(const char *where) {
    if (active && self >= 0) point(where, 0);
}
void sched_mem_point(void) {
    if (active && self >= 0 && C.mem_den && !freerun && rnd() % C.mem_den == 0) point("memory access", 0);
}

int sched_weak_fails(void) { return active && self >= 0 && C.policy != SCHED_DIRECTED && rnd() % 24 == 0; }

void sched_enter(int id) {
    self = id;
    fwait(&T[id].sem);
}
void sched_exit_(void) {
    int me = self;
    T[me].state = ST_DONE;
    T[me].last = "done";
    self = -1;
    if (C.policy == SCHED_DIRECTED && !settle) {
        result = RUN_PARKED;
        to_controller();
        return;
    }
    int to = pick(me);
    if (to >= 0) {
        cur = to;
        switches++;
        fpost(&T[to].sem);
        return;
    }
    int blocked = 0;
    for (int i = 0; i < C.nthreads; i++)
        blocked += T[i].state == ST_BLOCKED;
    result = blocked && !settle ? RUN_DEADLOCK : RUN_OK;
    to_controller();
}
static int wait_controller(void) {
    uint64_t last = ~0ull;
    int idle = 0;
    while (!fwait_to(&ctl, 500)) {
        uint64_t s = __atomic_load_n(&steps, __ATOMIC_RELAXED) + T[0].points;
        idle = s == last ? idle + 1 : 0;
        last = s;
        if (idle >= 60) { // 30 s without a point: blocked on something the scheduler does not control
            return RUN_STALL;
        }
    }
    return result;
}
int sched_wait(void) {
    int to = pick(-1);
    if (to < 0) return RUN_OK;
    cur = to;
    fpost(&T[to].sem);
    int r = wait_controller();
    if (r == RUN_OK || r == RUN_PARKED) __atomic_store_n(&active, 0, __ATOMIC_SEQ_CST);
    return r;
}
int sched_step(int id, uint64_t max) {
    if (T[id].state == ST_BLOCKED) return RUN_BLOCKED;
    if (T[id].state == ST_DONE) return RUN_PARKED;
    settle = 0;
    grant = max;
    T[id].state = ST_READY;
    cur = id;
    fpost(&T[id].sem);
    return wait_controller();
}
int sched_settle(uint64_t max) {
    settle = 1;
    grant = max;
    int to = pick(-1);
    if (to < 0) {
        settle = 0;
        return RUN_OK;
    }
    cur = to;
    fpost(&T[to].sem);
    int r = wait_controller();
    settle = 0;
    return r;
}
void sched_end(void) { __atomic_store_n(&active, 0, __ATOMIC_SEQ_CST); }
void sched_park(void) {
    int me = self;
    if (!active || me < 0) return;
    T[me].state = ST_PARKED;
    T[me].last = "parked";
    if (settle) {
        int to = pick(me);
        if (to >= 0) {
            cur = to;
            fpost(&T[to].sem);
        } else {
            result = RUN_OK;
            to_controller();
        }
    } else {
        result = RUN_PARKED;
        to_controller();
    }
    fwait(&T[me].sem);
    T[me].state = ST_READY;
}

// ---- interposed waiting primitives -----------------------------------------------------------------------------------
static void block_on(const void *addr) {
    int me = self;
    struct th *t = &T[me];
    t->state = ST_BLOCKED;
    t->addr = addr;
    steps++;
    t->points++;
    if (C.policy == SCHED_DIRECTED && !settle) {
        result = RUN_BLOCKED;
        to_controller();
        fwait(&t->sem);
        return;
    }
    int to = pick(me);
    if (to < 0) {
        if (settle) {
            result = RUN_OK; // nothing can run: the controller looks at the states
            to_controller();
            fwait(&t->sem);
            return;
        }
        give_up(RUN_DEADLOCK);
    }
    hash_ = (hash_ ^ (uint64_t)(to + 100)) * 0x100000001b3ull;
    switches++;
    cur = to;
    fpost(&T[to].sem);
    fwait(&t->sem);
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active && self >= 0 && !freerun) {
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            T[self].last = "futex wait";
            if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) {
                point("futex wait (changed)", 0);
                errno = EAGAIN;
                return -1;
            }
            block_on((void *)a);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int woken = 0, want = (int)c, start = rnd() % C.nthreads;
            for (int k = 0; k < C.nthreads && woken < want; k++) {
                int i = (start + k) % C.nthreads;
                if (T[i].state == ST_BLOCKED && T[i].addr == (void *)a) {
                    T[i].state = ST_READY;
                    woken++;
                }
            }
            point("futex wake", 0);
            return woken;
        }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
int sched_yield(void) {
    if (active && self >= 0 && !freerun) {
        point("sched_yield", 1);
        return 0;
    }
    raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return 0;
}
