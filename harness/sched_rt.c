#define _GNU_SOURCE
// Instrumentation runtime of the scheduled builds: code is compiled with -fsanitize=thread but linked with these functions
// instead of the ThreadSanitizer runtime, so that every atomic operation (and some plain accesses) is a scheduling point,
// wherever it is in the code.
#include <stdint.h>
#include <string.h>
void sched_atomic_point(const char *);
void sched_mem_point(void);
int sched_weak_fails(void);
int sched_self(void);
int sched_yield(void);
#define PT(w) sched_atomic_point(w)
#define ACC(n)                                                                                                         \
    void __tsan_read##n(void *p) { (void)p; sched_mem_point(); }                                                       \
    void __tsan_write##n(void *p) { (void)p; sched_mem_point(); }                                                      \
    void __tsan_unaligned_read##n(void *p) { (void)p; sched_mem_point(); }                                             \
    void __tsan_unaligned_write##n(void *p) { (void)p; sched_mem_point(); }                                            \
    void __tsan_read##n##_pc(void *p, void *q) { (void)p; (void)q; }                                                   \
    void __tsan_write##n##_pc(void *p, void *q) { (void)p; (void)q; }                                                  \
    void __tsan_read_write##n(void *p) { (void)p; sched_mem_point(); }                                                 \
    void __tsan_volatile_read##n(void *p) { (void)p; }                                                                 \
    void __tsan_volatile_write##n(void *p) { (void)p; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_read(void *p) { (void)p; }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; sched_mem_point(); }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; sched_mem_point(); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { sched_mem_point(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { sched_mem_point(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { sched_mem_point(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int m) { (void)m; PT("fence"); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#define SC __ATOMIC_SEQ_CST
#define ATOM(b, ty)                                                                                                    \
    ty __tsan_atomic##b##_load(const volatile ty *p, int m) { (void)m; PT("atomic load"); return __atomic_load_n(p, SC); } \
    void __tsan_atomic##b##_store(volatile ty *p, ty v, int m) { (void)m; PT("atomic store"); __atomic_store_n(p, v, SC); } \
    ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int m) { (void)m; PT("atomic xchg"); return __atomic_exchange_n(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int m) { (void)m; PT("atomic add"); return __atomic_fetch_add(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int m) { (void)m; PT("atomic sub"); return __atomic_fetch_sub(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int m) { (void)m; PT("atomic and"); return __atomic_fetch_and(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int m) { (void)m; PT("atomic or"); return __atomic_fetch_or(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int m) { (void)m; PT("atomic xor"); return __atomic_fetch_xor(p, v, SC); } \
    ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int m) { (void)m; PT("atomic nand"); return __atomic_fetch_nand(p, v, SC); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int m, int f) {                         \
        (void)m; (void)f; PT("atomic cas");                                                                            \
        return __atomic_compare_exchange_n(p, e, v, 0, SC, SC);                                                         \
    }                                                                                                                  \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int m, int f) {                           \
        (void)m; (void)f; PT("atomic cas");                                                                            \
        if (sched_weak_fails()) { *e = __atomic_load_n(p, SC); return 0; }                                             \
        return __atomic_compare_exchange_n(p, e, v, 0, SC, SC);                                                         \
    }                                                                                                                  \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int m, int f) {                              \
        (void)m; (void)f; PT("atomic cas");                                                                            \
        __atomic_compare_exchange_n(p, &e, v, 0, SC, SC);                                                               \
        return e;                                                                                                      \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// Locks the library might use one day: waiting for them is a scheduling point too.
#include <errno.h>
#include <pthread.h>
#include <dlfcn.h>
#define SPIN(real, try)                                                                                                \
    if (sched_self() < 0) return real;                                                                                 \
    for (;;) {                                                                                                         \
        int r = try;                                                                                                   \
        if (r != EBUSY) return r;                                                                                      \
        sched_yield();                                                                                                 \
    }
int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *);
    if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    PT("mutex lock");
    SPIN(real(m), pthread_mutex_trylock(m))
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    static int (*real)(pthread_rwlock_t *);
    if (!real) real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
    PT("rwlock rdlock");
    SPIN(real(m), pthread_rwlock_tryrdlock(m))
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    static int (*real)(pthread_rwlock_t *);
    if (!real) real = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
    PT("rwlock wrlock");
    SPIN(real(m), pthread_rwlock_trywrlock(m))
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *);
    if (!real) real = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (sched_self() < 0) return real(c, m);
    pthread_mutex_unlock(m); // a spurious wake-up is always allowed
    sched_yield();
    return pthread_mutex_lock(m);
}
