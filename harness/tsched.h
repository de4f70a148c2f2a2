// Steered scheduling of real threads. Every registered thread runs only while it holds the token; it may lose it at a
// point: the hook points in the library (tecs_verif_point), every atomic operation (in builds that use sched_rt.c as the
// instrumentation runtime), futex waits and sched_yield. Nothing here is instrumented and all blocking uses raw system
// calls, so it adds no happens-before edges that a race detector could see.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { SCHED_OFF, SCHED_RANDOM, SCHED_PCT, SCHED_DIRECTED };
enum { ST_IDLE, ST_READY, ST_BLOCKED, ST_PARKED, ST_DONE };
enum { RUN_OK, RUN_DEADLOCK, RUN_LIVELOCK, RUN_STALL, RUN_PARKED, RUN_BLOCKED, RUN_SPINNING };
typedef struct {
    int policy;
    int nthreads;
    uint64_t seed;
    int pct_depth;       // number of priority change points
    uint64_t pct_steps;  // expected length
    int switch_den;      // random: switch with probability 1/den at a point
    int spurious_den;    // 0: never; else a blocked thread is woken spuriously with probability 1/den per point
    int mem_den;         // plain memory accesses are points with probability 1/den (0: never)
    uint64_t max_steps;
} sched_cfg;

void sched_begin(const sched_cfg *);
void sched_enter(int id);  // by the worker: wait for the token
void sched_exit_(void);    // by the worker: done with this run
int sched_wait(void);      // by the controller (policies RANDOM, PCT): run everything to the end
// Directed: run one thread until it parks, blocks or has taken max points; returns RUN_*
int sched_step(int id, uint64_t max);
// Directed: run all ready threads (seeded random) until none is ready; RUN_LIVELOCK if that takes more than max points
int sched_settle(uint64_t max);
int sched_state(int id);
void sched_park(void); // by the worker: an application level step is finished
int sched_self(void);  // -1 if not scheduled
void sched_progress(void);
uint64_t sched_clock(void); // total order of events while scheduled; steady clock otherwise
uint64_t sched_steps(void);
uint64_t sched_switches(void);
uint64_t sched_points_of(int id);
uint64_t sched_trace_hash(void); // hash of the sequence of (thread, point) decisions
const char *sched_last_point(int id);
void sched_describe(char *buf, int n);
void app_point(const char *where);
void tecs_verif_point(const char *where);
// free-running mode: random delays at the hook points; 0 = none
void sched_delays(unsigned den, unsigned max_us);
extern uint64_t sched_point_hits;
extern int sched_trace;
extern int sched_soft; // directed: threads still running after sched_settle's points are not an error
void sched_end(void);
#ifdef __cplusplus
}
#endif
