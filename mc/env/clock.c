/* Clock of the library, set by the check: it stands still and moves on by a fixed time at each allocation. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>

static double start = 1e9, step = 0.;
static long ticks = 0;

void env_clock(double start_, double step_) { start = start_; step = step_; __atomic_store_n(&ticks, 0, __ATOMIC_SEQ_CST); }
long env_ticks(void) { return __atomic_load_n(&ticks, __ATOMIC_SEQ_CST); }
static double now(void) { return start + step * env_ticks(); }
static void tick(void) { __atomic_add_fetch(&ticks, 1, __ATOMIC_SEQ_CST); }

time_t __wrap_time(time_t *t) { time_t v = (time_t) now(); if (t) *t = v; return v; }
clock_t __wrap_clock(void) { return (clock_t) (now() * CLOCKS_PER_SEC); }
double __wrap_omp_get_wtime(void) { return now(); }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void) tz; double v = now(); tv->tv_sec = (time_t) v; tv->tv_usec = (long) ((v - (double) tv->tv_sec) * 1e6); return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { (void) id; double v = now(); ts->tv_sec = (time_t) v; ts->tv_nsec = (long) ((v - (double) ts->tv_sec) * 1e9); return 0; }

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { tick(); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { tick(); return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { tick(); return __real_realloc(p, n); }
