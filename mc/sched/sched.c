/* OpenMP runtime under a controlled scheduler, with a happens-before race detector and a heap monitor.
 *
 * The library under test is compiled as it is with -fopenmp -fsanitize=thread and linked against this file instead of
 * libgomp and libtsan.  Threads are real (thread-local storage behaves as usual) but only the one holding the token
 * runs; the token changes hands at synchronisation operations, at the choice of the explorer (a prefix of choices, then
 * the default: go on with the current thread, else the lowest number).  Between two synchronisation operations of an
 * execution free of races all orders of memory accesses give the same result, so that exploring the orders of the
 * synchronisation operations explores all interleavings; racy instructions can be made scheduling points as well.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

/* the wrapped functions under their own names */
void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void __real_free(void *p);
void *__real_memcpy(void *d, const void *s, size_t n);
void *__real_memmove(void *d, const void *s, size_t n);
void *__real_memset(void *d, int c, size_t n);
#define malloc __real_malloc
#define calloc __real_calloc
#define free __real_free
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset

#define MAXT 64
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned long long ull;

enum { READY, WAIT_LOCK, WAIT_BARRIER, WAIT_JOIN, DONE, IDLE };
enum { K_START, K_LOCK, K_UNLOCK, K_BARRIER, K_END, K_ATOMIC, K_RACY, K_LOOP, K_ALLOC };

struct lock { void *addr; int held; u32 vc[MAXT]; };
struct ws { int init, arrived; long next, end, incr, chunk; u32 vc[MAXT]; void *copy; };
#define MAXWS 4096
struct vthread {
	int tid, state, nested, created, pos_ws;
	struct lock *want;
	pthread_t th;
	sem_t sem;
	u32 vc[MAXT];
	u32 racyhits;
};

static struct vthread vt[MAXT];
static __thread struct vthread *me = NULL;
static pid_t owner_pid = 0;

static int icv_threads = 4, mode_fresh = 0, max_racy = 0;
static int in_region = 0, T = 1, barrier_arrived = 0, quit_pool = 0;
static void (*region_fn)(void *);
static void *region_data;
static struct lock locks[256];
static int nlocks = 0;
static struct ws *wss = NULL;
static int nws_used = 0;
static long ordered_next = 0;

/* choices */
#define MAXCH 65536
static int prefix[MAXCH], nprefix = 0;
static struct { u64 enabled; int cur, chosen, kind; } ch[MAXCH];
static int nch = 0, diverged = 0;

/* report */
static char rep[1 << 16];
static int nrep = 0;
static size_t repn = 0;
static long st_access = 0, st_regions = 0, st_sync = 0, st_lost = 0, st_maxT = 0, st_races = 0;

static void note(const char *fmt, ...)
{
	va_list ap;
	nrep++;
	if (repn + 400 > sizeof(rep)) return;
	va_start(ap, fmt);
	repn += vsnprintf(rep + repn, 399, fmt, ap);
	va_end(ap);
	if (repn + 2 < sizeof(rep)) { rep[repn++] = '\n'; rep[repn] = 0; }
}

/* ---------------------------------------------------------------- scheduler */

static int enabled(struct vthread *t)
{
	switch (t->state) {
	case READY: return 1;
	case WAIT_LOCK: return !t->want->held;
	case WAIT_JOIN: { int i; for (i = 1; i < T; i++) if (vt[i].state != DONE) return 0; return 1; }
	default: return 0;
	}
}

static void dead(void)
{
	fprintf(stderr, "sched: deadlock\n");
	note("deadlock: no thread can go on");
	_exit(77);
}

static struct vthread *choose(int kind)
{
	u64 mask = 0;
	int i, n = 0, def = -1, cur = (me && enabled(me)) ? me->tid : -1, pick;
	for (i = 0; i < T; i++) if (enabled(&vt[i])) { mask |= 1ull << i; n++; if (def < 0) def = i; }
	if (!n) dead();
	if (cur >= 0) def = cur;
	if (n == 1) return &vt[def];
	pick = def;
	if (nch < nprefix) {
		pick = prefix[nch];
		if (pick < 0 || pick >= T || !(mask >> pick & 1)) { diverged = 1; pick = def; }
	}
	if (nch < MAXCH) { ch[nch].enabled = mask; ch[nch].cur = cur; ch[nch].chosen = pick; ch[nch].kind = kind; nch++; }
	return &vt[pick];
}

static void sem_wait_(sem_t *s) { while (sem_wait(s) && errno == EINTR); }

static void point(int kind)
{
	struct vthread *self = me, *next;
	st_sync++;
	next = choose(kind);
	if (next != self) {
		sem_post(&next->sem);
		sem_wait_(&self->sem);
	}
	self->state = READY;
}

static void vjoin(u32 *a, const u32 *b) { int i; for (i = 0; i < T; i++) if (b[i] > a[i]) a[i] = b[i]; }

static int active(void) { return in_region && me && !me->nested; }

static void barrier_(void)
{
	int i;
	if (!active() || T == 1) return;
	barrier_arrived++;
	if (barrier_arrived < T) me->state = WAIT_BARRIER;
	else {
		u32 j[MAXT];
		memset(j, 0, sizeof(j));
		for (i = 0; i < T; i++) vjoin(j, vt[i].vc);
		for (i = 0; i < T; i++) {
			memcpy(vt[i].vc, j, sizeof(j));
			vt[i].vc[i]++;
			if (vt[i].state == WAIT_BARRIER) vt[i].state = READY;
		}
		barrier_arrived = 0;
	}
	point(K_BARRIER);
}

static struct lock *find_lock(void *addr)
{
	int i;
	for (i = 0; i < nlocks; i++) if (locks[i].addr == addr) return &locks[i];
	if (nlocks == 256) { fprintf(stderr, "sched: too many locks\n"); _exit(78); }
	memset(&locks[nlocks], 0, sizeof(struct lock));
	locks[nlocks].addr = addr;
	return &locks[nlocks++];
}

static void lock_(void *addr)
{
	struct lock *l;
	if (!active() || T == 1) return;
	l = find_lock(addr);
	me->want = l;
	me->state = WAIT_LOCK;
	point(K_LOCK);
	l->held = 1;
	vjoin(me->vc, l->vc);
}

static void unlock_(void *addr)
{
	struct lock *l;
	if (!active() || T == 1) return;
	l = find_lock(addr);
	if (!l->held) note("critical section left that was not entered");
	l->held = 0;
	memcpy(l->vc, me->vc, sizeof(l->vc));
	me->vc[me->tid]++;
	point(K_UNLOCK);
}

static void *worker(void *arg)
{
	me = arg;
	for (;;) {
		sem_wait_(&me->sem);
		if (quit_pool) break;
		region_fn(region_data);
		me->state = DONE;
		{
			struct vthread *next = choose(K_END);
			sem_post(&next->sem);
		}
	}
	return NULL;
}

static void check_pid(void)
{
	int i;
	if (owner_pid == getpid()) return;
	/* first use, or this process is a fork: no thread but this one exists */
	owner_pid = getpid();
	for (i = 0; i < MAXT; i++) {
		vt[i].tid = i; vt[i].created = 0; vt[i].nested = 0; vt[i].state = IDLE;
		sem_init(&vt[i].sem, 0, 0);
	}
	if (!wss) wss = calloc(MAXWS, sizeof(struct ws));
}

static void shadow_clear(void);

static void run_region(void (*fn)(void *), void *data, int n)
{
	int i, saved = T;
	struct vthread *was = me;
	check_pid();
	if (in_region) {            /* nested: a team of one */
		me->nested++;
		fn(data);
		me->nested--;
		return;
	}
	if (n <= 0) n = icv_threads;
	if (n > MAXT) n = MAXT;
	me = &vt[0];
	T = n;
	if (n > st_maxT) st_maxT = n;
	st_regions++;
	region_fn = fn;
	region_data = data;
	quit_pool = 0;
	for (i = 1; i < T; i++) if (!vt[i].created) {
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 1 << 21);
		if (pthread_create(&vt[i].th, &at, worker, &vt[i])) { fprintf(stderr, "sched: cannot create a thread\n"); _exit(78); }
		pthread_attr_destroy(&at);
		vt[i].created = 1;
	}
	for (i = 0; i < T; i++) {
		vt[i].state = READY; vt[i].pos_ws = 0; vt[i].racyhits = 0;
		memset(vt[i].vc, 0, sizeof(vt[i].vc));
		vt[i].vc[i] = 1;
	}
	nlocks = 0; barrier_arrived = 0; ordered_next = 0;
	shadow_clear();
	in_region = 1;
	if (T > 1) point(K_START);
	fn(data);
	if (T > 1) {
		me->state = WAIT_JOIN;
		point(K_END);
		for (i = 0; i < nlocks; i++) if (locks[i].held) note("critical section entered and never left");
	}
	in_region = 0;
	if (wss) memset(wss, 0, sizeof(struct ws) * (nws_used + 1));
	nws_used = 0;
	if (mode_fresh && T > 1) {
		quit_pool = 1;
		for (i = 1; i < MAXT; i++) if (vt[i].created) {
			sem_post(&vt[i].sem);
			pthread_join(vt[i].th, NULL);
			vt[i].created = 0;
			vt[i].state = IDLE;
		}
		quit_pool = 0;
	} else for (i = 0; i < MAXT; i++) if (vt[i].state == DONE) vt[i].state = IDLE;
	T = saved;
	me = was;
}

/* ---------------------------------------------------------------- OpenMP entry points */

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_region(fn, data, n); }
void GOMP_barrier(void) { barrier_(); }
static int lock_default, lock_atomic;
void GOMP_critical_start(void) { lock_(&lock_default); }
void GOMP_critical_end(void) { unlock_(&lock_default); }
void GOMP_critical_name_start(void **p) { lock_(p); }
void GOMP_critical_name_end(void **p) { unlock_(p); }
void GOMP_atomic_start(void) { lock_(&lock_atomic); }
void GOMP_atomic_end(void) { unlock_(&lock_atomic); }

static struct ws *next_ws(void)
{
	static struct ws alone[8];
	if (!active()) { memset(&alone[0], 0, sizeof(alone[0])); return &alone[0]; }
	if (me->pos_ws >= MAXWS) { fprintf(stderr, "sched: too many work sharing constructs\n"); _exit(78); }
	if (me->pos_ws + 1 > nws_used) nws_used = me->pos_ws + 1;
	return &wss[me->pos_ws++];
}
static __thread struct ws *curws = NULL;

static bool ws_next(long *istart, long *iend)
{
	struct ws *w = curws;
	long chunk;
	if (active() && T > 1) point(K_LOOP);
	if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
	chunk = w->chunk > 0 ? w->chunk : 1;
	*istart = w->next;
	w->next += chunk * w->incr;
	if (w->incr > 0 ? w->next > w->end : w->next < w->end) w->next = w->end;
	*iend = w->next;
	return true;
}
static bool ws_start(long start, long end, long incr, long chunk, long *istart, long *iend)
{
	struct ws *w = next_ws();
	if (!w->init) { w->init = 1; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; }
	curws = w;
	return ws_next(istart, iend);
}
struct ploop { void (*fn)(void *); void *data; long start, end, incr, chunk; };
static void ploop_fn(void *p)
{
	struct ploop *l = p;
	struct ws *w = next_ws();
	if (!w->init) { w->init = 1; w->next = l->start; w->end = l->end; w->incr = l->incr; w->chunk = l->chunk; }
	curws = w;
	l->fn(l->data);
}
static void ploop(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk)
{
	struct ploop l = {fn, data, start, end, incr, chunk};
	run_region(ploop_fn, &l, n);
}
#define LOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return ws_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { (void)up; return ws_start(s, e, i, c, (long *)a, (long *)b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return ws_next((long *)a, (long *)b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void)f; ploop(fn, d, n, s, e, i, c); }
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
LOOPS(static)
#define RLOOPS(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return ws_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { (void)up; return ws_start(s, e, i, 1, (long *)a, (long *)b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return ws_next((long *)a, (long *)b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void)f; ploop(fn, d, n, s, e, i, 1); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier_(); }
void GOMP_loop_end_nowait(void) { }

unsigned GOMP_sections_start(unsigned count) { long a, b; return ws_start(1, (long)count + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier_(); }
void GOMP_sections_end_nowait(void) { }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned f) { (void)f; ploop(fn, d, n, 1, (long)count + 1, 1, 1); }
bool GOMP_single_start(void)
{
	struct ws *w;
	if (!active() || T == 1) return true;
	w = next_ws();
	point(K_LOOP);
	if (w->init) return false;
	w->init = 1;
	return true;
}
void *GOMP_single_copy_start(void)
{
	struct ws *w;
	if (!active() || T == 1) return NULL;
	w = next_ws();
	curws = w;
	point(K_LOOP);
	if (!w->init) { w->init = 1; return NULL; }
	barrier_();
	return w->copy;
}
void GOMP_single_copy_end(void *data) { if (active() && T > 1) { curws->copy = data; barrier_(); } }
void GOMP_ordered_start(void) { lock_(&ordered_next); }
void GOMP_ordered_end(void) { unlock_(&ordered_next); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool c, unsigned f, void **dep, int prio, void *detach)
{
	(void)c; (void)f; (void)dep; (void)prio; (void)detach;
	if (cpy) {
		char *buf = malloc(size + align), *p = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
		cpy(p, data); fn(p); free(buf);
	} else fn(data);
}
void GOMP_taskwait(void) { }
void GOMP_taskgroup_start(void) { }
void GOMP_taskgroup_end(void) { }
void GOMP_taskyield(void) { if (active() && T > 1) point(K_LOOP); }

int omp_get_thread_num(void) { return active() ? me->tid : 0; }
int omp_get_num_threads(void) { return active() ? T : 1; }
int omp_get_max_threads(void) { return icv_threads; }
void omp_set_num_threads(int n) { if (n > 0) icv_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return active() && T > 1; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int d) { (void)d; }
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return in_region ? 1 : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { lock_(l); }
void omp_unset_lock(void *l) { unlock_(l); }
int omp_test_lock(void *l) { lock_(l); return 1; }

/* ---------------------------------------------------------------- heap of the library */

#define ARENA (1ull << 32)
#define RED 32
static char *arena = NULL;
static unsigned char *ash = NULL;   /* one byte for 8: 0 outside of any block, 1..8 bytes allocated, 0x80 released */
static size_t abump = 0;
struct block { char *p; size_t n; int live, tid; void *pc; };
static struct block *blocks = NULL;
static size_t nblocks = 0;
#define MAXBLOCKS (1u << 24)
static long live_blocks = 0, live_bytes = 0, total_blocks = 0;
static size_t mark = 0;

static void arena_init(void)
{
	arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ash = mmap(NULL, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	blocks = mmap(NULL, sizeof(struct block) * MAXBLOCKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED || ash == MAP_FAILED || blocks == MAP_FAILED) { fprintf(stderr, "sched: no memory\n"); _exit(78); }
}

static void access_(void *a, size_t n, int kind, void *pc);
static void *alloc_(size_t n, size_t align, int fill, void *pc)
{
	size_t at, i;
	if (!arena) arena_init();
	if (n > ARENA / 2) return NULL;
	if (align < 16) align = 16;
	at = (abump + RED + align - 1) / align * align;
	abump = at + (n + 7) / 8 * 8 + RED;
	if (abump > ARENA || nblocks >= MAXBLOCKS) { fprintf(stderr, "sched: heap exhausted\n"); _exit(78); }
	*(u64 *)(arena + at - 8) = nblocks;
	blocks[nblocks].p = arena + at; blocks[nblocks].n = n; blocks[nblocks].live = 1; blocks[nblocks].tid = active() ? me->tid : 0; blocks[nblocks].pc = pc;
	nblocks++;
	for (i = 0; i < n / 8; i++) ash[at / 8 + i] = 8;
	if (n % 8) ash[at / 8 + n / 8] = n % 8;
	if (fill) memset(arena + at, 0xff, n);
	live_blocks++; live_bytes += n; total_blocks++;
	return arena + at;
}
void *__wrap_malloc(size_t n) { return alloc_(n, 16, 1, __builtin_return_address(0)); }
void *__wrap_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return NULL;
	return alloc_(n, 16, 0, __builtin_return_address(0));   /* fresh pages: zero */
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return alloc_(n, al, 1, __builtin_return_address(0)); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = alloc_(n, al, 1, __builtin_return_address(0)); return *p ? 0 : ENOMEM; }
static int in_arena(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + ARENA; }
static void free_(void *p, void *pc)
{
	size_t i, at, id;
	if (!p) return;
	if (!in_arena(p)) {
		note("free of memory that the library did not allocate, at %p", pc);
		return;
	}
	at = (char *)p - arena;
	id = *(u64 *)((char *)p - 8);
	if (at < RED || id >= nblocks || blocks[id].p != p) { note("free of an address inside a block, at %p", pc); return; }
	if (!blocks[id].live) { note("memory released twice, at %p", pc); return; }
	access_(p, blocks[id].n, 1, pc);
	blocks[id].live = 0;
	for (i = 0; i < (blocks[id].n + 7) / 8; i++) ash[at / 8 + i] = 0x80;
	memset(p, 0xfe, blocks[id].n);
	live_blocks--; live_bytes -= blocks[id].n;
}
void __wrap_free(void *p) { free_(p, __builtin_return_address(0)); }
void *__wrap_realloc(void *p, size_t n)
{
	void *q = alloc_(n, 16, 1, __builtin_return_address(0));
	if (p && in_arena(p) && q) {
		size_t id = *(u64 *)((char *)p - 8), m = blocks[id].n < n ? blocks[id].n : n;
		memcpy(q, p, m);
		free_(p, __builtin_return_address(0));
	}
	return q;
}

/* ---------------------------------------------------------------- memory accesses */

#define NENT 6
struct ent { u32 epoch; unsigned char tid, kind, mask, used; void *pc; };  /* kind: 0 read 1 write 2 atomic */
struct cell { u64 key; u32 gen; u32 n; struct ent e[NENT]; };
#define CELLS (1u << 18)
static struct cell *cells = NULL;
static u32 gen = 0;
static void *racy[256];
static int nracy = 0;
static struct { void *a, *b; } seen[512];
static int nseen = 0;

static void shadow_clear(void)
{
	if (!cells) {
		cells = mmap(NULL, sizeof(struct cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (cells == MAP_FAILED) { fprintf(stderr, "sched: no memory\n"); _exit(78); }
	}
	gen++;
}

static void race(struct vthread *t, void *addr, int kind, void *pc, struct ent *e)
{
	static const char *names[] = {"reads", "writes", "atomically updates"};
	void *a = pc < e->pc ? pc : e->pc, *b = pc < e->pc ? e->pc : pc;
	int i;
	st_races++;
	for (i = 0; i < nseen; i++) if (seen[i].a == a && seen[i].b == b) return;
	if (nseen < 512) { seen[nseen].a = a; seen[nseen++].b = b; }
	note("race %p %p: thread %d %s %p, thread %d %s it, no synchronisation between", pc, e->pc, t->tid, names[kind], addr, e->tid, names[e->kind]);
}

static void cell_access(u64 g, unsigned mask, int kind, void *pc)
{
	struct vthread *t = me;
	u32 h = (u32)(g + (g >> 18) * 0x9E3779B1u), i, probe;     /* neighbours stay neighbours: few pages are touched */
	struct cell *c;
	struct ent *slot = NULL;
	for (probe = 0; probe < 64; probe++) {
		c = &cells[(h + probe) & (CELLS - 1)];
		if (c->gen != gen) { c->gen = gen; c->key = g; c->n = 0; break; }
		if (c->key == g) break;
	}
	if (probe == 64) { st_lost++; return; }
	for (i = 0; i < c->n; i++) {
		struct ent *e = &c->e[i];
		if (e->tid == t->tid) { if (e->kind == kind && e->mask == mask) slot = e; continue; }
		if (!(e->mask & mask)) continue;
		if (e->kind == 0 && kind == 0) continue;
		if (e->kind == 2 && kind == 2) continue;
		if (e->epoch > t->vc[e->tid]) race(t, (void *)(g << 3), kind, pc, e);
	}
	if (!slot) {
		if (c->n < NENT) slot = &c->e[c->n++];
		else { slot = &c->e[(t->tid + kind) % NENT]; st_lost++; }
	}
	slot->epoch = t->vc[t->tid]; slot->tid = t->tid; slot->kind = kind; slot->mask = mask; slot->pc = pc;
}

static void *bad_pc[64];
static int nbad = 0;
static void access_(void *a, size_t n, int kind, void *pc)
{
	u64 x = (u64)a, end = x + n, g;
	st_access++;
	if (!n) return;
	if (in_arena(a)) {
		int what = 0, i;
		for (g = x >> 3; g <= (end - 1) >> 3; g++) {
			size_t o = (g << 3) - (u64)arena;
			unsigned lim, s = o / 8 < ARENA / 8 ? ash[o / 8] : 0;
			lim = ((g << 3) + 8 <= end) ? 8 : (unsigned)(end - (g << 3));
			if (s == 0x80) what = 2;
			else if (lim > s) { if (!what) what = 1; }
		}
		if (what) {
			for (i = 0; i < nbad; i++) if (bad_pc[i] == pc) break;
			if (i == nbad) {
				if (nbad < 64) bad_pc[nbad++] = pc;
				note("%s %s memory, at %p", kind ? "write to" : "read of", what == 2 ? "released" : "unallocated", pc);
			}
		}
	}
	if (!active() || T == 1) return;
	if (nracy && max_racy) {
		int i;
		for (i = 0; i < nracy; i++) if (racy[i] == pc) {
			if (me->racyhits < (u32)max_racy) { me->racyhits++; point(K_RACY); }
			break;
		}
	}
	for (g = x >> 3; g <= (end - 1) >> 3; g++) {
		unsigned lo = g == x >> 3 ? x & 7 : 0, hi = (g << 3) + 8 <= end ? 8 : (unsigned)(end - (g << 3));
		cell_access(g, (0xffu >> (8 - hi)) & (0xffu << lo) & 0xff, kind, pc);
	}
}

#define PC __builtin_return_address(0)
#define RW(N) \
void __tsan_read##N(void *a) { access_(a, N, 0, PC); } \
void __tsan_write##N(void *a) { access_(a, N, 1, PC); } \
void __tsan_unaligned_read##N(void *a) { access_(a, N, 0, PC); } \
void __tsan_unaligned_write##N(void *a) { access_(a, N, 1, PC); } \
void __tsan_volatile_read##N(void *a) { access_(a, N, 0, PC); } \
void __tsan_volatile_write##N(void *a) { access_(a, N, 1, PC); } \
void __tsan_unaligned_volatile_read##N(void *a) { access_(a, N, 0, PC); } \
void __tsan_unaligned_volatile_write##N(void *a) { access_(a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_(a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { access_(a, n, 1, PC); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }

static void atomic_(void *a, size_t n, void *pc)
{
	access_(a, n, 2, pc);
	if (active() && T > 1) {
		struct lock *l = find_lock(a);
		point(K_ATOMIC);
		vjoin(me->vc, l->vc);
		vjoin(l->vc, me->vc);
		me->vc[me->tid]++;
	}
}
#define AT(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { (void)mo; atomic_((void *)a, N / 8, PC); return *a; } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { (void)mo; atomic_((void *)a, N / 8, PC); *a = v; } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = v; return o; } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = o + v; return o; } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = o - v; return o; } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = o & v; return o; } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = o | v; return o; } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { TY o; (void)mo; atomic_((void *)a, N / 8, PC); o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fm) { (void)mo; (void)fm; atomic_((void *)a, N / 8, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fm) { (void)mo; (void)fm; atomic_((void *)a, N / 8, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fm) { TY o; (void)mo; (void)fm; atomic_((void *)a, N / 8, PC); o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

void *__wrap_memcpy(void *d, const void *s, size_t n) { access_((void *)s, n, 0, PC); access_(d, n, 1, PC); return memmove(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access_((void *)s, n, 0, PC); access_(d, n, 1, PC); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access_(d, n, 1, PC); return memset(d, c, n); }

/* ---------------------------------------------------------------- interface of the explorer */

void vs_config(int fresh, int nthreads, int racy_hits) { mode_fresh = fresh; if (nthreads > 0) icv_threads = nthreads; max_racy = racy_hits; }
void vs_begin(const int *p, int n)
{
	if (n > MAXCH) n = MAXCH;
	if (n) memcpy(prefix, p, sizeof(int) * n);
	nprefix = n; nch = 0; diverged = 0; nrep = 0; repn = 0; rep[0] = 0; nseen = 0; nbad = 0;
	st_access = st_regions = st_sync = st_lost = st_maxT = st_races = 0;
	mark = nblocks;
}
int vs_choices(long *out, int max)
{
	int i;
	for (i = 0; i < nch && i < max; i++) { out[4 * i] = ch[i].enabled; out[4 * i + 1] = ch[i].cur; out[4 * i + 2] = ch[i].chosen; out[4 * i + 3] = ch[i].kind; }
	return nch;
}
int vs_report(char *buf, int n) { snprintf(buf, n, "%s", rep); return nrep; }
void vs_stats(long *o)
{
	o[0] = st_access; o[1] = st_regions; o[2] = st_sync; o[3] = st_lost; o[4] = st_maxT; o[5] = st_races; o[6] = diverged; o[7] = live_blocks; o[8] = live_bytes; o[9] = total_blocks; o[10] = nch; o[11] = icv_threads;
}
/* blocks allocated since vs_begin and not released: how many, and where the first ones were allocated */
int vs_leaks(void **pcs, long *sizes, int *tids, int max)
{
	size_t i;
	int n = 0;
	for (i = mark; i < nblocks; i++) if (blocks[i].live) { if (n < max) { pcs[n] = blocks[i].pc; sizes[n] = blocks[i].n; tids[n] = blocks[i].tid; } n++; }
	return n;
}
void vs_set_racy(void **p, int n) { if (n > 256) n = 256; memcpy(racy, p, sizeof(void *) * n); nracy = n; }
