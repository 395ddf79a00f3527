/* Stateless model checking of the thread hand-off code of lighttpd2.
 *
 * The real code (compiled with memory access instrumentation and glib atomics as calls) runs on coroutines, one per
 * "thread".  Every synchronisation operation (atomics, mutexes, async queues, ev_async_send, thread pool operations)
 * and every access to a memory location that more than one thread touches (and one writes) is a scheduling point.
 * All schedules with at most <bound> preemptions are executed.
 *
 *   conc <scenario> <variant> <bound> <shard> <nshards>
 */
#include <lighttpd/base.h>
#include <lighttpd/throttle.h>
#include <lighttpd/fetch.h>
#include <lighttpd/mempool.h>
#include <lighttpd/tasklet.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <setjmp.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>

/* ---------------------------------------------------------------- coroutines and schedules */

#define MAXT 10
#define STACK (256*1024)
#define MAXDEC 100000

typedef struct { ucontext_t uc; jmp_buf jb; int started, state; /* 0 unused, 1 ready, 2 blocked, 3 done */
	int (*cond)(void*); void *condarg; void (*fn)(void*); void *arg; char *stack; int daemon; } co_t;
static co_t co[MAXT];
static int nco, cur = -1;
static jmp_buf main_jb;
static ucontext_t main_uc;
static int bound = 2, shard, nshards = 1;
static long long execs, trans, stamp;
static int failed, arena_on;
static char failmsg[1024];

typedef struct { unsigned char nopt, opt[MAXT], idx, costs; short pre; } dec_t;
static dec_t *dec; /* decisions of the current execution */
static int ndec, nprefix, preempts;
static int first_dev_counter;
static struct { volatile int n; unsigned char c[4096]; volatile long long execs, trans; volatile int bad; char msg[4096]; } *shm;

static void fail(const char *fmt, ...) {
	va_list ap;
	if (failed) return;
	failed = 1;
	if (getenv("CONC_BT")) { void *b[40]; int n, o = arena_on; arena_on = 0; n = backtrace(b, 40); backtrace_symbols_fd(b, n, 1); arena_on = o; }
	va_start(ap, fmt); vsnprintf(failmsg, sizeof(failmsg), fmt, ap); va_end(ap);
}

static int enabled(int i) {
	co_t *c = &co[i];
	if (c->state == 1) return 1;
	if (c->state == 2 && c->cond(c->condarg)) return 1;
	return 0;
}

static void co_entry(void) {
	co_t *c = &co[cur];
	c->fn(c->arg);
	c->state = 3;
	cur = -1;
	_longjmp(main_jb, 1);
}

/* main loop: pick the next coroutine to run; called with cur == -1, -2 = deadlock/finished */
static void switch_to_main(void) {
	co_t *c = &co[cur];
	if (0 == _setjmp(c->jb)) {
		_longjmp(main_jb, 1);
	}
}

static int nochoice; /* deterministic set up phase */
/* decide who runs next; `self` may continue if it is enabled */
static int decide(int self) {
	int opts[MAXT], n = 0, i, selfok = 0, k;
	if (self >= 0 && enabled(self)) { opts[n++] = self; selfok = 1; }
	for (i = 0; i < nco; i++) if (i != self && enabled(i)) opts[n++] = i;
	if (n == 0) return -1;
	if (n == 1 || nochoice) return opts[0];
	if (selfok && preempts >= bound) return opts[0];
	if (ndec >= MAXDEC) { fail("execution too long (livelock?)"); return -1; }
	dec_t *d = &dec[ndec];
	if (ndec < nprefix) {
		if (d->nopt != n) { fail("harness: replay diverged at decision %d (%d vs %d options)", ndec, d->nopt, n); return -1; }
		for (i = 0; i < n; i++) if (d->opt[i] != opts[i]) { fail("harness: replay diverged at decision %d", ndec); return -1; }
	} else {
		d->nopt = n; d->idx = 0; d->costs = selfok; d->pre = preempts;
		for (i = 0; i < n; i++) d->opt[i] = opts[i];
	}
	k = d->idx;
	if (ndec < (int) sizeof(shm->c)) { shm->c[ndec] = d->opt[k]; shm->n = ndec + 1; }
	ndec++;
	if (selfok && k != 0) preempts++;
	trans++;
	return opts[k];
}

static int next_co = -1;
static long long npoints;
static void point(void) {
	int n;
	if (cur < 0) return;
	if (failed) { switch_to_main(); }
	npoints++; stamp++;
	if (npoints > 200000) { fail("execution does not terminate"); switch_to_main(); }
	n = decide(cur);
	if (n == cur) return;
	next_co = n;
	switch_to_main();
}
/* spinning: give way to another thread (no preemption is counted) */
static void yield_spin(void) {
	int opts = 0, i;
	if (cur < 0) return;
	for (i = 0; i < nco; i++) if (i != cur && enabled(i)) opts++;
	if (!opts) { fail("thread %d spins forever", cur); switch_to_main(); }
	co[cur].state = 4; /* not selectable for this decision */
	switch_to_main();
}
static void block_until(int (*cond)(void*), void *arg) {
	co_t *c;
	if (cur < 0) { if (!cond(arg)) { printf("BAD main thread would block\n"); exit(1); } return; }
	c = &co[cur];
	while (!cond(arg)) {
		if (failed) { switch_to_main(); }
		c->cond = cond; c->condarg = arg; c->state = 2;
		switch_to_main();
		co[cur].state = 1;
	}
}

static int spawn(void (*fn)(void*), void *arg, int daemon) {
	co_t *c;
	int me = nco++;
	if (me >= MAXT) { printf("BAD harness: too many threads\n"); exit(1); }
	c = &co[me];
	if (!c->stack) c->stack = mmap(NULL, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
	getcontext(&c->uc);
	c->uc.uc_stack.ss_sp = c->stack; c->uc.uc_stack.ss_size = STACK; c->uc.uc_link = NULL;
	makecontext(&c->uc, co_entry, 0);
	c->fn = fn; c->arg = arg; c->started = 0; c->state = 1; c->daemon = daemon;
	return me;
}

static void run_all(void) {
	volatile int last = -1;
	for (;;) {
		int n, i;
		if (failed) return;
		/* `last` asked for a switch: if it is still ready the decision was already taken in point() */
		if (last >= 0 && next_co >= 0) { n = next_co; next_co = -1; }
		else {
			n = decide(-1);
		}
		for (i = 0; i < nco; i++) if (co[i].state == 4) co[i].state = 1;
		if (failed) return;
		if (n < 0) {
			for (i = 0; i < nco; i++) if (co[i].state != 3 && !co[i].daemon) { fail("deadlock: thread %d waits forever", i); return; }
			return;
		}
		last = n;
		cur = n;
		if (co[n].state == 2) co[n].state = 1;
		if (0 == _setjmp(main_jb)) {
			if (!co[n].started) { co[n].started = 1; setcontext(&co[n].uc); }
			else _longjmp(co[n].jb, 1);
		}
		cur = -1;
	}
}

/* ---------------------------------------------------------------- memory */

#define ARENA (1<<20)
static char *arena; static guint8 *shadow; static size_t used[MAXT+1];
static long live;
static int tracking = 1;
#define NARENA (MAXT+1)
static void arena_init(void) {
	arena = mmap(NULL, (size_t) ARENA * NARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON|MAP_NORESERVE, -1, 0);
	shadow = calloc((size_t) ARENA * NARENA / 16, 1);
}
static void arena_reset(void) {
	int i;
	for (i = 0; i < NARENA; i++) {
		memset(shadow + (size_t) i * ARENA / 16, 0, used[i] / 16 + 1);
		used[i] = 0;
	}
	live = 0;
}
static inline int in_arena(const void *p) { return arena && (const char*) p >= arena && (const char*) p < arena + (size_t) ARENA * NARENA; }
static void *a_alloc(size_t n) {
	int t = cur < 0 ? MAXT : cur;
	size_t sz = 16 + ((n + 15) & ~(size_t)15) + 16;
	char *p = arena + (size_t) t * ARENA + used[t];
	if (used[t] + sz > ARENA) { printf("BAD harness: arena exhausted\n"); exit(1); }
	used[t] += sz;
	*(size_t*) p = n;
	memset(p + 16, 0xa5, n);
	memset(shadow + (p - arena) / 16 + 1, 1, (n + 15) / 16);
	live++;
	return p + 16;
}
static void a_free(void *v) {
	char *p = v; size_t n;
	if (!p) return;
	if (shadow[(p - arena) / 16] == 2) { fail("double free"); return; }
	n = *(size_t*) (p - 16);
	memset(p, 0xdd, n);
	memset(shadow + (p - arena) / 16, 2, (n + 15) / 16);
	live--;
}
#define REAL(ret, name, args) static ret (*real)args; if (!real) real = (ret (*)args) dlsym(RTLD_NEXT, #name)
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t), *__libc_memalign(size_t, size_t); extern void __libc_free(void*);
void *malloc(size_t n) { return arena_on ? a_alloc(n) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { void *p; if (!arena_on) return __libc_calloc(a, b); p = a_alloc(a * b); memset(p, 0, a * b); return p; }
void free(void *p) { if (!p) return;  if (in_arena(p)) a_free(p); else __libc_free(p); }
void *realloc(void *p, size_t n) {
	void *q; size_t o;
	if (p && !in_arena(p)) return __libc_realloc(p, n);
	if (!p) return malloc(n);
	if (n == 0) { a_free(p); return NULL; }
	q = a_alloc(n); o = *(size_t*)((char*)p - 16); memcpy(q, p, o < n ? o : n); a_free(p);
	return q;
}

/* locations used by more than one thread: address (8 byte granule) -> readers/writers */
#define HS (1<<16)
/* a location needs no scheduling point if every access holds the same mutex */
static struct { guintptr a; void *lock; guint16 r, w, pt, seen; } loc[HS];
static int holds(void *m); static void *held(void);
static int newshared;
static int mempoints = 1;
static void mem_access(guintptr a, int w) {
	unsigned h; guint16 all;
	char *sp = (char*) a;
	int was, is;
	if (cur < 0 || failed) return;
	if (sp >= co[cur].stack && sp < co[cur].stack + STACK) return;
	if (in_arena(sp)) {
		int s = shadow[(sp - arena) / 16];
		if (s != 1) { fail("thread %d %s freed memory", cur, w ? "writes to" : "reads"); switch_to_main(); }
	}
	a >>= 3;
	h = (unsigned) ((a * 2654435761u) >> 8) & (HS - 1);
	while (loc[h].a && loc[h].a != a) h = (h + 1) & (HS - 1);
	if (!loc[h].a) loc[h].a = a;
	all = loc[h].r | loc[h].w;
	was = (all & (all - 1)) && loc[h].w && !loc[h].lock;
	if (!loc[h].seen) { loc[h].seen = 1; loc[h].lock = held(); }
	else if (loc[h].lock && !holds(loc[h].lock)) loc[h].lock = NULL;
	if (w) loc[h].w |= 1 << cur; else loc[h].r |= 1 << cur;
	all = loc[h].r | loc[h].w;
	is = (all & (all - 1)) && loc[h].w && !loc[h].lock;
	if (is && !was) newshared++;
	if (loc[h].pt && mempoints) point();
}
#define A(n) void __tsan_read##n(void *a) { mem_access((guintptr) a, 0); } void __tsan_write##n(void *a) { mem_access((guintptr) a, 1); } \
	void __tsan_unaligned_read##n(void *a) { mem_access((guintptr) a, 0); } void __tsan_unaligned_write##n(void *a) { mem_access((guintptr) a, 1); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, size_t n) { mem_access((guintptr) a, 0); }
void __tsan_write_range(void *a, size_t n) { mem_access((guintptr) a, 1); }
void __tsan_vptr_update(void *a, void *b) { } void __tsan_vptr_read(void *a) { }
void __tsan_func_entry(void *p) { } void __tsan_func_exit(void *p) { } void __tsan_init(void) { }

/* ---------------------------------------------------------------- synchronisation */

static void sync_access(const volatile void *a, int w) { /* like mem_access, but always a scheduling point */
	if (cur < 0 || failed) return;
	if (in_arena((void*) a) && shadow[((char*) a - arena) / 16] != 1) { fail("thread %d uses freed memory (atomic)", cur); switch_to_main(); }
	point();
	/* it may have been freed while we waited */
	if (in_arena((void*) a) && shadow[((char*) a - arena) / 16] != 1) { fail("thread %d uses freed memory (atomic)", cur); switch_to_main(); }
}
#undef g_atomic_int_get
#undef g_atomic_int_set
#undef g_atomic_int_inc
#undef g_atomic_int_dec_and_test
#undef g_atomic_int_add
#undef g_atomic_int_compare_and_exchange
#undef g_atomic_int_and
#undef g_atomic_int_or
#undef g_atomic_int_xor
#undef g_atomic_int_exchange
#undef g_atomic_pointer_get
#undef g_atomic_pointer_set
#undef g_atomic_pointer_compare_and_exchange
gint g_atomic_int_get(const volatile gint *a) { sync_access(a, 0); return *a; }
void g_atomic_int_set(volatile gint *a, gint v) { sync_access(a, 1); *a = v; }
void g_atomic_int_inc(volatile gint *a) { sync_access(a, 1); ++*a; }
gboolean g_atomic_int_dec_and_test(volatile gint *a) { sync_access(a, 1); return 0 == --*a; }
gint g_atomic_int_add(volatile gint *a, gint v) { gint o; sync_access(a, 1); o = *a; *a += v; return o; }
gint g_atomic_int_exchange(gint *a, gint v) { gint o; sync_access(a, 1); o = *a; *a = v; return o; }
guint g_atomic_int_and(volatile guint *a, guint v) { guint o; sync_access(a, 1); o = *a; *a &= v; return o; }
guint g_atomic_int_or(volatile guint *a, guint v) { guint o; sync_access(a, 1); o = *a; *a |= v; return o; }
guint g_atomic_int_xor(volatile guint *a, guint v) { guint o; sync_access(a, 1); o = *a; *a ^= v; return o; }
gboolean g_atomic_int_compare_and_exchange(volatile gint *a, gint o, gint n) {
	sync_access(a, 1);
	if (*a == o) { *a = n; return TRUE; }
	yield_spin();
	return FALSE;
}
gpointer g_atomic_pointer_get(const volatile void *a) { sync_access(a, 0); return *(gpointer*) a; }
void g_atomic_pointer_set(volatile void *a, gpointer v) { sync_access(a, 1); *(gpointer*) a = v; }
gboolean g_atomic_pointer_compare_and_exchange(volatile void *a, gpointer o, gpointer n) {
	sync_access(a, 1);
	if (*(gpointer*) a == o) { *(gpointer*) a = n; return TRUE; }
	return FALSE;
}

#define MAXM 64
static struct { void *m; int owner; } mtx[MAXM]; static int nmtx;
static int *mtx_owner(void *m) {
	int i;
	for (i = 0; i < nmtx; i++) if (mtx[i].m == m) return &mtx[i].owner;
	if (nmtx == MAXM) { printf("BAD harness: too many mutexes\n"); exit(1); }
	mtx[nmtx].m = m; mtx[nmtx].owner = -1;
	return &mtx[nmtx++].owner;
}
static int holds(void *m) { int i; for (i = 0; i < nmtx; i++) if (mtx[i].m == m) return mtx[i].owner == cur; return 0; }
static void *held(void) { int i; for (i = 0; i < nmtx; i++) if (mtx[i].owner == cur) return mtx[i].m; return NULL; }
static int mtx_free_p(void *o) { return *(int*) o == -1; }
#undef g_mutex_new
#undef g_mutex_free
GMutex *g_mutex_new(void) { return calloc(1, sizeof(GMutex)); }
void g_mutex_free(GMutex *m) { int *o = mtx_owner(m); if (cur >= 0 && *o != -1) fail("mutex freed while locked"); free(m); }
void g_mutex_init(GMutex *m) { } void g_mutex_clear(GMutex *m) { }
void g_mutex_lock(GMutex *m) {
	int *o;
	if (cur < 0) return;
	sync_access(m, 1); o = mtx_owner(m);
	if (*o == cur) { fail("thread %d locks a mutex twice", cur); switch_to_main(); }
	block_until(mtx_free_p, o);
	*o = cur;
}
gboolean g_mutex_trylock(GMutex *m) { int *o; if (cur < 0) return TRUE; sync_access(m, 1); o = mtx_owner(m); if (*o != -1) return FALSE; *o = cur; return TRUE; }
void g_mutex_unlock(GMutex *m) { int *o; if (cur < 0) return; if (in_arena(m) && shadow[((char*) m - arena) / 16] != 1) { fail("thread %d uses freed memory (mutex)", cur); switch_to_main(); } /* no scheduling point needed: it commutes to the next one */ o = mtx_owner(m); if (*o != cur) fail("mutex unlocked by thread %d which does not hold it", cur); *o = -1; }
void g_rec_mutex_lock(GRecMutex *m) { if (cur < 0) return; point(); }
void g_rec_mutex_unlock(GRecMutex *m) { if (cur < 0) return; point(); }
/* deprecated static mutexes resolve to their address */
GMutex *g_static_mutex_get_mutex_impl(GStaticMutex *m) { return (GMutex*) m; }

#define MAXQ 32
typedef struct { int magic; int refs; GQueue q; } myq;
GAsyncQueue *g_async_queue_new(void) { myq *q = __libc_calloc(1, sizeof(myq)); q->magic = 4711; q->refs = 1; return (GAsyncQueue*) q; }
static myq *qq(GAsyncQueue *q) { sync_access(q, 1); if (!q || ((myq*) q)->magic != 4711) { fail("use of a freed queue"); if (cur >= 0) switch_to_main(); else { printf("BAD use of a freed queue\n"); exit(1);} } return (myq*) q; }
GAsyncQueue *g_async_queue_ref(GAsyncQueue *q) { qq(q)->refs++; return q; }
void g_async_queue_unref(GAsyncQueue *q) { myq *m = qq(q); if (0 == --m->refs) { if (m->q.length) fail("queue destroyed with %d elements", m->q.length); m->magic = 0; /* never reused */ } }
void g_async_queue_push(GAsyncQueue *q, gpointer d) { myq *m = qq(q); if (d == NULL) fail("NULL pushed"); g_queue_push_tail(&m->q, d); }
void g_async_queue_push_front(GAsyncQueue *q, gpointer d) { myq *m = qq(q); g_queue_push_head(&m->q, d); }
gpointer g_async_queue_try_pop(GAsyncQueue *q) { return g_queue_pop_head(&qq(q)->q); }
gint g_async_queue_length(GAsyncQueue *q) { return (gint) qq(q)->q.length; }
static int q_nonempty(void *v) { return ((myq*) v)->q.length > 0; }
gpointer g_async_queue_pop(GAsyncQueue *q) { myq *m = qq(q); block_until(q_nonempty, m); return g_queue_pop_head(&m->q); }
void g_async_queue_lock(GAsyncQueue *q) { } void g_async_queue_unlock(GAsyncQueue *q) { }

/* per thread data */
static struct { GPrivate *k; gpointer v[MAXT+1]; } priv[8]; static int npriv;
static gpointer *priv_slot(GPrivate *k) { int i, t = cur < 0 ? MAXT : cur; for (i = 0; i < npriv; i++) if (priv[i].k == k) return &priv[i].v[t]; priv[npriv].k = k; return &priv[npriv++].v[t]; }
gpointer g_private_get(GPrivate *k) { return *priv_slot(k); }
void g_private_set(GPrivate *k, gpointer v) { *priv_slot(k) = v; }
void g_private_replace(GPrivate *k, gpointer v) { *priv_slot(k) = v; }

/* thread pools */
typedef struct { GFunc func; gpointer ud; int max, exclusive, running, nthreads, freed; GQueue q; } mypool;
static int pool_work(void *v) { mypool *p = v; return (p->q.length > 0 && p->running < (p->max < 0 ? 99 : p->max)) || (p->freed && 0 == p->q.length); }
static void pool_thread(void *v) {
	mypool *p = v; gpointer d;
	for (;;) {
		block_until(pool_work, p);
		if (0 == p->q.length) { p->nthreads--; return; }
		d = g_queue_pop_head(&p->q);
		p->running++;
		point();
		p->func(d, p->ud);
		point();
		p->running--;
	}
}
static int pool_threads_for(int max) { return max < 0 ? 2 : (max > 2 ? 2 : max); }
GThreadPool *g_thread_pool_new(GFunc func, gpointer ud, gint max, gboolean excl, GError **err) {
	mypool *p = __libc_calloc(1, sizeof(*p)); int i;
	p->func = func; p->ud = ud; p->max = max; p->exclusive = excl;
	for (i = 0; i < pool_threads_for(max); i++) { p->nthreads++; spawn(pool_thread, p, 0); }
	return (GThreadPool*) p;
}
gboolean g_thread_pool_push(GThreadPool *tp, gpointer d, GError **err) { mypool *p = (mypool*) tp; point(); if (p->freed) fail("push into a freed thread pool"); g_queue_push_tail(&p->q, d); return TRUE; }
static int pool_done(void *v) { mypool *p = v; return 0 == p->q.length && 0 == p->running && 0 == p->nthreads; }
void g_thread_pool_free(GThreadPool *tp, gboolean immediate, gboolean wait) {
	mypool *p = (mypool*) tp; point();
	if (immediate) g_queue_clear(&p->q);
	p->freed = 1;
	if (wait) block_until(pool_done, p);
}
gboolean g_thread_pool_set_max_threads(GThreadPool *tp, gint max, GError **err) {
	mypool *p = (mypool*) tp; point(); p->max = max;
	while (p->nthreads < pool_threads_for(max)) { p->nthreads++; spawn(pool_thread, p, 0); }
	return TRUE;
}
guint g_thread_pool_get_num_threads(GThreadPool *tp) { mypool *p = (mypool*) tp; return p->max < 0 ? p->nthreads : p->max; }

/* a small event loop with libev's interface */
#define MAXW 32
struct ev_loop { int magic, wake, stop; void *async[MAXW], *prep[MAXW], *timer[MAXW]; int refs; int owner; };
static double vnow = 1000.0;
#define LADD(arr, w) do { int i_; for (i_ = 0; i_ < MAXW && (arr)[i_]; i_++) ; (arr)[i_] = (w); } while (0)
#define LDEL(arr, w) do { int i_; for (i_ = 0; i_ < MAXW; i_++) if ((arr)[i_] == (void*) (w)) (arr)[i_] = NULL; } while (0)
void ev_ref(struct ev_loop *l) { l->refs++; } void ev_unref(struct ev_loop *l) { l->refs--; }
ev_tstamp ev_now(struct ev_loop *l) { return vnow; } ev_tstamp ev_time(void) { return vnow; }
static void own(struct ev_loop *l) { if (cur >= 0 && l->owner >= 0 && l->owner != cur) fail("event loop of thread %d modified by thread %d", l->owner, cur); }
void ev_async_start(struct ev_loop *l, ev_async *w) { own(l); if (w->active) return; w->active = 1; w->sent = 0; LADD(l->async, w); }
void ev_async_stop(struct ev_loop *l, ev_async *w) { own(l); w->active = 0; LDEL(l->async, w); }
void ev_async_send(struct ev_loop *l, ev_async *w) { point(); if (l->magic != 815) { fail("wakeup sent to a destroyed loop"); return; } mem_access((guintptr) w, 0); w->sent = 1; l->wake = 1; }
void ev_prepare_start(struct ev_loop *l, ev_prepare *w) { own(l); if (w->active) return; w->active = 1; LADD(l->prep, w); }
void ev_prepare_stop(struct ev_loop *l, ev_prepare *w) { own(l); w->active = 0; LDEL(l->prep, w); }
void ev_check_start(struct ev_loop *l, ev_check *w) { w->active = 1; } void ev_check_stop(struct ev_loop *l, ev_check *w) { w->active = 0; }
void ev_timer_start(struct ev_loop *l, ev_timer *w) { own(l); if (w->active) return; w->active = 1; ((ev_watcher_time*) w)->at += vnow; LADD(l->timer, w); }
void ev_timer_stop(struct ev_loop *l, ev_timer *w) { own(l); if (!w->active) return; w->active = 0; LDEL(l->timer, w); }
void ev_timer_again(struct ev_loop *l, ev_timer *w) {
	own(l);
	if (w->active) { if (w->repeat > 0) ((ev_watcher_time*) w)->at = vnow + w->repeat; else ev_timer_stop(l, w); }
	else if (w->repeat > 0) { ((ev_watcher_time*) w)->at = w->repeat; ev_timer_start(l, w); }
}
static struct ev_loop loops[3];
static struct ev_loop *loop_new(int i) { memset(&loops[i], 0, sizeof(loops[i])); loops[i].magic = 815; loops[i].owner = -1; return &loops[i]; }
static int due(struct ev_loop *l) { int i; for (i = 0; i < MAXW; i++) if (l->timer[i] && ((ev_watcher_time*) l->timer[i])->at <= vnow + 0.0001) return 1; return 0; }
static int loop_ready(void *v) { struct ev_loop *l = v; return l->wake || l->stop || due(l); }
static void loop_prepare(struct ev_loop *l) { int i; for (i = 0; i < MAXW; i++) if (l->prep[i]) { ev_prepare *w = l->prep[i]; w->cb(l, w, EV_PREPARE); } }
static void loop_pending(struct ev_loop *l) {
	int i; void *fire[MAXW]; int n = 0;
	point();
	l->wake = 0;
	for (i = 0; i < MAXW; i++) if (l->timer[i] && ((ev_watcher_time*) l->timer[i])->at <= vnow + 0.0001) {
		ev_timer *w = l->timer[i];
		if (w->repeat > 0) ((ev_watcher_time*) w)->at = vnow + w->repeat; else ev_timer_stop(l, w);
		w->cb(l, w, EV_TIMER);
	}
	for (i = 0; i < MAXW; i++) if (l->async[i] && ((ev_async*) l->async[i])->sent) fire[n++] = l->async[i];
	for (i = 0; i < n; i++) { ev_async *w = fire[i]; if (w->active) w->sent = 0; }
	for (i = 0; i < n; i++) { ev_async *w = fire[i]; if (w->active) w->cb(l, w, EV_ASYNC); }
}
/* one iteration, blocking: FALSE once the loop was stopped */
static int loop_once(struct ev_loop *l) {
	loop_prepare(l);
	block_until(loop_ready, l);
	loop_pending(l);
	return !l->stop;
}
static void loop_poll(struct ev_loop *l) { loop_prepare(l); point(); loop_pending(l); loop_prepare(l); }

#define BADX(...) do { fail(__VA_ARGS__); if (cur >= 0) switch_to_main(); } while (0)

/* wait without scheduling cost for a harness flag */
static int flag_set(void *v) { return *(int*) v; }
static void wait_flag(int *f) { block_until(flag_set, f); }
static int zero_p(void *v) { return *(int*) v == 0; }

/* ---------------------------------------------------------------- scenarios */

static int variant;
typedef void (*setup_fn)(void);
static liEventLoop L0, L1, L2;

/* --- jobs --- */
static liJob job; static liJobRef *ref1, *ref2;
static int ncb, cb_allowed, helpers, in_cb, owner_ndx;
static long long last_cb, last_async_begin[4], detach_at;
static int cb_action;
static int gone;
static int job_gone(void *v) { return helpers == 0 || loop_ready(L0.loop); }
static int helpers_gone(void *v) { return helpers == 0; }
static void job_cb(liJob *j) {
	if (cur != owner_ndx) BADX("job callback runs in thread %d, not in its own thread %d", cur, owner_ndx);
	if (!cb_allowed) BADX("job callback runs after the job was cleared or its references were detached");
	if (in_cb) BADX("job callback entered recursively");
	in_cb = 1;
	ncb++; last_cb = ++stamp;
	if (ncb > 50) BADX("job callback runs again and again");
	point();
	if (cb_action && ncb == 1) {
		long long b = ++stamp;
		if (cb_action == 1) li_job_now(&L0.jobqueue, &job);
		if (cb_action == 2) li_job_later(&L0.jobqueue, &job);
		if (cb_action == 3) li_job_async(job.ref ? job.ref : ref1);
		last_async_begin[3] = b;
	}
	in_cb = 0;
}
static void job_helper(void *v) {
	int id = (int)(intptr_t) v; liJobRef *r = id == 1 ? ref1 : ref2; int i, n = (variant & 1) ? 2 : 1;
	for (i = 0; i < n; i++) { last_async_begin[id] = ++stamp; li_job_async(r); }
	li_job_ref_release(r);
	helpers--;
}
static void job_owner(void *v) {
	int mode = variant >> 1;
	liJobRef *r3;
	switch (mode) {
	case 0: loop_poll(L0.loop); break; /* just run */
	case 1: li_job_stop(&job); detach_at = ++stamp; cb_allowed = 0; loop_poll(L0.loop); block_until(helpers_gone, NULL); loop_poll(L0.loop); goto finish; /* helpers may only use old references */
	case 2: li_job_now(&L0.jobqueue, &job); loop_poll(L0.loop); break;
	case 3: li_job_later(&L0.jobqueue, &job); loop_poll(L0.loop); break;
	case 4: li_job_clear(&job); cb_allowed = 0; loop_poll(L0.loop); block_until(helpers_gone, NULL); loop_poll(L0.loop); goto finish;
	case 5: /* stop, then a new reference: the old ones stay detached */
		loop_poll(L0.loop);
		li_job_stop(&job);
		cb_allowed = 1;
		r3 = li_job_ref(&L0.jobqueue, &job);
		last_async_begin[0] = ++stamp; li_job_async(r3); li_job_ref_release(r3);
		break;
	case 6: cb_action = 1; loop_poll(L0.loop); break;
	case 7: cb_action = 2; loop_poll(L0.loop); break;
	case 8: cb_action = 3; loop_poll(L0.loop); break;
	case 9: li_job_later(&L0.jobqueue, &job); li_job_reset(&job); loop_poll(L0.loop); detach_at = stamp; break;
	}
	while (helpers > 0) {
		loop_prepare(L0.loop);
		block_until(job_gone, NULL); /* woken up, or everybody is gone */
		if (loop_ready(L0.loop)) loop_pending(L0.loop);
	}
	loop_prepare(L0.loop);
	while (loop_ready(L0.loop)) { loop_pending(L0.loop); loop_prepare(L0.loop); }
	if (mode != 9) {
		int i;
		for (i = 0; i < 4; i++) if (last_async_begin[i] > last_cb) {
			/* requests via references that were detached by li_job_stop may be dropped, but not the one of the new reference */
			if (mode == 5 && (i == 1 || i == 2)) continue;
			BADX("wakeup lost: the job was requested (by %d) after its last run and nothing is pending (%d runs)", i, ncb);
		}
		if (mode == 2 || mode == 3) if (ncb == 0) BADX("job never ran");
	}
finish:
	cb_allowed = 1;
	if (mode != 4) li_job_clear(&job);
	cb_allowed = 0;
	li_event_loop_clear(&L0);
	if (live != 0) BADX("%ld allocations leaked", live);
}

/* --- tasklets --- */
#define NTL 3
static liTaskletPool *pool; static int t_run[8], t_fin[8], t_n, t_done, t_mode, t_threads, t_pushed;
static void t_finished(gpointer d);
static void t_runcb(gpointer d) {
	int i = (int)(intptr_t) d;
	if (t_threads != 0 && cur == owner_ndx) BADX("tasklet runs in the event loop thread although the pool has threads");
	if (t_run[i]) BADX("tasklet %d runs twice", i);
	point();
	t_run[i] = 1;
	point();
	t_run[i] = 2;
}
static void t_push(int i) { t_pushed++; li_tasklet_push(pool, t_runcb, t_finished, (gpointer)(intptr_t) i); }
static void t_finished(gpointer d) {
	int i = (int)(intptr_t) d;
	if (cur != owner_ndx) BADX("tasklet finish callback runs in thread %d, not in the owner", cur);
	if (t_run[i] != 2) BADX("tasklet %d reported as finished before it ran to its end", i);
	if (t_fin[i]) BADX("tasklet %d reported as finished twice", i);
	t_fin[i] = 1; t_done++;
	point();
	if (t_mode == 1 && i == 1) t_push(4); /* push from a finish callback */
	if (t_mode == 2 && i == 1) { liTaskletPool *p = pool; pool = NULL; li_tasklet_pool_free(p); } /* free from a finish callback */
	if (t_mode == 6 && i == 1) li_tasklet_pool_set_threads(pool, 0);
}
static void t_owner(void *v) {
	int i;
	static const int thr[] = { 0, 1, 2, -1 };
	t_threads = thr[variant & 3]; t_mode = variant >> 2;
	pool = li_tasklet_pool_new(&L0, t_threads);
	for (i = 1; i <= ((variant & 3) == 2 ? 2 : NTL); i++) t_push(i);
	if (t_mode == 3) { liTaskletPool *p = pool; pool = NULL; li_tasklet_pool_free(p); if (t_done != t_pushed) BADX("pool freed, but only %d of %d tasklets were reported", t_done, t_pushed); }
	if (t_mode == 4) { int o = t_threads; t_threads = o == 1 ? 2 : 1; li_tasklet_pool_set_threads(pool, t_threads); t_push(5); }
	if (t_mode == 5) { li_tasklet_pool_set_threads(pool, 0); t_threads = 0; t_push(5); if (t_run[5] != 2) BADX("tasklet not run without threads"); }
	while (t_done < t_pushed) {
		loop_prepare(L0.loop);
		if (t_done == t_pushed) break;
		block_until(loop_ready, L0.loop); /* a missing wakeup ends in a deadlock */
		loop_pending(L0.loop);
	}
	loop_poll(L0.loop);
	if (pool) { li_tasklet_pool_free(pool); pool = NULL; }
	for (i = 1; i <= 5; i++) if (t_run[i] == 2 && !t_fin[i]) BADX("tasklet %d never reported", i);
	li_event_loop_clear(&L0);
	if (live != 0) BADX("%ld allocations leaked", live);
}

/* --- collect --- */
static liServer *srv; static liWorker *wk[3]; static int nw;
static int c_func[2][3], c_cb[2], c_broken[2], c_total, c_ended;
static liCollectInfo *c_info[2]; static int c_start_ndx[2], c_in_start[2];
static gpointer c_fn(liWorker *w, gpointer fdata) {
	int k = (int)(intptr_t) fdata - 1;
	if (!g_atomic_int_get(&srv->exiting) && cur != (int) w->ndx) BADX("collect function for worker %u runs in thread %d", w->ndx, cur);
	if (c_func[k][w->ndx]) BADX("collect function called twice for worker %u", w->ndx);
	point();
	c_func[k][w->ndx] = 1;
	return (gpointer)(intptr_t)(100 * (k + 1) + w->ndx + 1);
}
static void c_cbf(gpointer cbdata, gpointer fdata, GPtrArray *res, gboolean complete) {
	int k = (int)(intptr_t) fdata - 1, i;
	if (cbdata != &c_cb[k]) BADX("collect callback got wrong data");
	if (c_cb[k]) BADX("collect callback called twice");
	for (i = 0; i < nw; i++) {
		if (!c_func[k][i]) BADX("collect callback called before worker %d answered", i);
		if (g_ptr_array_index(res, i) != (gpointer)(intptr_t)(100 * (k + 1) + i + 1)) BADX("collect result of worker %d is wrong", i);
	}
	if ((int) res->len != nw) BADX("collect results: %u entries", res->len);
	if (!srv->exiting) {
		if (cur != c_start_ndx[k]) BADX("collect callback runs in thread %d, started in %d", cur, c_start_ndx[k]);
		if (complete != !c_broken[k]) BADX("collect callback: complete=%d, broken=%d", complete, c_broken[k]);
	}
	point();
	c_cb[k] = 1; c_total--;
}
static int c_done_p(void *v) { return 0 == c_total || loop_ready(v); }
static void c_worker(void *v) {
	liWorker *w = v;
	int k;
	for (k = 0; k < 2; k++) {
		if (c_start_ndx[k] == (int) w->ndx && !(variant & 4 && k == 0)) {
			liCollectInfo *ci = li_collect_start(w, c_fn, (gpointer)(intptr_t)(k + 1), c_cbf, &c_cb[k]);
			if ((variant & 8) && k == 0 && ci && !c_cb[k]) { c_broken[k] = 1; li_collect_break(ci); }
			if (nw == 1 && (ci != NULL || !c_cb[k])) BADX("single worker: callback not called directly");
		}
	}
	while (c_total > 0) {
		loop_prepare(w->loop.loop);
		block_until(c_done_p, w->loop.loop);
		loop_pending(w->loop.loop);
	}
	c_ended++;
}
static int c_all_ended(void *v) { return c_ended == nw; }
static void c_global(void *v) { /* outside of any worker */
	li_collect_start_global(srv, c_fn, (gpointer)(intptr_t) 1, c_cbf, &c_cb[0]);
	c_ended++;
}
/* shutdown: workers leave their loop at any time; the queues are drained one after another afterwards */
static void x_worker(void *v) {
	liWorker *w = v; int k;
	for (k = 0; k < 2; k++) if (c_start_ndx[k] == (int) w->ndx) li_collect_start(w, c_fn, (gpointer)(intptr_t)(k + 1), c_cbf, &c_cb[k]);
	while (!w->loop.loop->stop) { loop_prepare(w->loop.loop); block_until(loop_ready, w->loop.loop); loop_pending(w->loop.loop); }
	c_ended++;
}
static void x_main(void *v) {
	int i;
	point();
	for (i = 0; i < nw; i++) { point(); wk[i]->loop.loop->stop = 1; }
	block_until(c_all_ended, NULL);
	g_atomic_int_set(&srv->exiting, TRUE);
	for (i = 0; i < nw; i++) { wk[i]->loop.loop->owner = -1; li_collect_watcher_cb(&wk[i]->collect_watcher.base, 0); }
	/* answers may have been queued for a worker that was drained before */
}
static void mk_workers(int n) {
	int i; liEventLoop *l[3];
	nw = n;
	srv = g_slice_alloc0(sizeof(liServer));
	srv->worker_count = n; srv->state = LI_SERVER_RUNNING;
	srv->workers = g_array_new(FALSE, TRUE, sizeof(liWorker*));
	for (i = 0; i < n; i++) {
		wk[i] = g_slice_alloc0(sizeof(liWorker));
		wk[i]->srv = srv; wk[i]->ndx = i; wk[i]->tmp_str = g_string_sized_new(255);
		li_event_loop_init(&wk[i]->loop, loop_new(i)); loops[i].owner = i;
		li_event_async_init(&wk[i]->loop, "worker collect", &wk[i]->collect_watcher, li_collect_watcher_cb);
		wk[i]->collect_queue = g_async_queue_new();
		li_waitqueue_init(&wk[i]->throttle_queue, &wk[i]->loop, "throttle", li_throttle_waitqueue_cb, 0.2, wk[i]);
		g_array_append_val(srv->workers, wk[i]);
	}
	srv->main_worker = wk[0];
}
static void rm_workers(void) {
	int i;
	for (i = 0; i < nw; i++) {
		loops[i].owner = -1;
		li_event_clear(&wk[i]->collect_watcher);
		g_async_queue_unref(wk[i]->collect_queue);
		li_waitqueue_stop(&wk[i]->throttle_queue);
		li_event_loop_clear(&wk[i]->loop);
		g_string_free(wk[i]->tmp_str, TRUE);
		g_slice_free1(sizeof(liWorker), wk[i]);
	}
	g_array_free(srv->workers, TRUE);
	g_slice_free1(sizeof(liServer), srv);
}

/* --- memory pools --- */
typedef struct { liMempoolPtr p; gsize size; guint8 pat; } blk;
static blk blks[64]; static int nblk; static long maps; static int m_ended; static size_t msize;
static blk *box[4]; static int nbox;
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { REAL(void*, mmap, (void*, size_t, int, int, int, off_t)); if (cur >= 0) maps++; return real(a, n, prot, fl, fd, off); }
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap(a, n, prot, fl, fd, off); }
int munmap(void *a, size_t n) { REAL(int, munmap, (void*, size_t)); if (cur >= 0) maps--; return real(a, n); }
static blk *m_alloc(int pat) {
	blk *b = &blks[nblk++]; int i; char *d;
	b->size = msize; b->pat = pat;
	b->p = li_mempool_alloc(b->size);
	d = b->p.data;
	if (!d) BADX("li_mempool_alloc returned NULL");
	for (i = 0; i < nblk; i++) if (&blks[i] != b && blks[i].p.data && (char*) blks[i].p.data < d + b->size && d < (char*) blks[i].p.data + blks[i].size) BADX("memory handed out twice");
	d[0] = pat; d[b->size - 1] = pat;
	point();
	return b;
}
static void m_free(blk *b) {
	liMempoolPtr p = b->p; char *d = p.data;
	if (d[0] != (char) b->pat || d[b->size - 1] != (char) b->pat) BADX("allocated memory was overwritten");
	b->p.data = NULL;
	li_mempool_free(p, b->size);
}
static int box_full(void *v) { return nbox > 0; }
static void m_thread(void *v) {
	int id = (int)(intptr_t) v, i; blk *b[12];
	switch (variant >> 1) {
	case 0: /* alloc two, hand one to the other thread, free one */
		b[0] = m_alloc(id * 16 + 1); b[1] = m_alloc(id * 16 + 2);
		box[nbox++] = b[0];
		m_free(b[1]);
		block_until(box_full, NULL);
		b[0] = box[--nbox];
		m_free(b[0]);
		break;
	case 1: /* producer fills a whole magazine, the other frees concurrently */
		if (id == 0) { for (i = 0; i < 8; i++) b[i] = m_alloc(16 + i); box[nbox++] = b[0]; box[nbox++] = b[7]; b[9] = m_alloc(33); for (i = 1; i < 7; i++) m_free(b[i]); m_free(b[9]); }
		else { block_until(box_full, NULL); m_free(box[--nbox]); block_until(box_full, NULL); m_free(box[--nbox]); }
		break;
	case 2: /* the allocating thread ends (its pools are released) while the other still holds and frees memory */
		if (id == 0) { b[0] = m_alloc(17); box[nbox++] = b[0]; }
		else { b[1] = m_alloc(18); block_until(box_full, NULL); m_free(box[--nbox]); m_free(b[1]); }
		break;
	case 3: /* free by another thread while the owner allocates again */
		if (id == 0) { b[0] = m_alloc(17); b[1] = m_alloc(18); box[nbox++] = b[0]; b[2] = m_alloc(19); m_free(b[1]); b[3] = m_alloc(20); m_free(b[2]); m_free(b[3]); }
		else { block_until(box_full, NULL); m_free(box[--nbox]); }
		break;
	}
	li_mempool_cleanup();
	m_ended++;
}

/* --- throttle pools shared between workers --- */
static liThrottlePool *tp; static long long granted; static liThrottleState *ts_[4]; static int notified[4];
static double t_start; static guint p_rate, p_burst; static int p_ended, p_n;
static void p_notify(liThrottleState *state, gpointer data) { notified[(int)(intptr_t) data - 1] = 1; }
static void p_check(void) {
	long long lim = (long long) p_burst + (long long) ((vnow - t_start + 0.001) * p_rate) + (long long) p_n * 8192 + p_n;
	if (granted > lim) BADX("pool with rate %u and burst %u granted %lld bytes in %.3f s (limit %lld)", p_rate, p_burst, granted, vnow - t_start, lim);
}
static void p_use(liWorker *w, int i, int want) {
	guint n = li_throttle_query(w, ts_[i], want, p_notify, (gpointer)(intptr_t)(i + 1));
	point();
	if ((int) n > want) BADX("granted more than wanted");
	granted += n; li_throttle_update(ts_[i], n);
	p_check();
}
static void p_thread(void *v) {
	liWorker *w = v; int i = w->ndx, r;
	ts_[i] = li_throttle_new();
	li_throttle_add_pool(w, ts_[i], tp);
	if (variant & 1) { /* a second connection in the same worker */ ts_[i + 2] = li_throttle_new(); li_throttle_add_pool(w, ts_[i + 2], tp); }
	for (r = 0; r < 3; r++) {
		p_use(w, i, 60000);
		if (variant & 1) p_use(w, i + 2, 60000);
		if (i == 0 && r < 2) vnow += (variant & 2) ? 0.25 : 1.5;
	}
	if (variant & 4) li_throttle_remove_pool(w, ts_[i], tp);
	if (variant & 1) li_throttle_free(w, ts_[i + 2]);
	li_throttle_free(w, ts_[i]);
	p_ended++;
}

/* ---------------------------------------------------------------- fetch databases */
static liFetchDatabase *fdb; static int f_lookups, f_live, f_dbfreed, f_ended; static liFetchEntry *f_pend[8]; static int f_npend, f_valid = 1, f_gen, f_resolver_stop;
static liFetchEntry *f_old[8], *f_new[8]; static int f_nref; static int f_users;
static void f_lookup(liFetchDatabase *db, gpointer data, liFetchEntry *e) {
	f_lookups++;
	if (variant & 1) { f_pend[f_npend++] = e; return; } /* asynchronous answer */
	e->data = (gpointer)(intptr_t)(++f_gen); f_live++;
	li_fetch_entry_ready(e);
}
static gboolean f_reval(liFetchDatabase *db, gpointer data, liFetchEntry *e) { point(); return f_valid; }
static void f_refresh(liFetchDatabase *db, gpointer data, liFetchEntry *c, liFetchEntry *n) { li_fetch_entry_refresh_skip(n); }
static void f_free(gpointer data, liFetchEntry *e) { if (e->data) f_live--; }
static void f_freedb(gpointer data) { if (f_dbfreed) BADX("database freed twice"); f_dbfreed = 1; if (f_live) BADX("database freed while %d entries are alive", f_live); }
static const liFetchCallbacks f_cbs = { f_lookup, f_reval, f_refresh, f_free, f_freedb };
static int f_woken[4];
static void f_wake(gpointer d) { f_woken[(int)(intptr_t) d] = 1; }
static void f_user(void *v) {
	int id = (int)(intptr_t) v, n; GString *key = g_string_new((variant & 2) && id == 1 ? "b" : "a");
	for (n = 0; n < ((variant & 4) ? 2 : 1); n++) {
		liFetchWait *w = NULL; liFetchEntry *e;
		f_woken[id] = 0;
		e = li_fetch_get2(fdb, key, f_wake, (gpointer)(intptr_t) id, &w);
		if (!e) {
			if (!w) BADX("no entry and nothing to wait for");
			if ((variant & 8) && id == 0) { li_fetch_cancel(&w); break; }
			wait_flag(&f_woken[id]);
			e = li_fetch_get2(fdb, key, f_wake, (gpointer)(intptr_t) id, &w);
			if (!e) BADX("woken up without an entry");
		} else if (w) BADX("entry and wait");
		if (!e->data) BADX("entry without data");
		if (strcmp(e->key->str, key->str)) BADX("entry for another key");
		point();
		if (!e->data) BADX("entry lost its data while it was in use");
		li_fetch_entry_release(e);
	}
	g_string_free(key, TRUE);
	f_users--;
	li_fetch_database_release(fdb);
	f_ended++;
}
static int f_work_p(void *v) { return f_npend > 0 || f_users == 0; }
static void f_resolver(void *v) {
	for (;;) {
		liFetchEntry *e;
		block_until(f_work_p, NULL);
		if (f_npend == 0) break;
		e = f_pend[--f_npend];
		e->data = (gpointer)(intptr_t)(++f_gen); f_live++;
		li_fetch_entry_ready(e);
	}
	f_ended++;
}

/* ---------------------------------------------------------------- backend pools shared by workers */
#include <lighttpd/backends.h>
#include <sys/socket.h>
#define NFD 16
static struct { int open, connected, failed, eof, pending; } fds[NFD]; static int nfd, b_open, b_maxopen;
static ev_io *ios[NFD]; static struct ev_loop *io_loop[NFD];
static int b_connmode, b_fail, b_users, b_eofs, b_stop_env, b_failures_seen, b_refused;
#define ISF(fd) ((fd) >= 1000 && (fd) < 1000 + NFD)
int socket(int a, int b, int c) { int i = nfd++; if (i >= NFD) { printf("BAD harness: too many sockets\n"); exit(1); } memset(&fds[i], 0, sizeof(fds[i])); fds[i].open = 1; ++b_open; return 1000 + i; }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
	int i = fd - 1000;
	point();
	if (b_connmode == 0) { fds[i].connected = 1; goto done; }
	if (b_connmode == 2) { errno = ECONNREFUSED; b_refused++; return -1; }
	fds[i].pending = 1; errno = EINPROGRESS; return -1;
done:
	if (b_open > b_maxopen) b_maxopen = b_open;
	return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (!ISF(fd)) return -1; if (fds[fd-1000].connected) return 0; errno = ENOTCONN; return -1; }
int getsockopt(int fd, int a, int b, void *v, socklen_t *l) { *(int*) v = ECONNREFUSED; return 0; }
int close(int fd) { REAL(int, close, (int)); if (!ISF(fd)) return real(fd); if (!fds[fd-1000].open) fail("socket closed twice"); fds[fd-1000].open = 0; --b_open; return 0; }
int fcntl64(int fd, int cmd, ...) { return 0; }
int fcntl(int fd, int cmd, ...) { return 0; }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, (int, void*, size_t)); if (!ISF(fd)) return real(fd, b, n); if (fds[fd-1000].eof) return 0; errno = EAGAIN; return -1; }
void li_event_add_closing_socket(liEventLoop *l, int fd) { if (-1 == fd) return; own(l->loop); close(fd); }
gboolean li_log_write(liServer *s, liWorker *w, liLogContext *c, liLogLevel l, guint f, const gchar *fmt, ...) { return TRUE; }
void ev_io_start(struct ev_loop *l, ev_io *w) { int i = w->fd - 1000; own(l); if (w->active) return; w->active = 1; ios[i] = w; io_loop[i] = l; }
void ev_io_stop(struct ev_loop *l, ev_io *w) { int i = w->fd - 1000; own(l); w->active = 0; if (i >= 0 && i < NFD && ios[i] == w) ios[i] = NULL; }
static int io_ready(int i) {
	ev_io *w = ios[i];
	if (!w) return 0;
	if (fds[i].eof) return EV_READ;
	if ((w->events & EV_WRITE) && !fds[i].pending) return EV_WRITE;
	return 0;
}
static int bw_ready(struct ev_loop *l) { int i; for (i = 0; i < nfd; i++) if (ios[i] && io_loop[i] == l && io_ready(i)) return 1; return 0; }
static void bw_io(struct ev_loop *l) { int i, ev; for (i = 0; i < nfd; i++) if (ios[i] && io_loop[i] == l && (ev = io_ready(i))) { ev_io *w = ios[i]; w->cb(l, w, ev); } }

typedef struct { liVRequest vr; int id, state, rounds, aborts, closes, uses; liBackendConnection *con; liBackendWait *wait; liWorker *wrk; } breq;
static breq *breqs[4]; static int nbreq, b_done; static liBackendPool *bpool; static liBackendConfig bcfg; static int b_freed, b_new, b_closed;
static void b_newcb(liBackendPool *p, liWorker *w, liBackendConnection *c) { if (cur != (int) w->ndx) BADX("backend connection set up in thread %d for worker %u", cur, w->ndx); c->data = NULL; b_new++; }
static void b_closecb(liBackendPool *p, liWorker *w, liBackendConnection *c) { if (cur != (int) w->ndx) BADX("backend connection of worker %u closed by thread %d", w->ndx, cur); if (c->data) BADX("backend connection closed while in use"); b_closed++; }
static void b_movecb(liBackendPool *p, liWorker *w, liBackendConnection *c) { if (cur != (int) w->ndx) BADX("backend connection attached/detached in thread %d for worker %u", cur, w->ndx); if (c->data) BADX("backend connection moved while in use"); }
static void b_freecb(liBackendPool *p) { if (b_freed) BADX("pool freed twice"); b_freed = 1; }
static const liBackendCallbacks b_cbs = { b_movecb, b_movecb, b_newcb, b_closecb, b_freecb };
static void b_end(breq *r, int st) { r->state = st; b_done++; }
static void b_run(breq *r) {
	if (cur != (int) r->wrk->ndx) BADX("request of worker %u runs in thread %d", r->wrk->ndx, cur);
	switch (r->state) {
	case 0: /* wants a connection */
	case 1: /* waits for one */
		switch (li_backend_get(&r->vr, bpool, &r->con, &r->wait)) {
		case LI_BACKEND_SUCCESS:
			if (r->wait) BADX("connection and wait handle");
			if (r->con->data) BADX("backend connection given to two requests");
			if (!fds[li_event_io_fd(&r->con->watcher) - 1000].connected) BADX("backend connection given to a request before it is connected");
			if (r->con->watcher.base.link_watchers.data != &r->wrk->loop) BADX("backend connection belongs to another worker");
			r->con->data = r;
			r->state = 2;
			li_job_later(&r->wrk->loop.jobqueue, &r->vr.job);
			point();
			break;
		case LI_BACKEND_WAIT: r->state = 1; if (!r->wait) BADX("no wait handle"); break;
		case LI_BACKEND_TIMEOUT:
			if (r->wait) BADX("failed, but still a wait handle");
			if (!b_failures_seen && !b_refused) BADX("request failed although no connect failed");
			b_end(r, 5);
			break;
		}
		break;
	case 2: /* uses it */
		if (r->con->data != r) BADX("backend connection used by two requests");
		r->con->data = NULL; r->uses++;
		{ liBackendConnection *c = r->con; r->con = NULL; li_backend_put(r->wrk, bpool, c, r->closes); }
		if (r->uses < r->rounds) { r->state = 0; li_job_later(&r->wrk->loop.jobqueue, &r->vr.job); }
		else b_end(r, 4);
		break;
	}
}
static void b_jobcb(liJob *j) { b_run(LI_CONTAINER_OF(j, breq, vr.job)); }
static int b_abort;
static int b_client_p(void *v) { return !nochoice; }
static void b_client(void *v) { block_until(b_client_p, NULL); b_abort = 1; }
static int b_ab(struct ev_loop *l) { return b_abort && breqs[0] && breqs[0]->aborts && breqs[0]->state == 1 && breqs[0]->wrk->loop.loop == l; }
static int b_loop_p(void *v) { struct ev_loop *l = v; return b_ab(l) || b_done == nbreq || loop_ready(l) || bw_ready(l); }
static int b_wdone, b_nw, b_idle;
static void b_reap(liWorker *w) { /* the owner frees a finished request */
	int i;
	for (i = 0; i < nbreq; i++) if (breqs[i] && breqs[i]->wrk == w && breqs[i]->state >= 4) {
		breq *r = breqs[i]; breqs[i] = NULL;
		if (r->wait || r->con) BADX("request finished with a connection");
		li_job_clear(&r->vr.job); g_slice_free1(sizeof(breq), r);
	}
}
static int b_quiet(void) { int i; for (i = 0; i < nw; i++) if (loop_ready(wk[i]->loop.loop)) return 0; return b_idle == b_nw - 1; }
static int b_quiet_p(void *v) { struct ev_loop *l = v; return b_quiet() || loop_ready(l); }
static int b_fin_p(void *v) { struct ev_loop *l = v; return b_freed || loop_ready(l); }
static int b_pre, b_gone, b_fail0, b_connmode0; static int b_pre_p(void *v) { struct ev_loop *l = v; return b_gone || loop_ready(l) || bw_ready(l) || (l == wk[0]->loop.loop && b_quiet()); }
static void b_worker(void *v) {
	liWorker *w = v; struct ev_loop *l = w->loop.loop; int i;
	if (variant & 1024) { /* the pool was used (and is initialised in all workers) before */
		if (w == wk[0]) {
			breq *r = g_slice_alloc0(sizeof(breq));
			r->wrk = r->vr.wrk = w; r->closes = r->rounds = 1; li_job_init(&r->vr.job, b_jobcb);
			b_pre = 1; b_done--; b_run(r);
			while (b_pre) { loop_prepare(l); if (r->state >= 4 && b_quiet()) break; block_until(b_pre_p, l); bw_io(l); loop_pending(l); }
			li_job_clear(&r->vr.job); g_slice_free1(sizeof(breq), r);
			b_pre = 0; b_gone = 1; b_failures_seen = b_refused = 0; nochoice = 0;
			b_fail = b_fail0; b_connmode = b_connmode0;
		} else while (!b_gone) { loop_prepare(l); b_idle++; block_until(b_pre_p, l); b_idle--; loop_pending(l); bw_io(l); }
	}
	for (i = 0; i < nbreq; i++) if (breqs[i] && breqs[i]->wrk == w) b_run(breqs[i]);
	while (b_done < nbreq) {
		b_reap(w);
		loop_prepare(l);
		for (i = 0; i < nbreq; i++) if (breqs[i] && breqs[i]->wrk == w && breqs[i]->aborts && breqs[i]->state == 1 && b_abort) {
			breqs[i]->aborts = 0;
			li_backend_wait_stop(&breqs[i]->vr, bpool, &breqs[i]->wait);
			b_end(breqs[i], 6);
		}
		b_reap(w);
		if (b_done == nbreq) break;
		block_until(b_loop_p, l);
		if (b_done == nbreq) break;
		bw_io(l); loop_pending(l);
	}
	b_reap(w);
	loop_prepare(l);
	if (++b_wdone == b_nw) { /* last request gone, everything is quiet: the pool is freed */
		for (;;) { block_until(b_quiet_p, l); if (b_quiet()) break; loop_pending(l); bw_io(l); loop_prepare(l); }
		li_backend_pool_free(bpool);
	}
	while (!b_freed) { loop_prepare(l); b_idle++; block_until(b_fin_p, l); b_idle--; loop_pending(l); bw_io(l); }
}
static int b_env_p(void *v) { int i; if (nochoice) return 0; if (b_done == nbreq) return 1; for (i = 0; i < nfd; i++) if (fds[i].open && (fds[i].pending || (b_eofs && fds[i].connected && !fds[i].eof))) return 1; return 0; }
static void b_env(void *v) { /* the network: connects finish (or fail), backends close connections */
	int i;
	while (b_done < nbreq) {
		block_until(b_env_p, NULL);
		for (i = 0; i < nfd; i++) {
			if (!fds[i].open) continue;
			if (fds[i].pending) {
				fds[i].pending = 0;
				if (b_fail > 0) { b_fail--; b_failures_seen++; } else { fds[i].connected = 1; }
				break;
			}
			if (b_eofs && fds[i].connected && !fds[i].eof && ios[i]) { b_eofs--; fds[i].eof = 1; break; }
		}
		if (i == nfd) { if (b_eofs) b_eofs--; }
	}
}

/* ---------------------------------------------------------------- driver */

static int warmup;
static struct sockaddr_in loopback;
static void one_execution2(const char *sc);
static void one_execution(const char *sc) { one_execution2(sc); arena_on = 0; }
static void one_execution2(const char *sc) {
	int i;
	arena_reset(); nco = 0; nmtx = 0; cur = -1; ndec = 0; preempts = 0; npoints = 0; stamp = 1; failed = 0; shm->n = 0; next_co = -1;
	for (i = 0; i < npriv; i++) memset(priv[i].v, 0, sizeof(priv[i].v));
	vnow = 1000.0; arena_on = !warmup;
	if (!strcmp(sc, "job")) {
		memset(last_async_begin, 0, sizeof(last_async_begin)); last_cb = 0; ncb = 0; in_cb = 0; cb_allowed = 1; cb_action = 0; gone = 0;
		helpers = 2; owner_ndx = 0;
		li_event_loop_init(&L0, loop_new(0)); loops[0].owner = 0;
		li_job_init(&job, job_cb);
		ref1 = li_job_ref(&L0.jobqueue, &job); ref2 = li_job_ref(&L0.jobqueue, &job);
		spawn(job_owner, NULL, 0); spawn(job_helper, (void*) 1, 0); spawn(job_helper, (void*) 2, 0);
	} else if (!strcmp(sc, "tasklet")) {
		memset(t_run, 0, sizeof(t_run)); memset(t_fin, 0, sizeof(t_fin)); t_done = t_pushed = 0; pool = NULL; owner_ndx = 0;
		li_event_loop_init(&L0, loop_new(0)); loops[0].owner = 0;
		spawn(t_owner, NULL, 0);
	} else if (!strcmp(sc, "collect") || !strcmp(sc, "shutdown")) {
		memset(c_func, 0, sizeof(c_func)); memset(c_cb, 0, sizeof(c_cb)); memset(c_broken, 0, sizeof(c_broken)); c_ended = 0;
		mk_workers((variant & 3) + 1);
		c_start_ndx[0] = (variant & 16) ? nw - 1 : 0;
		c_start_ndx[1] = (variant & 32) ? (nw > 1 ? nw - 2 + (variant & 16 ? 0 : 1) : 0) : -1;
		c_total = 1 + ((variant & 32) ? 1 : 0);
		if (!strcmp(sc, "collect")) {
			if (variant & 4) c_start_ndx[0] = 0; /* global: the callback runs in the main worker */
			for (i = 0; i < nw; i++) spawn(c_worker, wk[i], 0);
			if (variant & 4) spawn(c_global, NULL, 0);
		} else {
			for (i = 0; i < nw; i++) spawn(x_worker, wk[i], 0);
			spawn(x_main, NULL, 0);
		}
	} else if (!strcmp(sc, "mempool")) {
		memset(blks, 0, sizeof(blks)); nblk = 0; nbox = 0; maps = 0; m_ended = 0;
		msize = (variant & 1) ? 1024 * 1024 : 1000; /* 8 or 256 chunks per magazine */
		if ((variant >> 1) == 1) msize = 1024 * 1024;
		spawn(m_thread, (void*) 0, 0); spawn(m_thread, (void*) 1, 0);
	} else if (!strcmp(sc, "throttle")) {
		mk_workers(2); granted = 0; p_ended = 0; p_n = (variant & 1) ? 4 : 2;
		p_rate = (variant & 8) ? 100000 : 20000; p_burst = (variant & 8) ? 20000 : 30000;
		t_start = vnow;
		memset(ts_, 0, sizeof(ts_));
		tp = li_throttle_pool_new(srv, p_rate, p_burst);
		spawn(p_thread, wk[0], 0); spawn(p_thread, wk[1], 0);
	} else if (!strcmp(sc, "fetch")) {
		f_lookups = f_live = f_dbfreed = f_ended = f_npend = f_gen = 0; f_users = 2; f_valid = 1;
		fdb = li_fetch_database_new(&f_cbs, NULL, (variant & 16) ? 0 : 8, 8);
		li_fetch_database_acquire(fdb);
		spawn(f_user, (void*) 0, 0); spawn(f_user, (void*) 1, 0);
		if (variant & 1) spawn(f_resolver, NULL, 0);
	} else if (!strcmp(sc, "backend")) {
		/* variant: 0..3 workers/requests, 4..: limit, 16: connect results, 64: aborts, 128: closes, 256: eof */
		static const int lim[] = { 0, -1, 1, 2 };
		int two = variant & 1;
		nochoice = 0; nfd = 0; b_open = b_maxopen = 0; memset(ios, 0, sizeof(ios)); memset(fds, 0, sizeof(fds));
		b_abort = b_done = b_freed = b_idle = b_wdone = b_new = b_closed = b_failures_seen = b_refused = 0; b_nw = 2;
		mk_workers(2);
		memset(&bcfg, 0, sizeof(bcfg));
		bcfg.callbacks = &b_cbs; bcfg.max_connections = lim[(variant >> 2) & 3]; bcfg.idle_timeout = 5; bcfg.connect_timeout = 5; bcfg.wait_timeout = 5;
		bcfg.max_requests = (variant & 2) ? 1 : -1; bcfg.watch_for_close = TRUE;
		bcfg.sock_addr.addr_up.plain = (struct sockaddr*) &loopback; bcfg.sock_addr.len = sizeof(loopback); loopback.sin_family = AF_INET;
		b_connmode = ((variant >> 4) & 3) == 0 ? 0 : ((variant >> 4) & 3) == 3 ? 2 : 1;
		b_fail = ((variant >> 4) & 3) == 2 ? 1 : 0;
		b_eofs = (variant & 256) ? 1 : 0;
		b_gone = b_pre = 0; b_fail0 = b_fail; b_connmode0 = b_connmode; if (variant & 1024) { nochoice = 1; b_fail = 0; b_connmode = 0; }
		bpool = li_backend_pool_new(&bcfg);
		nbreq = two ? 3 : 2;
		for (i = 0; i < nbreq; i++) {
			breq *r = breqs[i] = g_slice_alloc0(sizeof(breq));
			r->id = i; r->wrk = wk[i & 1]; r->vr.wrk = wk[i & 1]; r->rounds = (variant & 512) ? 2 : 1;
			r->aborts = (variant & 64) && i == 0 ? 1 : 0;
			r->closes = (variant & 128) && i != 0;
			li_job_init(&r->vr.job, b_jobcb);
		}
		spawn(b_worker, wk[0], 0); spawn(b_worker, wk[1], 0); spawn(b_env, NULL, 0); if (variant & 64) spawn(b_client, NULL, 0);
	} else { printf("BAD unknown scenario\n"); exit(2); }
	run_all();
	if (failed) return;
	if (!strcmp(sc, "collect")) {
		for (i = 0; i < nw; i++) wk[i]->loop.loop->owner = -1;
		if (!c_cb[0]) fail("collect callback never called");
		rm_workers();
		if (live) fail("%ld allocations leaked", live);
	} else if (!strcmp(sc, "shutdown")) {
		if (!c_cb[0] || ((variant & 32) && !c_cb[1])) fail("collect callback never called at shutdown");
		rm_workers();
		if (!failed && live) fail("%ld allocations leaked", live);
	} else if (!strcmp(sc, "mempool")) {
		if (maps) fail("%ld memory areas not returned to the system", maps);
		if (live) fail("%ld allocations leaked", live);
	} else if (!strcmp(sc, "throttle")) {
		li_throttle_pool_release(tp, srv);
		rm_workers();
		if (live) fail("%ld allocations leaked", live);
	} else if (!strcmp(sc, "backend")) {
		if (b_open) fail("%d backend sockets left open", b_open);
		if (b_new != b_closed) fail("%d backend connections set up, %d closed", b_new, b_closed);
		if (bcfg.max_connections > 0 && b_maxopen > bcfg.max_connections) fail("%d backend connections open, limit is %d", b_maxopen, bcfg.max_connections);
		rm_workers();
		if (live) fail("%ld allocations leaked", live);
	} else if (!strcmp(sc, "fetch")) {
		if (!f_dbfreed) fail("database never freed");
		if (live) fail("%ld allocations leaked", live);
	}
}

static void bad(const char *sc) {
	int i, n = shm->n;
	printf("BAD %s: %s [threads in order of decisions:", failmsg, sc);
	for (i = 0; i < n && i < 400; i++) printf(" %d", shm->c[i]);
	printf("] after %lld executions\n", execs);
	exit(1);
}

static int explore(const char *sc) {
	/* returns 1 if new shared locations were found */
	int i, dev = 0;
	for (i = 0; i < HS; i++) if (loc[i].a) { guint16 all = loc[i].r | loc[i].w; loc[i].pt = (all & (all - 1)) && loc[i].w && !loc[i].lock; }
	nprefix = 0; newshared = 0; execs = trans = 0;
	for (;;) {
		one_execution(sc);
		execs++; shm->execs = execs;
		if (failed) bad(sc);
		/* backtrack */
again:
		for (i = ndec - 1; i >= 0; i--) {
			dec_t *d = &dec[i];
			if (d->idx + 1 < d->nopt && (!d->costs || d->pre < bound)) { d->idx++; break; }
		}
		if (i < 0) break;
		nprefix = i + 1; ndec = i + 1;
		if (nshards > 1) { /* executions are split by their first deviation from the default schedule */
			int j, first = 1;
			for (j = 0; j < i; j++) if (dec[j].idx) { first = 0; break; }
			if (first) { dev++; if (dev % nshards != shard) goto again; }
		}
	}
	return newshared;
}

int main(int argc, char **argv) {
	int rounds = 0, st; pid_t pid;
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (argc < 6) return 2;
	variant = atoi(argv[2]); bound = atoi(argv[3]); shard = atoi(argv[4]); nshards = atoi(argv[5]);
	if (getenv("CONC_NOMEM")) mempoints = 0;
	shm = mmap(NULL, sizeof(*shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANON, -1, 0);
	dec = calloc(MAXDEC, sizeof(*dec));
	arena_init();
	li_mempool_align_page_size(1);
	pid = fork();
	if (pid == 0) {
		int b = bound;
		/* learn the shared locations with a small bound first */
		int ns = nshards;
		nshards = 1;
		warmup = 1; bound = 0; one_execution(argv[1]); warmup = 0; memset(loc, 0, sizeof(loc));
		for (bound = 0; bound < (b < 1 ? b : 1); bound++) while (explore(argv[1])) ;
		bound = b < 1 ? b : ns > 1 ? 0 : 1;
		while (explore(argv[1])) if (++rounds > 50) { printf("BAD harness: no fixpoint\n"); exit(1); }
		bound = b; nshards = ns;
		if (b > 1 || ns > 1) while (explore(argv[1])) if (++rounds > 50) { printf("BAD harness: no fixpoint\n"); exit(1); }
		{ int k; printf("SAMPLE %s %s:", argv[1], argv[2]); for (k = 0; k < shm->n && k < 60; k++) printf(" %d", shm->c[k]); printf("\n"); }
		printf("OK %lld %lld %lld\n", execs, trans, execs);
		exit(0);
	}
	waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) {
		int i;
		printf("BAD crashed with signal %d in %s %s [threads in order of decisions:", WTERMSIG(st), argv[1], argv[2]);
		for (i = 0; i < shm->n && i < 400; i++) printf(" %d", shm->c[i]);
		printf("]\n");
		return 1;
	}
	return WEXITSTATUS(st);
}
