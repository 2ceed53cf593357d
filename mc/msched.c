/* Runtime for code compiled with -fsanitize=thread: instead of a race detector a
 * controlled scheduler.  Exactly one thread runs at any time; at every access that can
 * conflict with another thread's, at every atomic operation, lock, sleep, poll, create
 * and join the engine (mc_choose) decides who runs next.  Also: happens-before clocks
 * from the synchronisation the code really performs, race detection on watched user
 * data, and an allocator without reuse that detects access to released memory. */
#define _GNU_SOURCE
#include "msched.h"
#include <errno.h>
#include <execinfo.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
#define TEXT_MAX (4u << 20)
extern char __executable_start, etext;
typedef struct { uint32_t c[MAXT]; } vc_t;
typedef struct {
	int gate;
	bool used, done, detached, force;
	int state;                  /* 0 ready, 1 polling, 2 joining */
	int join_on;
	uint64_t own, mark, start;  /* own changes; foreign changes at the last two yields */
	vc_t vc, fj, acq, rel;
	void *(*fn)(void *);
	void *arg, *ret;
	uintptr_t spin_pc, spin_addr;
	int spin_n, tries, low;
	bool spin_local;
	struct { uintptr_t a; uint64_t v; int size, mo; } sb[8]; int nsb;   /* stores other threads do not see yet */
	uintptr_t pw_addr; uint64_t pw_old; int pw_size;   /* a write whose effect is not known yet */
} th_t;
static th_t th[MAXT];
static int nth, cur_t;
static __thread int me = -1;
static bool started, exploring;
static uint64_t total_changes, idle_rounds, accesses;
uint64_t sched_clock, sched_tick;
int sched_cpus = 2, sched_stall;
bool sched_real_poll, sched_plain, sched_all_sites, sched_buffers = true;
static uint8_t *live_sites, *frozen;       /* conflict sites: found so far, used in this round */
static volatile int *grown;
static bool stop_on_growth, sched_fj;
#define IDLE_MAX 4000

static void fut_wait(int *g) { while (!__atomic_load_n(g, __ATOMIC_ACQUIRE)) syscall(SYS_futex, g, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n(g, 0, __ATOMIC_RELAXED); }
static void fut_wake(int *g) { __atomic_store_n(g, 1, __ATOMIC_RELEASE); syscall(SYS_futex, g, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
int sched_self(void) { return me; }
int sched_threads(void) { int n = 0; for (int i = 0; i < nth; i++) n += i != me && th[i].used && !th[i].done; return n; }
static inline size_t off(void *pc) { return (size_t)((char *)pc - &__executable_start); }

/* ---- changes: what makes a polling thread worth another look */
static void changed(int t) { total_changes++; th[t].own++; }
static void settle(int t) {
	th_t *x = &th[t];
	if (!x->pw_addr) return;
	uint64_t v = 0;
	memcpy(&v, (void *)x->pw_addr, x->pw_size);
	if (v != x->pw_old) { changed(t); x->spin_n = 0; }
	x->pw_addr = 0;
}
static void flush(int t);
static bool eligible(int t) {
	th_t *x = &th[t];
	if (!x->used || x->done) return false;
	if (x->state == 0 || x->force) return true;
	if (x->state == 2) return th[x->join_on].done;
	return total_changes - x->own != x->start;
}
static int candidates(int *c) {
	int n = 0;
	for (int k = 1; k <= nth; k++) {
		int t = (cur_t + k) % nth;
		if (t != cur_t && !th[t].low && eligible(t)) c[n++] = t;
	}
	if (!n && !(th[cur_t].used && !th[cur_t].done && th[cur_t].state == 0)) for (int k = 1; k <= nth; k++) {
		int t = (cur_t + k) % nth;
		if (t != cur_t && eligible(t)) c[n++] = t;
	}
	return n;
}
static void run_thread(int t) {
	int self = me;
	cur_t = t;
	th[t].force = false;
	th[t].low = 0;
	if (th[t].state == 1) th[t].state = 0;
	if (mc_verbose) mc_note("  -- thread %d runs\n", t);
	if (t == self) return;
	fut_wake(&th[t].gate);
	if (th[self].done) return;
	fut_wait(&th[self].gate);
	flush(self);
}
static void idle(void) {
	/* nobody can do anything new: time passes, everyone looks again */
	if (++idle_rounds > IDLE_MAX) {
		char s[300]; int n = 0;
		for (int t = 0; t < nth; t++) n += snprintf(s + n, sizeof s - n, " thread %d %s;", t, th[t].done ? "ended" : th[t].state == 2 ? "joins" : "polls");
		mc_fail("stuck", "no thread makes progress any more:%s", s);
	}
	sched_clock += 1000000;
	for (int t = 0; t < nth; t++) if (th[t].used && !th[t].done && th[t].state == 1) th[t].force = true;
}
/* the running thread gives way */
static void give_way(void) {
	int c[MAXT], n;
	settle(cur_t);
	flush(cur_t);
	for (int t = 0; t < nth; t++) if (th[t].low) th[t].low--;
	while ((n = candidates(c)) == 0) {
		if (!th[me].done && eligible(me)) { run_thread(me); return; }
		bool any = false;
		for (int t = 0; t < nth; t++) any |= th[t].used && !th[t].done && (th[t].state == 1);
		if (!any) mc_fail("deadlock", "every thread waits for another one to end");
		idle();
		if (!th[me].done && th[me].force && candidates(c) == 0) { run_thread(me); return; }
	}
	int k = exploring && n > 1 ? mc_choose(n, "next thread") : 0;
	run_thread(c[k]);
}
void sched_yield_point(void) {
	if (!started || me < 0) return;
	th_t *x = &th[me];
	settle(me);
	flush(me);
	sched_clock += sched_tick;
	x->start = x->mark;
	x->mark = total_changes - x->own;
	x->spin_n = 0;
	x->state = 1;
	give_way();
}
static void preempt_point(const char *what) {
	int c[MAXT], n = candidates(c);
	mc_step(1);
	if (!n) return;
	int k = mc_choose(n + 1 + (sched_stall > 0), what);
	if (k) {
		if (stop_on_growth && *grown) { mc_stop(); mc_done(); }
		if (k > n) { th[me].low = sched_stall; k = 1; }   /* stalled while the others take many turns */
		run_thread(c[k - 1]);
	}
}
void sched_point(const char *what) { if (started && exploring && me >= 0) { settle(me); preempt_point(what); } }

/* ---- shadow of the accesses, for conflict sites: a plain access conflicts with another thread's
 * unless the synchronisation the code performs orders the two; atomic ones unless creation or join do */
#define SH_BITS 18
#define NSITE 12
/* dense pools, so that an execution touches few pages */
typedef struct { uint32_t fj, vc; uint8_t mask, atomic, n; uint32_t s[NSITE]; } acc_t;
typedef struct { acc_t a[2]; } rec_t;   /* reads, writes */
typedef struct { uintptr_t key; uint32_t rec[MAXT]; } cell_t;
#define NCELL (1u << 17)
#define NREC (1u << 18)
static struct { uint32_t idx[1u << SH_BITS]; cell_t cell[NCELL]; rec_t rec[NREC]; } *sh;
static uint32_t ncell, nrec;
static cell_t *cell(uintptr_t a, bool make) {
	uintptr_t k = a >> 3;
	size_t i = ((((k >> 5) * 0x9E3779B97F4A7C15ull) >> (64 - SH_BITS + 5)) << 5) | (k & 31), n = 0;
	while (sh->idx[i] && sh->cell[sh->idx[i]].key != k) { i = (i + 1) & ((1u << SH_BITS) - 1); if (++n > 1u << 16) mc_fail("mc-shadow", "shadow table full"); }
	if (!sh->idx[i]) {
		if (!make) return NULL;
		if (++ncell == NCELL) mc_fail("mc-shadow", "shadow table full");
		sh->idx[i] = ncell;
		sh->cell[ncell].key = k;
	}
	return &sh->cell[sh->idx[i]];
}
static void mark_site(uint32_t s) {
	if (s && s < TEXT_MAX && !live_sites[s]) { live_sites[s] = 1; *grown = 1; if (mc_verbose) mc_note("  new site +%x\n", s); }
}
static void conflicts(cell_t *c, uint8_t mask, uint32_t site, bool w, bool atomic) {
	for (int u = 0; u < nth; u++) {
		if (u == me || !c->rec[u]) continue;
		for (int k = w ? 0 : 1; k < 2; k++) {
			acc_t *r = &sh->rec[c->rec[u]].a[k];
			if (!(r->mask & mask)) continue;
			if ((atomic && r->atomic) || sched_fj ? r->fj <= th[me].fj.c[u] : r->vc <= th[me].vc.c[u]) continue;
			mark_site(site);
			for (int i = 0; i < NSITE; i++) mark_site(r->s[i]);
		}
	}
}
static void shadow1(uintptr_t a, int size, uint32_t site, bool w, bool atomic) {
	cell_t *c = cell(a, true);
	uint8_t mask = ((1u << size) - 1) << (a & 7);
	conflicts(c, mask, site, w, atomic);
	if (!c->rec[me]) { if (++nrec == NREC) mc_fail("mc-shadow", "shadow table full"); c->rec[me] = nrec; }
	acc_t *m = &sh->rec[c->rec[me]].a[w];
	if (m->fj != th[me].fj.c[me]) memset(m, 0, sizeof *m);
	m->fj = th[me].fj.c[me]; m->vc = th[me].vc.c[me]; m->mask |= mask; m->atomic |= atomic;
	for (int i = 0; i < NSITE; i++) if (m->s[i] == site) return;
	m->s[m->n++ % NSITE] = site;
}
static void shadow(uintptr_t a, int size, uint32_t site, bool w, bool atomic) {
	while (size > 0) { int n = 8 - (int)(a & 7); if (n > size) n = size; shadow1(a, n, site, w, atomic); a += n; size -= n; }
}
static void ordered(uintptr_t a, int size, bool w, void *pc) {
	cell_t *c = cell(a, false);
	if (!c) return;
	uint8_t mask = ((1u << (size < 8 ? size : 8)) - 1) << (a & 7);
	for (int u = 0; u < nth; u++) {
		if (u == me || !c->rec[u]) continue;
		for (int k = w ? 0 : 1; k < 2; k++) {
			acc_t *r = &sh->rec[c->rec[u]].a[k];
			if ((r->mask & mask) && !r->atomic && r->vc > th[me].vc.c[u])
				mc_fail("race", "the %s at %p, code +0x%zx, by thread %d is not ordered after thread %d's %s", w ? "write" : "read", (void *)a, off(pc), me, u, k ? "write" : "read");
		}
	}
}
/* releasing memory conflicts with every access to it */
static void shadow_free(uintptr_t a, size_t n, uint32_t site) {
	for (size_t i = 0; i < n && i < 1024; i += 8) { cell_t *c = cell(a + i, false); if (c) conflicts(c, 0xff, site, true, false); }
}

/* ---- watched user data */
#define NWATCH 16
static struct { uintptr_t a, e; const char *name; vc_t r, w; } watch[NWATCH];
static int nwatch;
void sched_watch(void *p, size_t n, const char *name) {
	if (nwatch == NWATCH) mc_fail("mc-watch", "too many");
	memset(&watch[nwatch], 0, sizeof watch[0]);
	watch[nwatch].a = (uintptr_t)p; watch[nwatch].e = (uintptr_t)p + n; watch[nwatch++].name = name;
}
static void user_access(uintptr_t a, bool w) {
	for (int i = 0; i < nwatch; i++) {
		if (a < watch[i].a || a >= watch[i].e) continue;
		for (int u = 0; u < nth; u++) {
			if (u == me) continue;
			if (watch[i].w.c[u] > th[me].vc.c[u] || (w && watch[i].r.c[u] > th[me].vc.c[u]))
				mc_fail("race", "%s: the access of thread %d is not ordered after thread %d's %s", watch[i].name, me, u, watch[i].w.c[u] > th[me].vc.c[u] ? "write" : "read");
		}
		if (w) watch[i].w.c[me] = th[me].vc.c[me]; else watch[i].r.c[me] = th[me].vc.c[me];
	}
}
static void join_vc(vc_t *a, const vc_t *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

bool (*sched_raced)(uintptr_t);       /* plain accesses here have to be ordered by happens-before */
#ifdef MS_NO_ALLOC
static char *arena;
static uint8_t *astate;
#define ARENA_SIZE 4096
static void heap_check(uintptr_t a, int size, bool w, void *pc) { (void)a; (void)size; (void)w; (void)pc; }
#else
/* ---- the stand-in allocator: nothing is ever reused */
#define ARENA_SIZE (256ull << 20)
static char *arena;
static size_t arena_top;
#define GAP 128                      /* before each block: is_data(p) looks there, whatever p is */
static uint8_t *astate;              /* per 16 bytes: 0 never, 1 live, 2 released, 3 gap */
static size_t nlive;
static struct { void *v[10]; int n; } *hist;    /* MS_TRACE: who allocated and released a block */
static void remember(size_t o, bool rel) {
	if (!hist) { if (!getenv("MS_TRACE")) return; hist = mmap(NULL, sizeof *hist * (ARENA_SIZE / 8), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	size_t i = (o >> 4) * 2 + rel;
	hist[i].n = backtrace(hist[i].v, 10);
}
#include <fcntl.h>
static void recall(size_t o) {
	if (!hist) return;
	while (astate[(o >> 4) - 1] != 3) o -= 16;
	for (int r = 0; r < 2; r++) { int fd = open(getenv("MS_TRACE"), O_WRONLY | O_CREAT | O_APPEND, 0600); dprintf(fd, r ? "released:\n" : "allocated:\n"); backtrace_symbols_fd(hist[(o >> 4) * 2 + r].v, hist[(o >> 4) * 2 + r].n, fd); }
}
static const char *trace(void) {
	static char b[600];
	void *v[12];
	int n = backtrace(v, 12), k = 0;
	for (int i = 2; i < n; i++) {
		size_t o = off(v[i]);
		if (o < TEXT_MAX) { char **s = backtrace_symbols(&v[i], 1); char *q = s ? strchr(s[0], '(') : NULL; k += snprintf(b + k, sizeof b - k > 0 ? sizeof b - k : 0, " < %.60s+%zx", q ? q : "", o); if (k > 500) break; }
	}
	return b;
}
static void heap_check(uintptr_t a, int size, bool w, void *pc) {
	if (a - (uintptr_t)arena >= ARENA_SIZE) return;
	uint8_t s = astate[(a - (uintptr_t)arena) >> 4];
	if (s == 1 || (s == 3 && !w)) return;
	if (s == 2) recall(a - (uintptr_t)arena);
	mc_fail(s == 2 ? "use-after-free" : "heap-overflow", "access of %d bytes at %s memory by thread %d, code at +0x%zx%s", size, s ? "released" : "unallocated", me, off(pc), trace());
}
void *rp_malloc(size_t n) {
	size_t need = ((n ? n : 1) + 15) & ~15ull, p = arena_top + GAP;
	if (n > ARENA_SIZE || p + need + GAP > ARENA_SIZE) return NULL;
	*(size_t *)(arena + p - 16) = n;
	memset(astate + ((p - GAP) >> 4), 3, GAP >> 4);
	memset(astate + (p >> 4), 1, need >> 4);
	arena_top = p + need;
	nlive++;
	remember(p, false);
	return arena + p;
}
void rpfree(void *q) {
	if (!q) return;
	size_t o = (char *)q - arena;
	if (o >= ARENA_SIZE) mc_fail("bad-free", "release of %p, which is no block", q);
	if (astate[o >> 4] == 2) recall(o);
	if (astate[o >> 4] != 1 || astate[(o >> 4) - 1] != 3) mc_fail(astate[o >> 4] == 2 ? "double-free" : "bad-free", "release of %s by thread %d, from +0x%zx%s", astate[o >> 4] == 2 ? "a released block" : "no block", me, off(__builtin_return_address(0)), trace());
	size_t n = *(size_t *)((char *)q - 16), need = ((n ? n : 1) + 15) & ~15ull;
	if (started && me >= 0) shadow_free((uintptr_t)q, n, off(__builtin_return_address(0)));
	memset(astate + (o >> 4), 2, need >> 4);
	memset(q, 0xDD, need < 4096 ? need : 4096);
	nlive--;
	remember(o, true);
}
void *rp_calloc(size_t a, size_t b) { return rp_malloc(a * b); }
void *rp_realloc(void *q, size_t n) {
	if (!q) return rp_malloc(n);
	size_t o = *(size_t *)((char *)q - 16);
	void *r = rp_malloc(n);
	if (r) { heap_check((uintptr_t)q, 0, true, __builtin_return_address(0)); memcpy(r, q, o < n ? o : n); rpfree(q); }
	return r;
}
int rpmalloc_init(void) { return 0; }
int rpmalloc_initialize(void) { return 0; }
void rpmalloc_finalize(void) {}
void rpmalloc_thread_initialize(void) {}
void rpmalloc_thread_finalize(int r) { (void)r; }
size_t sched_live_blocks(void) { return nlive; }
bool sched_block_live(const void *p) { size_t o = (char *)p - arena; return o < ARENA_SIZE && astate[o >> 4] == 1; }

#endif
/* ---- accesses */
static inline void hook(void *addr, int size, bool w, void *pc) {
	if (!started || me < 0) return;
	uintptr_t a = (uintptr_t)addr;
	th_t *x = &th[me];
	settle(me);
	if (++accesses > 30000000) mc_fail("endless", "more than 30 million accesses");
	heap_check(a, size, w, pc);
	size_t s = off(pc);
	if (exploring && s < TEXT_MAX && frozen[s]) { preempt_point("access"); heap_check(a, size, w, pc); }
	if (sched_raced && sched_raced(a)) ordered(a, size, w, pc);
	shadow(a, size, s, w, false);
	if (nwatch) user_access(a, w);
	for (int i = 0; i < x->nsb; i++) if (a < x->sb[i].a + x->sb[i].size && x->sb[i].a < a + size) { flush(me); break; }
	if (w && a - (uintptr_t)__builtin_frame_address(0) < 1024) x->spin_local = true;   /* a local of the code that runs now */
	else if (w) {
		if (size <= 8) { x->pw_addr = a; x->pw_size = size; x->pw_old = 0; memcpy(&x->pw_old, addr, size); }
		else { changed(me); x->spin_n = 0; }
	}
}
#define RA __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *a) { hook(a, n, false, RA); } void __tsan_write##n(void *a) { hook(a, n, true, RA); } \
	void __tsan_unaligned_read##n(void *a) { hook(a, n, false, RA); } void __tsan_unaligned_write##n(void *a) { hook(a, n, true, RA); } \
	void __tsan_volatile_read##n(void *a) { hook(a, n, false, RA); } void __tsan_volatile_write##n(void *a) { hook(a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(char *a, size_t n, bool w, void *pc) { for (size_t i = 0; i < n; i += 8) hook(a + i, n - i < 8 ? n - i : 8, w, pc); if (w && started && me >= 0) changed(me); }
void __tsan_read_range(void *a, size_t n) { range(a, n, false, RA); }
void __tsan_write_range(void *a, size_t n) { range(a, n, true, RA); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }

/* atomics: happens-before clocks per address */
#define AT_BITS 12
static struct { uintptr_t a; vc_t rel; } at[1 << AT_BITS];
static vc_t *at_of(uintptr_t a) {
	size_t i = (a * 0x9E3779B97F4A7C15ull) >> (64 - AT_BITS), n = 0;
	while (at[i].a && at[i].a != a) { i = (i + 1) & ((1 << AT_BITS) - 1); if (++n > 4000) mc_fail("mc-atomics", "table full"); }
	at[i].a = a;
	return &at[i].rel;
}
static bool acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool relm(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before(void *p, int size, bool w, void *pc) {
	settle(me);
	if (++accesses > 30000000) mc_fail("endless", "more than 30 million accesses");
	heap_check((uintptr_t)p, size, w, pc);
	size_t s = off(pc);
	if (exploring && ((s < TEXT_MAX && frozen[s]) || sched_all_sites)) { preempt_point("atomic"); heap_check((uintptr_t)p, size, w, pc); }
	shadow((uintptr_t)p, size, s, w, true);
}
static void after(void *p, int mo, bool rd, bool wr, bool chg, void *pc) {
	th_t *x = &th[me];
	vc_t *r = at_of((uintptr_t)p);
	if (rd) { if (acq(mo)) join_vc(&x->vc, r); join_vc(&x->acq, r); }
	if (wr) {
		vc_t n = relm(mo) ? x->vc : x->rel;
		if (rd) join_vc(&n, r);       /* a read-modify-write continues the release sequence */
		*r = n;
		if (relm(mo)) x->vc.c[me]++;
	}
	if (chg) { changed(me); x->spin_n = 0; x->spin_pc = 0; }
	else if (x->spin_pc == (uintptr_t)pc && x->spin_addr == (uintptr_t)p) { if (++x->spin_n >= (x->spin_local ? 6 : 2)) { x->spin_local = false; sched_yield_point(); } }
	else { x->spin_pc = (uintptr_t)pc; x->spin_addr = (uintptr_t)p; x->spin_n = 0; }
}
/* store buffers: a store that is not sequentially consistent may stay invisible to the other
 * threads until the thread's next fence, read-modify-write, sequentially consistent store,
 * wait or end, or until it runs again after another one */
static void flush(int t) {
	th_t *x = &th[t];
	for (int i = 0; i < x->nsb; i++) {
		uint64_t o = 0;
		memcpy(&o, (void *)x->sb[i].a, x->sb[i].size);
		memcpy((void *)x->sb[i].a, &x->sb[i].v, x->sb[i].size);
		int m = me;
		me = t;
		after((void *)x->sb[i].a, x->sb[i].mo, false, true, o != x->sb[i].v, NULL);
		me = m;
	}
	x->nsb = 0;
}
static bool keep(void *p, uint64_t v, int size, int mo, void *pc) {
	th_t *x = &th[me];
	if (!sched_buffers || !exploring || mo == __ATOMIC_SEQ_CST || x->nsb == 8) { flush(me); return false; }
	size_t s = off(pc);
	if (!x->nsb && !(s < TEXT_MAX && frozen[s] && mc_choose(2, "store stays in the buffer"))) return false;
	x->sb[x->nsb].a = (uintptr_t)p; x->sb[x->nsb].v = v; x->sb[x->nsb].size = size; x->sb[x->nsb++].mo = mo;
	return true;
}
static bool kept(const void *p, void *v, int size) {
	th_t *x = &th[me];
	for (int i = x->nsb; i-- > 0; ) if (x->sb[i].a == (uintptr_t)p && x->sb[i].size == size) { memcpy(v, &x->sb[i].v, size); return true; }
	return false;
}
#define ON (started && me >= 0)
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *p, int mo) { if (!ON) return *p; before((void *)p, n / 8, false, RA); T v; if (kept((void *)p, &v, n / 8)) return v; v = *p; after((void *)p, mo, true, false, false, RA); return v; } \
void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { if (!ON) { *p = v; return; } before((void *)p, n / 8, true, RA); if (keep((void *)p, v, n / 8, mo, RA)) return; T o = *p; *p = v; after((void *)p, mo, false, true, o != v, RA); } \
T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { if (!ON) { T o = *p; *p = v; return o; } before((void *)p, n / 8, true, RA); flush(me); T o = *p; *p = v; after((void *)p, mo, true, true, o != v, RA); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { \
	if (!ON) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	before((void *)p, n / 8, true, RA); flush(me); T o = *p; if (o == *e) { *p = v; after((void *)p, mo, true, true, o != v, RA); return 1; } \
	*e = o; after((void *)p, fmo, true, false, false, RA); return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { \
	if (!ON) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	before((void *)p, n / 8, true, RA); flush(me); T o = *p; if (o == *e) { *p = v; after((void *)p, mo, true, true, o != v, RA); return 1; } \
	*e = o; after((void *)p, fmo, true, false, false, RA); return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { \
	if (!ON) { T o = *p; if (o == e) *p = v; return o; } \
	before((void *)p, n / 8, true, RA); flush(me); T o = *p; if (o == e) { *p = v; after((void *)p, mo, true, true, o != v, RA); } else after((void *)p, fmo, true, false, false, RA); return o; }
#define OPS(n, T, name, ex) T __tsan_atomic##n##_fetch_##name(volatile T *p, T v, int mo) { if (!ON) { T o = *p; *p = ex; return o; } before((void *)p, n / 8, true, RA); flush(me); T o = *p; *p = ex; after((void *)p, mo, true, true, *p != o, RA); return o; }
#define ALLOPS(n, T) AT(n, T) OPS(n, T, add, o + v) OPS(n, T, sub, o - v) OPS(n, T, and, o & v) OPS(n, T, or, o | v) OPS(n, T, xor, o ^ v) OPS(n, T, nand, ~(o & v))
ALLOPS(8, uint8_t) ALLOPS(16, uint16_t) ALLOPS(32, uint32_t) ALLOPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
	if (!ON) return;
	th_t *x = &th[me];
	if (mo == __ATOMIC_SEQ_CST) flush(me);
	if (acq(mo)) join_vc(&x->vc, &x->acq);
	if (relm(mo)) { x->rel = x->vc; x->vc.c[me]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- threads */
static void *boot(void *v) {
	th_t *x = v;
	me = x - th;
	fut_wait(&x->gate);
	extern void __wrap_pthread_exit(void *);
	__wrap_pthread_exit(x->fn(x->arg));
	return NULL;
}
/* destructors of thread-specific data run before the thread counts as ended */
static struct { pthread_key_t k; void (*d)(void *); bool on; } keys[32];
int __real_pthread_key_create(pthread_key_t *, void (*)(void *));
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
	int r = __real_pthread_key_create(k, NULL);
	if (r) return r;
	for (int i = 0; i < 32; i++) if (!keys[i].on) { keys[i].k = *k; keys[i].d = d; keys[i].on = true; return 0; }
	mc_fail("mc-keys", "too many keys");
}
int __real_pthread_key_delete(pthread_key_t);
int __wrap_pthread_key_delete(pthread_key_t k) {
	for (int i = 0; i < 32; i++) if (keys[i].on && keys[i].k == k) keys[i].on = false;
	return __real_pthread_key_delete(k);
}
void __wrap_pthread_exit(void *ret) {
	th_t *x = &th[me];
	for (int round = 0, any = 1; any && round < 4; round++) {
		any = 0;
		for (int i = 0; i < 32; i++) {
			void *v = keys[i].on && keys[i].d ? pthread_getspecific(keys[i].k) : NULL;
			if (!v) continue;
			any = 1;
			pthread_setspecific(keys[i].k, NULL);
			keys[i].d(v);
		}
	}
	settle(me);
	flush(me);
	sched_point("end");
	x->ret = ret;
	x->done = true;
	x->vc.c[me]++; x->fj.c[me]++;
	changed(me);
	if (mc_verbose) mc_note("  -- thread %d ends\n", me);
	give_way();
	for (;;) pause();
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
	(void)a;
	if (!ON) return __real_pthread_create(t, NULL, f, arg);
	if (nth == MAXT) mc_fail("mc-threads", "too many threads");
	sched_point("create");
	int k = nth++;
	th_t *x = &th[k], *p = &th[me];
	memset(x, 0, sizeof *x);
	x->used = true; x->fn = f; x->arg = arg;
	x->vc = p->vc; x->fj = p->fj;
	x->vc.c[k] = 1; x->fj.c[k] = 1;
	x->rel = x->acq = (vc_t){{0}};
	p->vc.c[me]++; p->fj.c[me]++;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 256 << 10);
	pthread_t pt;
	if (__real_pthread_create(&pt, &at, boot, x)) mc_fail("mc-create", "pthread_create failed");
	*t = (pthread_t)(k + 1);
	sched_point("created");
	return 0;
}
static int do_join(int k, void **ret) {
	while (!th[k].done) { settle(me); th[me].state = 2; th[me].join_on = k; give_way(); th[me].state = 0; }
	th[me].state = 0;
	join_vc(&th[me].vc, &th[k].vc); join_vc(&th[me].fj, &th[k].fj);
	if (ret) *ret = th[k].ret;
	th[k].detached = true;
	return 0;
}
static int idx_of(pthread_t t) {
	int k = (int)(uintptr_t)t - 1;
	if (k < 0 || k >= nth || !th[k].used) mc_fail("bad-thread", "an operation on no thread (%p)", (void *)t);
	if (th[k].detached) mc_fail("bad-thread", "an operation on a thread already joined or detached");
	return k;
}
int __wrap_pthread_join(pthread_t t, void **ret) { int k = idx_of(t); sched_point("join"); return do_join(k, ret); }
int __wrap_pthread_tryjoin_np(pthread_t t, void **ret) { int k = idx_of(t); sched_point("join"); if (!th[k].done && th[me].tries++) sched_yield_point(); if (!th[k].done) return EBUSY; th[me].tries = 0; return do_join(k, ret); }
int __wrap_pthread_timedjoin_np(pthread_t t, void **ret, const struct timespec *ts) {
	int k = idx_of(t);
	sched_point("join");
	uint64_t end = ts->tv_sec * 1000000000ull + ts->tv_nsec - 1000000000000ull;
	while (!th[k].done) { if (sched_clock >= end) return ETIMEDOUT; sched_yield_point(); }
	return do_join(k, ret);
}
int __wrap_pthread_detach(pthread_t t) { th[idx_of(t)].detached = true; return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { (void)t; (void)n; (void)c; return 0; }
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return me >= 0 ? (pthread_t)(me + 1) : __real_pthread_self(); }
int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *c) { (void)p; memset(c, 0, n); for (int i = 0; i < sched_cpus; i++) CPU_SET(i, c); return 0; }
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!ON) return __real_nanosleep(a, b); sched_yield_point(); return 0; }
int __wrap_usleep(unsigned u) { (void)u; sched_yield_point(); return 0; }
int __wrap_sched_yield(void) { sched_yield_point(); return 0; }
int __real_epoll_wait(int, struct epoll_event *, int, int);
int (*sched_poll)(struct epoll_event *, int, int);
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int n, int timeout) {
	sched_yield_point();
	return sched_poll ? sched_poll(ev, n, timeout) : sched_real_poll ? __real_epoll_wait(fd, ev, n, 0) : 0;
}
#define VB 1000000000000ull
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; uint64_t t = VB + sched_clock; tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; uint64_t t = VB + sched_clock; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t __wrap_time(time_t *p) { time_t t = (VB + sched_clock) / 1000000000; if (p) *p = t; return t; }

/* ---- exploration */
void sched_start(void) {
	memset(th, 0, sizeof th);
	nth = 1; cur_t = 0; me = 0;
	th[0].used = true; th[0].vc.c[0] = th[0].fj.c[0] = 1;
	if (!arena) {
		sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifndef MS_NO_ALLOC
		arena = mmap((void *)0x200000000000ull, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		astate = mmap(NULL, ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#else
		arena = (char *)1;
#endif
		if (arena == MAP_FAILED || (void *)sh == MAP_FAILED || astate == MAP_FAILED) mc_fail("mc-map", "no memory");
	}
	started = true;
}
void sched_on(void) { exploring = true; }
void sched_off(void) { exploring = false; }
static void save(FILE *f) {
	fprintf(f, "sites");
	for (size_t i = 0; i < TEXT_MAX; i++) if (frozen[i]) fprintf(f, " %zx", i);
	fprintf(f, "\n");
}
static void load(FILE *f) {
	char w[64];
	bool in_s = false;
	memset(frozen, 0, TEXT_MAX);
	while (fscanf(f, "%63s", w) == 1) {
		if (!strcmp(w, "sites")) { in_s = true; continue; }
		if (in_s) { size_t x = strtoul(w, NULL, 16); if (x < TEXT_MAX) frozen[x] = 1; }
	}
}
int sched_explore(const char *name, mc_fn fn, void *arg, mc_opt o) {
	char n[128];
	if (!frozen) {
		sched_fj = getenv("MS_FJ");   /* debugging aid: more sites */
		frozen = mmap(NULL, TEXT_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		live_sites = mmap(NULL, TEXT_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		grown = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		mc_pin = true;
		mc_extra_save = save; mc_extra_load = load;
	}
	if (mc_replaying()) {
		for (int r = 0; r < 12; r++) { snprintf(n, sizeof n, "%s:sites-%d", name, r); mc_opt d = o; d.bound = 1; mc_explore(n, fn, arg, d); }
		for (int r = 0; r < 5; r++) { snprintf(n, sizeof n, r ? "%s:again-%d" : "%s", name, r); mc_explore(n, fn, arg, o); }
		return 0;
	}
	static int number;
	if (!mc_want(name)) return 0;
	if (number++ % mc_shards != mc_shard) return 0;
	if (sched_plain) return mc_explore(name, fn, arg, o);
	memset(live_sites, 0, TEXT_MAX); memset(frozen, 0, TEXT_MAX);
	/* which accesses conflict: repeated until no new ones turn up */
	stop_on_growth = true;
	for (int r = 0; r < 12; r++) {
		*grown = 0;
		memcpy(frozen, live_sites, TEXT_MAX);
		snprintf(n, sizeof n, "%s:sites-%d", name, r);
		mc_opt d = o;
		d.bound = o.bound < 1 ? o.bound : 1;
		if (mc_explore(n, fn, arg, d)) return 1;
		if (!*grown) break;
	}
	stop_on_growth = false;
	int v = 0;
	for (int r = 0; r < 5; r++) {
		*grown = 0;
		memcpy(frozen, live_sites, TEXT_MAX);
		snprintf(n, sizeof n, r ? "%s:again-%d" : "%s", name, r);
		v = mc_explore(n, fn, arg, o);
		if (v || !*grown) break;
	}
	return v;
}
