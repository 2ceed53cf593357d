/* C05, C02: locks, threads, thread-locals and thread futures: every interleaving up to a
 * preemption bound. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#include "msched.h"

static bool c02;
enum { NT = 3 };
static int runs[NT], ends[NT], payload[NT], answer[NT];
static void watch_all(void) {
	for (int k = 0; k < NT; k++) {
		sched_watch(&payload[k], sizeof payload[k], "what the starter wrote");
		sched_watch(&answer[k], sizeof answer[k], "what the thread wrote");
	}
}
static void begin(int k, int x) {
	if (sched_self() == 0) mc_fail("thread", "thread function %d runs on its starter's thread", k);
	if (k < 0 || k >= NT || x != 10 * k + 3) mc_fail("args", "a thread got arguments %d, %d", k, x);
	if (runs[k]++) mc_fail("twice", "thread function %d ran twice", k);
	if (payload[k] != 100 + k) mc_fail("payload", "thread %d does not see what was written before its start", k);
}
static void seen(int k) {
	if (!runs[k]) mc_fail("early", "thread %d counts as ended before it ran", k);
	if (answer[k] != 200 + k) mc_fail("answer", "what thread %d wrote is not seen after its end", k);
}

/* ---- spin locks */
static atomic_spinlock lk, lk2;
static int inside, count, loops, nthr, order2;
static int lock_thread(void *a) {
	int k = (int)(intptr_t)a;
	for (int i = 0; i < loops; i++) {
		atomic_lock(&lk);
		if (inside++) mc_fail("exclusion", "two threads are inside the lock");
		count++;
		if (nthr == 2 && k == 0) { atomic_lock(&lk2); order2++; atomic_unlock(&lk2); }
		inside--;
		atomic_unlock(&lk);
	}
	return 0;
}
static void scn_lock(void *arg) {
	int v = (int)(intptr_t)arg;
	nthr = v / 10; loops = v % 10;
	sched_start();
	atomic_flag_clear(&lk); atomic_flag_clear(&lk2);
	sched_watch(&count, sizeof count, "the data the lock protects");
	sched_watch(&inside, sizeof inside, "the data the lock protects");
	sched_on();
	os_thread_t t[3];
	for (int k = 0; k + 1 < nthr; k++) t[k] = os_create(lock_thread, (void *)(intptr_t)k);
	lock_thread((void *)(intptr_t)(nthr - 1));
	for (int k = 0; k + 1 < nthr; k++) if (os_join(t[k], -1, NULL)) mc_fail("join", "os_join failed");
	if (count != nthr * loops) mc_fail("lost", "%d of %d protected additions took place", count, nthr * loops);
	mc_obs("count %d", count);
	mc_done();
}

/* ---- os_create, os_join, os_exit, os_detach */
static int os_prog;
static atomic_int flag;
static int os_thread(void *a) {
	int k = (int)(intptr_t)a;
	begin(k, 10 * k + 3);
	answer[k] = 200 + k;
	ends[k]++;
	if (os_prog == 1) os_exit(7 + k);
	if (os_prog == 4) atomic_fetch_add(&flag, 1);
	return 40 + k;
}
static os_thread_t start(int k) { payload[k] = 100 + k; os_thread_t t = os_create(os_thread, (void *)(intptr_t)k); if (t == OS_NULL) mc_fail("create", "os_create failed"); return t; }
static void joined(int k, os_thread_t t, uint32_t ms) {
	int code = -5, r, tries = 0;
	while ((r = os_join(t, ms, &code)) != 0) {
		if (ms == (uint32_t)-1 || r != -1 || errno != ETIMEDOUT || code != -5) mc_fail("join", "os_join(%u) returns %d errno %d code %d", ms, r, errno, code);
		tries++;
	}
	if (code != (os_prog == 1 ? 7 + k : 40 + k)) mc_fail("code", "thread %d ended with %d", k, code);
	seen(k);
	if (!ends[k]) mc_fail("early", "os_join of thread %d returned before its end", k);
}
static void scn_os(void *arg) {
	os_prog = (int)(intptr_t)arg;
	sched_start();
	watch_all();
	sched_on();
	os_thread_t a = start(0), b = start(1);
	switch (os_prog) {
	case 0: case 1: joined(0, a, -1); joined(1, b, -1); break;
	case 2: joined(1, b, 0); joined(0, a, 0); break;
	case 3: joined(0, a, 5); joined(1, b, 1); break;
	case 4:
		if (os_detach(a) || os_detach(b)) mc_fail("detach", "os_detach failed");
		while (atomic_load(&flag) != 2) sched_yield_point();
		seen(0); seen(1);
		break;
	}
	mc_obs("os%d", os_prog);
	mc_done();
}

/* ---- thread-locals */
thrd_static(int, tl_a, NULL)
typedef struct { int x, y; } pair;
thrd_local(pair, tl_b, NULL)
static int tl_thread(void *a) {
	int k = (int)(intptr_t)a;
	if (!is_tl_a_null() || !is_tl_b_null()) mc_fail("initial", "thread %d starts with a thread-local that is set", k);
	if (*tl_a() != 0 || tl_b()->x || tl_b()->y) mc_fail("initial", "thread %d starts with thread-locals %d %d", k, *tl_a(), tl_b()->x);
	if (is_tl_a_null() || is_tl_b_null()) mc_fail("initial", "a thread-local in use counts as not set");
	for (int i = 1; i <= 2; i++) {
		*tl_a() = 100 * k + i; tl_b()->x = 10 * k; tl_b()->y = i;
		sched_point("between");
		if (*tl_a() != 100 * k + i || tl_b()->x != 10 * k || tl_b()->y != i) mc_fail("private", "thread %d reads %d %d %d from its thread-locals", k, *tl_a(), tl_b()->x, tl_b()->y);
	}
	int own = k;
	tl_a_set(&own);
	sched_point("set");
	if (tl_a() != &own) mc_fail("private", "thread %d does not get the pointer it set", k);
	tl_a_reset();
	if (!is_tl_a_null()) mc_fail("reset", "a thread-local is still set after its reset");
	return 0;
}
static void scn_tl(void *arg) {
	int n = (int)(intptr_t)arg;
	sched_start();
	*tl_a() = 77; tl_b()->x = 78;
	sched_on();
	os_thread_t t[3];
	for (int k = 0; k < n; k++) t[k] = os_create(tl_thread, (void *)(intptr_t)(k + 1));
	sched_point("main");
	if (*tl_a() != 77 || tl_b()->x != 78) mc_fail("private", "the main thread's thread-locals changed");
	for (int k = 0; k < n; k++) os_join(t[k], -1, NULL);
	if (*tl_a() != 77 || tl_b()->x != 78) mc_fail("private", "the main thread's thread-locals changed");
	mc_obs("tl%d", n);
	mc_done();
}

/* ---- futures */
static int f_prog, want_throw[NT];
static void *body(param_t a) {
	int k = a[0].integer;
	begin(k, a[1].integer);
	answer[k] = 200 + k;
	ends[k]++;
	switch (want_throw[k]) {
	case 1: throw(division_by_zero);
	case 2: throw(out_of_memory);
	case 3: return $(1000 + k);
	case 4: return $$(1000 + k, 3000 + k);
	case 5: return NULL;
	}
	return (void *)(long)(1000 + k);
}
static future_t fut(int k) {
	payload[k] = 100 + k;
	future_t f = thrd_async(body, 2, k, 10 * k + 3);
	if (!is_future(f)) mc_fail("future", "thrd_async returns no future");
	return f;
}
static void get(int k, future_t f) {
	volatile int got = 0;
	volatile int v = -99;
	try {
		v = thrd_get(f).integer;
	} catch_any {
		got = str_is((char *)err.name, "division_by_zero") ? 1 : str_is((char *)err.name, "out_of_memory") ? 2 : 9;
	}
	int wt = want_throw[k] == 1 || want_throw[k] == 2 ? want_throw[k] : 0;
	if (got != wt) mc_fail("exception", "thrd_get of thread %d %s exception %d, the thread threw %d", k, got ? "throws" : "returns, no", got, wt);
	int want = want_throw[k] == 5 ? 0 : 1000 + k;
	if (!wt && v != want) mc_fail("result", "thrd_get of thread %d returns %d", k, v);
	seen(k);
}
static void *outer(param_t a) {
	int k = a[0].integer;
	begin(k, a[1].integer);
	get(k + 1, fut(k + 1));
	answer[k] = 200 + k;
	ends[k]++;
	return (void *)(long)(1000 + k);
}
static void poll_one(void) { sched_yield_point(); }
static void futures(int prog) {
	f_prog = prog;
	switch (prog) {
	case 0: get(0, fut(0)); break;
	case 1: { future_t a = fut(0), b = fut(1); get(0, a); get(1, b); break; }
	case 2: { future_t a = fut(0), b = fut(1); get(1, b); get(0, a); break; }
	case 3: want_throw[0] = 1; get(0, fut(0)); break;
	case 4: { want_throw[0] = 1; want_throw[1] = 2; future_t a = fut(0), b = fut(1); get(0, a); get(1, b); break; }
	case 5: { want_throw[0] = 1; future_t a = fut(0), b = fut(1); get(1, b); get(0, a); break; }
	case 6: want_throw[0] = 3; get(0, fut(0)); break;
	case 7: { want_throw[0] = 4; want_throw[1] = 3; future_t a = fut(0), b = fut(1); get(1, b); get(0, a); break; }
	case 8: { future_t a = fut(0); get(0, a); if (thrd_get(a).integer != 1000) mc_fail("again", "a second thrd_get returns something else"); break; }
	case 9: { future_t a = fut(0); while (!thrd_is_done(a)) sched_yield_point(); seen(0); get(0, a); break; }
	case 10: { future_t a = fut(0); thrd_wait(a, poll_one); seen(0); get(0, a); break; }
	case 11: { payload[0] = 100; future_t a = thrd_async(outer, 2, 0, 3); get(0, a); seen(1); break; }
	case 12: want_throw[0] = 5; get(0, fut(0)); break;
	case 13: { future_t a = fut(0); get(0, a); want_throw[1] = 1; get(1, fut(1)); get(2, fut(2)); break; }
	case 14: { future_t a = fut(0), b = fut(1), c = fut(2); get(0, a); get(1, b); get(2, c); break; }
	}
	for (int k = 0; k < NT; k++) if (runs[k] != ends[k]) mc_fail("early", "thread %d was still running", k);
}
static void scn_fut(void *arg) {
	sched_start();
	if (c02) watch_all();
	scope_init();
	volatile int p = (int)(intptr_t)arg;
	sched_on();
	futures(p);
	if (sched_threads()) mc_fail("thread-left", "thrd_get returned for every thread, %d of them have not ended", sched_threads());
	mc_obs("future%d", p);
	mc_done();
}
static int fprog_task;
static void *fut_task(param_t a) { (void)a; futures(fprog_task); mc_obs("task future%d", fprog_task); mc_done(); return 0; }
static void scn_fut_task(void *arg) {
	fprog_task = (int)(intptr_t)arg;
	sched_start();
	if (c02) watch_all();
	if (events_init(64)) mc_fail("init", "events_init failed");
	events_t *loop = events_create(60000);
	async_task((param_func_t)fut_task, 0);
	sched_on();
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}

int main(int argc, char **argv) {
	const char *p = "C05";
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--property")) p = argv[i + 1];
	c02 = !strcmp(p, "C02");
	mc_init(argc, argv, p);
	char n[60];
	bool th = MC_THOROUGH;
	mc_opt o = {.timeout_s = 20};
	if (!c02) {
		static const struct { int v, q, t; } l[] = {{21, 4, 6}, {22, 4, 5}, {31, 2, 4}, {32, 2, 3}};
		for (size_t i = 0; i < 4; i++) {
			snprintf(n, sizeof n, "lock-%d-threads-%d-rounds", l[i].v / 10, l[i].v % 10);
			o.bound = th ? l[i].t : l[i].q;
			sched_explore(n, scn_lock, (void *)(intptr_t)l[i].v, o);
		}
		for (int i = 0; i < 5; i++) { snprintf(n, sizeof n, "threads-%d", i); o.bound = th ? 4 : 3; sched_explore(n, scn_os, (void *)(intptr_t)i, o); }
		for (int i = 1; i < 3; i++) { snprintf(n, sizeof n, "locals-%d", i); o.bound = th ? 4 : 3; sched_explore(n, scn_tl, (void *)(intptr_t)i, o); }
	}
	static const int c02p[] = {0, 2, 3, 6, 9, 10, 11};
	for (int i = 0; i < (c02 ? 7 : 15); i++) {
		int k = c02 ? c02p[i] : i;
		o.bound = (k == 14 ? 1 : 2) + th;
		snprintf(n, sizeof n, "future-%d", k);
		sched_explore(n, scn_fut, (void *)(intptr_t)k, o);
		if (k == 0 || k == 3 || k == 9) { snprintf(n, sizeof n, "task-future-%d", k); o.bound = 1 + th; sched_explore(n, scn_fut_task, (void *)(intptr_t)k, o); }
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
