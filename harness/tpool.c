/* C03, C02: tasks for the multi-threaded task pool: every interleaving of the starter and
 * the pool threads up to a preemption bound. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#include "msched.h"

typedef struct { int prog, pools; } cfg;
static cfg *C;
static bool c02;
enum { NJ = 6 };
static int runs[NJ], ended[NJ], payload[NJ], answer[NJ], tid[NJ], cancelled;
static uint32_t rid[NJ];
#define PLAIN __attribute__((no_sanitize("thread"), noinline))   /* bookkeeping, not part of what is explored */
PLAIN static void enter(int k, int x) {
	if (k < 0 || k >= NJ || x != 10 * k + 3) mc_fail("args", "a task got arguments %d, %d", k, x);
	if (runs[k]++) mc_fail("twice", "task %d ran twice", k);
	tid[k] = sched_self();
}
PLAIN static void leave(int k) {
	if (tid[k] != sched_self()) mc_fail("moved", "task %d started on thread %d and goes on on thread %d", k, tid[k], sched_self());
	ended[k]++;
}
PLAIN static bool has_ended(int k) { return ended[k]; }
PLAIN static void give(int k, uint32_t r) {
	for (int i = 0; i < NJ; i++) if (i != k && rid[i] == r) mc_fail("rid", "two tasks have the result id %u", r);
	rid[k] = r;
}
PLAIN static void on_pool(int k) { if (tid[k] == 0) mc_fail("thread", "task %d ran on the starter's thread", k); }
static void *value_of(int k) {
	if (C->prog == 4) return k == 0 ? NULL : (void *)(intptr_t)-1;
	return (void *)(intptr_t)(1000 + k);
}
static void *work(param_t a);
static uint32_t start(int k) {
	payload[k] = 100 + k;
	uint32_t r = go(work, 2, k, 10 * k + 3);
	give(k, r);
	return r;
}
static void seen(int k) {      /* after task k is known to have finished */
	if (!has_ended(k)) mc_fail("early", "task %d counts as finished before it returned", k);
	if (answer[k] != 200 + k) mc_fail("answer", "what task %d wrote before it returned is not seen", k);
}
static void check(int k, values_t v) {
	seen(k);
	if (v.object != value_of(k)) mc_fail("result", "the result of task %d is read as %p", k, v.object);
	if (!task_is_ready(rid[k])) mc_fail("ready", "task %d is finished but not ready", k);
}
static void *work(param_t a) {
	int k = a[0].integer, x = a[1].integer;
	enter(k, x);
	if (payload[k] != 100 + k) mc_fail("payload", "task %d does not see what was written before it was started", k);
	switch (C->prog) {
	case 3: if (k == 0) { uint32_t r = start(1); check(1, await_for(r)); } break;
	case 5: yield(); break;
	case 6: if (k == 0) delay(2); break;
	case 8: while (!task_is_canceled()) yield(); break;
	case 9: if (k == 1) check(0, await_for(rid[0])); break;
	case 10: if (k < 2) start(k + 2); break;
	case 14: case 15: if (k == 0) { uint32_t r = start(3); check(3, await_for(r)); } break;
	case 13: yield(); break;
	case 17: if (k == 0) { waitgroup_t wg = waitgroup(2); start(1); start(2); array_t r = waitfor(wg); if (!r || $size(r) != 2) mc_fail("collected", "a group within a pool task collects %d results", r ? (int)$size(r) : 0); check(1, results_for(rid[1])); check(2, results_for(rid[2])); } break;
	}
	answer[k] = 200 + k;
	leave(k);
	return value_of(k);
}
static void *local(param_t a) { (void)a; yield(); return (void *)(intptr_t)77; }
static void *burn(param_t a) { return a; }
static void group(int cap, int n, int from) {
	bool ids[NJ] = {0};
	waitgroup_t wg = waitgroup(cap);
	if (!is_waitgroup(wg)) mc_fail("group", "waitgroup() is none");
	for (int k = from; k < from + n; k++) start(k);
	if (tasks_count(wg) != (size_t)n) mc_fail("count", "a group of %d tasks counts %zu", n, tasks_count(wg));
	array_t r = waitfor(wg);
	size_t m = r ? $size(r) : 0, want = 0;
	for (int k = from; k < from + n; k++) { seen(k); if (value_of(k)) want++; }
	if (m != want) mc_fail("collected", "%zu of %zu results are collected", m, want);
	if (r) { foreach(x in r) {
		int k = -1;
		for (int i = from; i < from + n; i++) if (rid[i] == (uint32_t)x.max_size) k = i;
		if (k < 0) mc_fail("foreign", "result id %zu is none of the group's", x.max_size);
		if (ids[k]++) mc_fail("collected", "result id %zu is collected twice", x.max_size);
		check(k, results_for(x.max_size));
	} }
}
static void *main_task(param_t args) {
	(void)args;
	switch (C->prog) {
	case 0: { uint32_t a = start(0); check(0, await_for(a)); on_pool(0); break; }
	case 1: case 4: case 5: case 6: { uint32_t a = start(0), b = start(1); check(0, await_for(a)); check(1, await_for(b)); on_pool(0); on_pool(1); break; }
	case 2: { uint32_t a = start(0), b = start(1); check(1, await_for(b)); check(0, await_for(a)); break; }
	case 3: { uint32_t a = start(0); check(0, await_for(a)); check(1, results_for(rid[1])); break; }
	case 7: { uint32_t a = start(0); while (!task_is_ready(a)) yield(); check(0, results_for(a)); break; }
	case 8: { uint32_t a = start(0), b = start(1); task_set_canceled(b); check(1, await_for(b)); task_set_canceled(a); check(0, await_for(a)); break; }
	case 9: { uint32_t a = start(0), b = start(1); check(1, await_for(b)); check(0, await_for(a)); break; }
	case 10: { uint32_t a = start(0), b = start(1); check(0, await_for(a)); check(1, await_for(b)); for (int k = 2; k < 4; k++) check(k, await_for(rid[k])); break; }
	case 11: { uint32_t a = start(0), l = async_task(local, 0), b = start(1); if (await_for(l).integer != 77) mc_fail("result", "a task of the thread itself has another result"); check(0, await_for(a)); check(1, await_for(b)); break; }
	case 12: { uint32_t a = start(0), b = start(1), c = start(2); check(2, await_for(c)); check(0, await_for(a)); check(1, await_for(b)); break; }
	case 13: group(2, 2, 0); break;
	case 14: group(2, 3, 0); check(3, results_for(rid[3])); break;
	case 15: group(6, 2, 0); break;
	case 17: { uint32_t a = start(0); check(0, await_for(a)); break; }
	case 16: group(2, 2, 0); group(2, 2, 2); break;
	}
	mc_obs("p%d", C->prog);
	for (int k = 0; k < NJ; k++) mc_obs(" %d", runs[k] ? tid[k] : -1);
	mc_done();
	return 0;
}
static int burning;
static void *first_task(param_t args) {
	for (int k = 0; k < burning; k++) await_for(async_task(burn, 1, k));
	sched_on();
	return main_task(args);
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = C->pools + 1;
	sched_tick = 250000;
	sched_stall = 24;
	burning = C->prog == 10 || C->prog == 12 ? (C->pools == 1 ? 16 : 64) - (C->prog == 10 ? 5 : 4) : 0;
	if (events_init(64)) mc_fail("init", "events_init failed");
	memset(rid, 0xff, sizeof rid);
	events_t *loop = events_init_pool(0);
	ex_signal_default();
	for (int k = 0; c02 && k < NJ; k++) {
		sched_watch(&payload[k], sizeof payload[k], "what the starter wrote");
		sched_watch(&answer[k], sizeof answer[k], "what the task wrote");
	}
	async_task((param_func_t)first_task, 0);
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	const char *pr = "C03";
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--property")) pr = argv[i + 1];
	c02 = !strcmp(pr, "C02");
	mc_init(argc, argv, pr);
	static cfg c[40];
	static const struct { int prog, pools, quick, thorough; bool c02; } t[] = {
		{0, 1, 2, 3, 1}, {1, 1, 2, 2}, {2, 1, 1, 2, 1}, {3, 1, 1, 2}, {4, 1, 1, 2}, {5, 1, 1, 2}, {6, 1, 1, 2}, {7, 1, 2, 3, 1}, {8, 1, 1, 2}, {9, 1, 1, 2}, {10, 1, 1, 2}, {11, 1, 1, 2}, {12, 1, 1, 2},
		{13, 1, 2, 3, 1}, {14, 1, 1, 2}, {15, 1, 1, 2}, {16, 1, 1, 2}, {17, 1, 1, 2},
		{0, 2, 1, 2}, {2, 2, 1, 2, 1}, {3, 2, 1, 2, 1}, {9, 2, 1, 2, 1}, {10, 2, 1, 2}, {12, 2, 1, 2}, {13, 2, 1, 2, 1}, {14, 2, 1, 2}, {16, 2, 1, 2}};
	for (size_t p = 0; p < sizeof t / sizeof *t; p++) {
		char n[60];
		if (c02 && !t[p].c02) continue;
		mc_opt o = {.bound = MC_THOROUGH ? t[p].thorough : t[p].quick, .timeout_s = 20};
		snprintf(n, sizeof n, "program-%d-pools-%d", t[p].prog, t[p].pools);
		c[p] = (cfg){t[p].prog, t[p].pools};
		sched_explore(n, scn, &c[p], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
