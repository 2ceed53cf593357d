/* C01, C02: jobs for the blocking-work threads: every interleaving of the loop thread and
 * the pool threads up to a preemption bound. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#include "msched.h"

typedef struct { int prog, futures; } cfg;
static cfg *C;
static bool c02;
enum { NJ = 4 };
static int runs[NJ], started_n, order[NJ], payload[NJ], answer[NJ], done_n;
static void *array_of(int n, int a, int b) { array_t r = array(); $append_signed(r, a); $append_signed(r, b); (void)n; return r; }
static void *block;                    /* an address that needs all of a pointer */
static void *wanted(int k) {
	if (C->prog == 4) return k ? NULL : block;
	if (C->prog == 11) return (void *)0x123456789010;
	if (C->prog == 7 && k < 2) return (void *)(long)-k;
	return (void *)(long)(1000 + k);
}
static void *plain_job(param_t a) {
	(void)a;
	if (sched_self() == 0) mc_fail("thread", "a job without arguments ran on the submitter's thread");
	if (runs[0]++) mc_fail("twice", "a job without arguments ran twice");
	if (payload[0] != 100) mc_fail("payload", "the job does not see what was written before it was submitted");
	answer[0] = 200;
	return (void *)1000;
}
static void *job(param_t a) {
	int k = a[0].integer, x = a[1].integer;
	if (sched_self() == 0) mc_fail("thread", "job %d ran on the submitter's thread", k);
	if (k < 0 || k >= NJ || x != 10 * k + 3) mc_fail("args", "job got arguments %d, %d", k, x);
	if (runs[k]++) mc_fail("twice", "job %d ran twice", k);
	order[started_n++] = k;
	if (payload[k] != 100 + k) mc_fail("payload", "job %d does not see what was written before it was submitted", k);
	answer[k] = 200 + k;
	if (C->prog == 7 && k == 2) return array_of(2, 1002, 77);
	return wanted(k);
}
static promise *submit(int k) {
	payload[k] = 100 + k;
	return queue_work(futures_pool(), job, 2, k, 10 * k + 3);
}
static void check(int k, values_t v) {
	if (!runs[k]) mc_fail("early", "the submitter of job %d was released before the job ran", k);
	if (C->prog == 7 && k == 2 ? v.integer != 1002 : v.object != wanted(k)) mc_fail("result", "the submitter of job %d reads %d", k, v.integer);
	if (answer[k] != 200 + k) mc_fail("answer", "the submitter of job %d does not see what the job wrote", k);
	done_n++;
}
static bool early;
static int then_sum, then_n;
static void then(tuple_t v) { then_n++; then_sum += v->integer; }
static void *sub(param_t a) { int k = a[0].integer; check(k, queue_get(submit(k))); return 0; }
static void *main_task(param_t args) {
	switch (C->prog) {
	case 0: check(0, queue_get(submit(0))); break;
	case 1: { promise *a = submit(0), *b = submit(1); check(0, queue_get(a)); check(1, queue_get(b)); break; }
	case 2: { promise *a = submit(0), *b = submit(1); check(1, queue_get(b)); check(0, queue_get(a)); break; }
	case 3: {
		array_t w = array();
		for (int k = 0; k < 2; k++) { promise *p = submit(k); $append(w, p); }
		queue_wait(w, then);
		if (then_n != 2 || then_sum != 2001) mc_fail("then", "queue_wait called back %d times with sum %d", then_n, then_sum);
		for (int k = 0; k < 2; k++) if (answer[k] != 200 + k) mc_fail("answer", "after queue_wait what job %d wrote is not seen", k);
		break; }
	case 4: {
		promise *p = alloc_promise();
		for (int k = 0; k < 2; k++) {
			payload[k] = 100 + k;
			promise_work(p, job, 2, k, 10 * k + 3);
			check(k, promise_wait(p));
		}
		promise_clean(p);
		break; }
	case 5: {
		uint32_t a = async_task((param_func_t)sub, 1, 0), b = async_task((param_func_t)sub, 1, 1);
		await_for(a); await_for(b);
		if (done_n != 2) mc_fail("lost", "%d of 2 submitters done", done_n);
		break; }
	case 7: for (int k = 0; k < 3; k++) check(k, queue_get(submit(k))); break;
	case 9: { promise *a = submit(0); while (queue_is_valid(a)) yield(); if (answer[0] != 200) mc_fail("answer", "a job that is done wrote nothing"); check(0, queue_get(a)); break; }
	case 10: {
		payload[0] = 100;
		promise *a = queue_work(futures_pool(), plain_job, 0);
		if (!a) mc_fail("dropped", "a job without arguments is not taken");
		check(0, queue_get(a));
		a = alloc_promise();
		runs[0] = 0;
		if (promise_work(a, plain_job, 0) != a) mc_fail("dropped", "a job without arguments is not taken");
		check(0, promise_wait(a));
		promise_clean(a);
		break; }
	case 11: check(0, queue_get(submit(0))); break;
	case 8: { promise *a = submit(0); check(0, queue_get(a)); break; }
	case 6: { promise *a = submit(0); check(0, queue_get(a)); promise *b = submit(1); check(1, queue_get(b)); break; }
	}
	if (C->futures == 1) for (int k = 1; k < started_n; k++) if (order[k] < order[k - 1]) mc_fail("order", "job %d started before job %d", order[k - 1], order[k]);
	mc_obs("p%d order", C->prog);
	for (int k = 0; k < started_n; k++) mc_obs(" %d", order[k]);
	mc_done();
	return 0;
}
void __real__Exit(int);
/* the library ends the process like this after a fault in a job that nobody catches */
void __wrap__Exit(int rc) {
	if (C && C->prog == 11) mc_fail("wide-number", "a job that returns the number 0x123456789010 ends the process");
	__real__Exit(rc);
}
static void scn(void *arg) {
	C = arg;
	if ((block = malloc(300000))) { memset(block, 0x5a, 300000); block = (char *)block + 4096; }
	sched_start();
	sched_cpus = C->futures + 1;
	sched_stall = 24;
	if (events_init(64)) mc_fail("init", "events_init failed");
	if (C->prog == 8) { sched_on(); early = true; }
	events_t *loop = events_init_pool(C->futures);
	ex_signal_default();
	if (mc_verbose) mc_note("");
	for (int k = 0; c02 && k < NJ; k++) {
		sched_watch(&payload[k], sizeof payload[k], "what the submitter wrote");
		sched_watch(&answer[k], sizeof answer[k], "what the job wrote");
	}
	async_task((param_func_t)main_task, 0);
	if (!early) sched_on();
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	const char *pr = "C01";
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--property")) pr = argv[i + 1];
	c02 = !strcmp(pr, "C02");
	mc_init(argc, argv, pr);
	static cfg c[20];
	static const struct { int prog, futures, quick, thorough; bool c02; } t[] = {
		{0, 1, 2, 3, 1}, {1, 1, 2, 2}, {2, 1, 1, 2}, {3, 1, 1, 2, 1}, {4, 1, 1, 2, 1}, {5, 1, 1, 2}, {6, 1, 1, 2}, {1, 2, 1, 2, 1}, {3, 2, 1, 2, 1}, {5, 2, 1, 2, 1},
		{7, 1, 1, 2}, {8, 1, 1, 2}, {8, 2, 1, 2}, {9, 1, 2, 3, 1}, {10, 1, 1, 2, 1}, {11, 1, 1, 1}};
	for (size_t p = 0; p < sizeof t / sizeof *t; p++) {
		char n[60];
		if (c02 && !t[p].c02) continue;
		mc_opt o = {.bound = MC_THOROUGH ? t[p].thorough : t[p].quick, .timeout_s = 20};
		snprintf(n, sizeof n, "program-%d-threads-%d", t[p].prog, t[p].futures);
		c[p] = (cfg){t[p].prog, t[p].futures};
		sched_explore(n, scn, &c[p], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
