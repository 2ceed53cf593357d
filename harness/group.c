/* S03: every small task group (workers that return, return null, yield, sleep, spawn, group again)
 * among every small set of outside tasks, under a virtual clock. */
#include "sim.h"

#define MSEC 1000000ull
enum { R, N, Y1, Y3N, D1, D2N, YD, DY, SPAWN, NEST, AW, NKIND };
static const char *KN[] = {"ret", "null", "yield-ret", "yield3-null", "sleep1-ret", "sleep2-null", "yield-sleep3-ret", "sleep1-yield2-ret", "spawn-ret", "group-ret", "await-ret"};
enum { ORET, OYIELD, OSLEEP, OLONG, OGROUP, NOUT };
static const char *ON[] = {"ret", "yield4", "sleep2-yield", "sleep60", "group"};
enum { MAXT = 80 };
static int nw, kind[6], nout, out[3], between, post, again;
static bool done[MAXT], inside[MAXT];
static int ninst, live_group;
static uint32_t rid[MAXT];
static unsigned last_done;          /* poll number when the last worker ended */
static uint64_t last_clock;
static void hook(int timeout) {
	(void)timeout;
	if (polls_since > 40) { vclock += MSEC; polls_since = 0; }
}
static void say(const char *who, int i, const char *what) { if (mc_verbose) mc_note("  [%.1f ms] %s %d %s\n", vclock / 1e6, who, i, what); }
static void *leaf(param_t a) {
	int i = a[0].integer;
	polls_since = 0;
	yield();
	done[i] = true;
	return (void *)(long)(500 + i);
}
static void collect(const char *who, array_t got, int first, int n, const int *inst, const bool *gives) {
	(void)first;
	int want = 0;
	for (int i = 0; i < n; i++) {
		if (!done[inst[i]]) mc_fail("early", "%s: the wait returned, worker %d had not ended", who, i);
		want += gives[i];
	}
	int have = got ? (int)$size(got) : 0;
	if (have != want) mc_fail("count", "%s: %d results collected, %d workers produced one", who, have, want);
	bool seen[8] = {0};
	for (int k = 0; k < have; k++) {
		uint32_t id = (uint32_t)got[k].max_size;
		int w = -1;
		for (int i = 0; i < n; i++) if (rid[inst[i]] == id) w = i;
		if (w < 0 || !gives[w]) mc_fail("foreign", "%s: collected id %u is not that of a worker with a result", who, id);
		if (seen[w]) mc_fail("twice", "%s: the result of worker %d was collected twice", who, w);
		seen[w] = true;
		if (!task_is_ready(id) || (long)results_for(id).object != 500 + inst[w])
			mc_fail("value", "%s: the result of worker %d reads %ld, not %d", who, w, (long)results_for(id).object, 500 + inst[w]);
	}
}
static void *worker(param_t a) {
	int i = a[0].integer, k = a[1].integer;
	volatile long canary = 0x66000000 + i;
	polls_since = 0;
	say("worker", i, "starts");
	void *r = (void *)(long)(500 + i);
	switch (k) {
	case R: break;
	case N: r = NULL; break;
	case Y1: yield(); break;
	case Y3N: yield(); yield(); yield(); r = NULL; break;
	case D1: delay(1); break;
	case D2N: delay(2); r = NULL; break;
	case YD: yield(); delay(3); break;
	case DY: delay(1); yield(); yield(); break;
	case SPAWN: { int c = ninst++; rid[c] = async_task((param_func_t)leaf, 1, c); break; }
	case AW: { int c = ninst++; rid[c] = async_task((param_func_t)leaf, 1, c); values_t v = await_for(rid[c]);
		if (!done[c] || (long)v.object != 500 + c) mc_fail("await", "a worker's await gave %ld", (long)v.object); break; }
	case NEST: {
		task_group_t *g = task_group();
		int sub[2]; bool gives[2] = {true, true};
		for (int j = 0; j < 2; j++) { sub[j] = ninst++; rid[sub[j]] = async_task((param_func_t)leaf, 1, sub[j]); }
		array_t got = tasks_wait(g);
		collect("inner group", got, 0, 2, sub, gives);
		break; }
	}
	polls_since = 0;
	if (canary != 0x66000000 + i) mc_fail("state", "worker %d lost its local state", i);
	done[i] = true; last_done = polls; last_clock = vclock;
	say("worker", i, "ends");
	return r;
}
static void *outside(param_t a) {
	int i = a[0].integer, k = a[1].integer;
	polls_since = 0;
	switch (k) {
	case OYIELD: yield(); yield(); yield(); yield(); break;
	case OSLEEP: delay(2); yield(); break;
	case OLONG: delay(60); break;
	case OGROUP: { /* a group of its own at the same time */
		task_group_t *g = task_group();
		int sub[3]; bool gives[3] = {true, false, true};
		static const int KO[3] = {D1, N, Y1};
		for (int j = 0; j < 3; j++) { sub[j] = ninst++; rid[sub[j]] = async_task((param_func_t)worker, 2, sub[j], KO[j]); }
		array_t got = tasks_wait(g);
		collect("other group", got, 0, 3, sub, gives);
		break; }
	}
	polls_since = 0;
	done[i] = true;
	return (void *)(long)(500 + i);
}
static bool gives_result(int k) { return k != N && k != Y3N && k != D2N; }
static int outinst[3];
static void group_round(int round) {
	int inst[6]; bool gives[6];
	task_group_t *g = task_group();
	if (!is_taskgroup(g)) mc_fail("type", "a new group is not one");
	for (int w = 0; w < nw; w++) {
		inst[w] = ninst++; gives[w] = gives_result(kind[w]);
		rid[inst[w]] = async_task((param_func_t)worker, 2, inst[w], kind[w]);
		if ((int)tasks_count(g) != w + 1) mc_fail("group-size", "%d workers created, the group counts %d", w + 1, (int)tasks_count(g));
		if (between == 1) { yield(); polls_since = 0; }
		if (between == 2) { delay(1); polls_since = 0; }
	}
	last_done = polls; last_clock = vclock;
	uint64_t before = vclock;
	say("owner", round, "waits");
	array_t got = tasks_wait(g);
	polls_since = 0;
	say("owner", round, "continues");
	collect("group", got, 0, nw, inst, gives);
	/* at most the turns everyone gets while the owner goes through its list */
	if (polls - last_done > 60) mc_fail("late", "the wait returned %u turns after its last worker ended", polls - last_done);
	for (int j = 0; j < nout; j++) if (out[j] == OLONG && round == 0 && vtick == 0 && done[outinst[j]])
		mc_fail("foreign-wait", "the wait went on until an outside task ended (%.1f ms)", (vclock - before) / 1e6);
}
static void *owner(param_t a) {
	volatile long canary = 0x55000001;
	int me = a ? a[0].integer : 0;
	for (int j = 0; j < nout; j++) { int c = outinst[j] = ninst++; rid[c] = async_task((param_func_t)outside, 2, c, out[j]); }
	group_round(0);
	if (again) { int c = ninst++; rid[c] = async_task((param_func_t)outside, 2, c, OYIELD); group_round(1); }
	for (int j = 0; j < post; j++) { if (j == 2) delay(4); else yield(); polls_since = 0; }
	if (post) { /* tasks created afterwards are ordinary ones */
		int c = ninst++; rid[c] = async_task((param_func_t)outside, 2, c, ORET);
		values_t v = await_for(rid[c]);
		if ((long)v.object != 500 + c) mc_fail("await", "await after the group gave %ld", (long)v.object);
	}
	if (canary != 0x55000001) mc_fail("state", "the owner lost its local state");
	done[me] = true;
	return (void *)(long)(500 + me);
}
static bool up, as_main;
static void check(uint64_t tick) {
	if (mc_verbose) {
		mc_note("workers:"); for (int i = 0; i < nw; i++) mc_note(" %s", KN[kind[i]]);
		mc_note("; outside:"); for (int i = 0; i < nout; i++) mc_note(" %s", ON[out[i]]);
		mc_note("; between %s, afterwards %d, groups %d, clock %.1f ms per poll\n", between ? between == 1 ? "yield" : "sleep" : "-", post, 1 + again, tick / 1e6);
	}
	if (!up) { sim_start(64); up = true; if (as_main) events_set_main((main_cb)owner); }
	vtick = tick; vclock = 0; polls_since = 0; ninst = 0; on_poll = hook;
	memset(done, 0, sizeof done);
	ninst = 1;
	rid[0] = async_task((param_func_t)owner, 1, 0);
	async_run(sim_loop);
	for (int i = 0; i < ninst; i++) if (!done[i]) mc_fail("lost", "the run ended, task %d did not", i);
	mc_obs("%d tasks, %.1f ms", ninst, vclock / 1e6);
}
static const int KS[] = {R, N, Y1, D1, D2N, Y3N, YD, DY, SPAWN, AW, NEST};
typedef struct { int kinds, n, outs, variants; bool asmain; } cfg;
static uint64_t nstr(int letters, int n) { uint64_t t = 1, k = 1; while (n--) { k *= letters; t += k; } return t; }
static int unstr(uint64_t *idx, int letters, int n, int *o) {
	uint64_t i = *idx % nstr(letters, n), k = 1;
	*idx /= nstr(letters, n);
	int len = 0;
	while (i >= k) { i -= k; k *= letters; len++; }
	for (int j = 0; j < len; j++) { o[j] = i % letters; i /= letters; }
	return len;
}
static uint64_t space(cfg *c) { return nstr(c->kinds, c->n) * nstr(NOUT, c->outs) * 3 * 4 * 2 * 2; }
static void one(uint64_t idx, void *arg) {
	cfg *c = arg;
	static const int POST[] = {0, 1, 2, 3};
	nw = unstr(&idx, c->kinds, c->n, kind);
	for (int i = 0; i < nw; i++) kind[i] = KS[kind[i]];
	nout = unstr(&idx, NOUT, c->outs, out);
	between = idx % 3; idx /= 3;
	post = POST[idx % 4]; idx /= 4;
	again = idx % 2; idx /= 2;
	if (!c->variants && (post == 1 || post == 2)) mc_skip();
	check(idx ? 1500000 : 0);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "S03");
	mc_opt o = {.timeout_s = 20, .recycle = 2000};
	static cfg a = {11, 2, 2, 1}, b = {11, 3, 1, 1}, d = {7, 4, 1, 0}, t = {11, 4, 2, 0}, m = {8, 2, 1, 0}, u = {8, 5, 1, 0};
	mc_enum("groups-2-2", space(&a), one, &a, o);
	mc_enum("groups-3-1", space(&b), one, &b, o);
	mc_enum("groups-4-1", space(&d), one, &d, o);
	if (MC_THOROUGH) mc_enum("groups-4-2", space(&t), one, &t, o);
	if (MC_THOROUGH) mc_enum("groups-5-1", space(&u), one, &u, o);
	as_main = true;
	o.recycle = 1;
	mc_enum("main-2-1", space(&m), one, &m, o);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
