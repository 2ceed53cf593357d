/* S02: every small program of sleeping, busy, yielding and awaiting tasks under a virtual
 * clock; the wake-up rules are checked at every resumption. */
#include "sim.h"

enum { Y, S, A, D0, D1, D2, D5, DL, T1, T3, L1, L2, L3, L4, MAXT = 6, MAXOP = 5 };
static const char *OPN[] = {"yield", "spawn", "await", "sleep0", "sleep1", "sleep2", "sleep5", "sleep4400", "busy1", "busy3", "sleep2900", "sleep3000000", "sleep4400000", "sleep3000000000"};
static const uint32_t MS[] = {0, 0, 0, 0, 1, 2, 5, 4400, 1, 3, 2900, 3000000, 4400000, 3000000000u};
#define MSEC 1000000ull
typedef struct { int n, op[MAXOP]; } body;
static body B[3];
static int nroots;
static int ninst, turns[MAXT];
static bool started[MAXT], done[MAXT];
static struct { bool on, passed; uint64_t from, deadline; int snap[MAXT]; } sl[MAXT];
static uint32_t rid[MAXT];
static void look(void) {
	for (int i = 0; i < ninst; i++) if (sl[i].on && !sl[i].passed && vclock >= sl[i].deadline) {
		sl[i].passed = true; memcpy(sl[i].snap, turns, sizeof turns);
	}
}
static void poll_hook(int timeout) {
	(void)timeout;
	if (polls_since > 30) { /* everyone sleeps: on to the next deadline */
		uint64_t next = ~0ull;
		for (int i = 0; i < ninst; i++) if (sl[i].on && sl[i].deadline < next) next = sl[i].deadline;
		vclock = next != ~0ull && next > vclock + 10 * MSEC ? next - 5 * MSEC : vclock + MSEC;
		polls_since = 0;
	}
	look();
}
static void turn(int i) { turns[i]++; polls_since = 0; look(); mc_step(1); }
static void sleep_ms(int inst, uint32_t ms) {
	sl[inst].from = vclock; sl[inst].deadline = vclock + ms * MSEC; sl[inst].passed = false; sl[inst].on = true;
	look();
	uint32_t r = delay(ms);
	look();
	if (mc_verbose) mc_note("  [%.1f ms] task %d wakes from sleep(%u), reported %u\n", vclock / 1e6, inst, ms, r);
	if (vclock < sl[inst].deadline) mc_fail("early", "task %d woke %.1f ms before its deadline", inst, (sl[inst].deadline - vclock) / 1e6);
	if (r < ms) mc_fail("report", "sleep of %u ms reported %u ms", ms, r);
	for (int j = 0; j < ninst; j++) {
		if (j != inst && turns[j] - sl[inst].snap[j] > 2)
			mc_fail("late", "task %d ran %d times between the deadline of task %d and its wake-up", j, turns[j] - sl[inst].snap[j], inst);
		if (j != inst && sl[j].on && sl[j].deadline < sl[inst].deadline)
			mc_fail("order", "task %d (deadline %.1f ms) woke before task %d (deadline %.1f ms)", inst, sl[inst].deadline / 1e6, j, sl[j].deadline / 1e6);
	}
	sl[inst].on = false;
}
static void *task_body(param_t a) {
	int inst = a[0].integer, level = a[1].integer, last = -1;
	volatile long canary = 0x77000000 + inst;
	if (started[inst]) mc_fail("twice", "task %d started twice", inst);
	started[inst] = true;
	turn(inst);
	for (int k = 0; k < B[level].n; k++) {
		int op = B[level].op[k];
		if (mc_verbose) mc_note("  [%.1f ms] task %d %s\n", vclock / 1e6, inst, OPN[op]);
		switch (op) {
		case Y: yield(); turn(inst); break;
		case S: { int c = ninst++; last = c; rid[c] = async_task((param_func_t)task_body, 2, c, level + 1); break; }
		case A: { unsigned before = polls; values_t v = await_for(rid[last]); if (polls != before) turn(inst); /* else it had ended: no turn was given up */ if (!done[last] || (long)v.object != 200 + last) mc_fail("await", "await of task %d gave %ld, ended %d", last, (long)v.object, done[last]); break; }
		case T1: case T3: vclock += MS[op] * MSEC; look(); break;
		default: sleep_ms(inst, MS[op]); turn(inst); break;
		}
		if (canary != 0x77000000 + inst) mc_fail("state", "task %d lost its local state", inst);
	}
	done[inst] = true;
	return (void *)(long)(200 + inst);
}
static bool up, as_main;
static int idle;
static void check(void) {
	if (mc_verbose) {
		for (int i = 0; i < 3; i++) { mc_note("body%d:", i); for (int k = 0; k < B[i].n; k++) mc_note(" %s", OPN[B[i].op[k]]); mc_note("; "); }
		mc_note("roots %d, clock %.1f ms per poll\n", nroots, vtick / 1e6);
	}
	uint64_t tk = vtick;
	if (!up) { sim_start(64); up = true; if (as_main) events_set_main((main_cb)task_body); }
	vtick = tk; vclock = 0; polls_since = 0; ninst = 0; on_poll = poll_hook;
	memset(turns, 0, sizeof turns); memset(sl, 0, sizeof sl); memset(started, 0, sizeof started); memset(done, 0, sizeof done);
	for (int i = 0; i < nroots; i++) { int c = ninst++; rid[c] = async_task((param_func_t)task_body, 2, c, i); }
	async_run(sim_loop);
	for (int i = 0; i < ninst; i++) if (!done[i]) mc_fail("lost", "the run ended, task %d did not", i);
	mc_obs("%d tasks, %.1f ms", ninst, vclock / 1e6);
}
static uint64_t nstr(int letters, int n) { uint64_t t = 1, k = 1; while (n--) { k *= letters; t += k; } return t; }
static int unstr(uint64_t *idx, const int *set, int letters, int n, int *o) {
	uint64_t i = *idx % nstr(letters, n), k = 1;
	*idx /= nstr(letters, n);
	int len = 0;
	while (i >= k) { i -= k; k *= letters; len++; }
	for (int j = 0; j < len; j++) { o[j] = set[i % letters]; i /= letters; }
	return len;
}
static const int ALL[] = {Y, D1, D2, T3, D5, S, A, DL, D0, T1};
/* deadlines apart by more than 32 bits of nanoseconds, microseconds, milliseconds hold */
static const int FAR[] = {Y, D1, DL, L1, L2, L3, L4, S, A};
typedef struct { int l0, n0, l1, n1, l2, n2; const int *set; } cfg;
static uint64_t space(cfg *c) { return nstr(c->l0, c->n0) * nstr(c->l1, c->n1) * nstr(c->l2, c->n2) * 3 * 3; }
static bool spawns(body *b, bool *ok) {
	bool s = false;
	for (int k = 0; k < b->n; k++) { if (b->op[k] == S) s = true; if (b->op[k] == A && !s) *ok = false; }
	return s;
}
static void one(uint64_t idx, void *arg) {
	cfg *c = arg;
	bool ok = true;
	const int *set = c->set ? c->set : ALL;
	memset(B, 0, sizeof B);
	B[0].n = unstr(&idx, set, c->l0, c->n0, B[0].op);
	B[1].n = unstr(&idx, set, c->l1, c->n1, B[1].op);
	B[2].n = unstr(&idx, set, c->l2, c->n2, B[2].op);
	nroots = 1 + idx % 3; idx /= 3;
	static const uint64_t ticks[] = {0, 400000, 1500000};
	vtick = ticks[idx];
	int n = nroots, sp = 0;
	for (int i = 0; i < 3; i++) for (int k = 0; k < B[i].n; k++) if (B[i].op[k] == S) { sp++; if (i == 2) ok = false; }
	bool s0 = spawns(&B[0], &ok), s1 = spawns(&B[1], &ok);
	spawns(&B[2], &ok);
	/* bodies nobody starts: one representative; at most MAXT tasks */
	if (nroots < 2 && !s0 && B[1].n) ok = false;
	if (nroots < 3 && !(s1 && (nroots >= 2 || s0)) && B[2].n) ok = false;
	int n0 = 0, n1 = 0;
	for (int k = 0; k < B[0].n; k++) n0 += B[0].op[k] == S;
	for (int k = 0; k < B[1].n; k++) n1 += B[1].op[k] == S;
	n += n0 + n1 * (n0 + (nroots >= 2));
	if (!ok || n > MAXT) mc_skip();
	(void)sp;
	check();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "S02");
	mc_opt o = {.timeout_s = 20, .recycle = 2000};
	static cfg q1 = {7, 3, 7, 3, 5, 1}, q2 = {10, 2, 10, 2, 5, 2}, t1 = {7, 4, 7, 3, 5, 2}, m1 = {7, 2, 7, 2, 5, 1}, m2 = {7, 3, 7, 2, 5, 1}, f1 = {9, 2, 9, 2, 7, 1, FAR}, f2 = {9, 2, 9, 2, 7, 2, FAR};
	mc_enum("programs-3-3-1", space(&q1), one, &q1, o);
	mc_enum("programs-2-2-2", space(&q2), one, &q2, o);
	mc_enum("far-2-2-1", space(&f1), one, &f1, o);
	if (MC_THOROUGH) mc_enum("far-2-2-2", space(&f2), one, &f2, o);
	if (MC_THOROUGH) mc_enum("programs-4-3-2", space(&t1), one, &t1, o);
	as_main = true;
	o.recycle = 1;
	mc_enum("main-2-2-1", space(&m1), one, &m1, o);
	if (MC_THOROUGH) mc_enum("main-3-2-1", space(&m2), one, &m2, o);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
