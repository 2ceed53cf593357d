/* S04: every small program of generators (values, yields and sleeps between them, a pipe),
 * consumers and unrelated tasks on the real scheduler. */
#include "sim.h"

#define MSEC 1000000ull
enum { P0, P1, Y, D, W, G, NOP };
static const char *ON[] = {"pull0", "pull1", "yield", "sleep1", "spawn", "make"};
enum { MAXOP = 6, MAXV = 64 };
typedef struct { int m, between, ret, pipe; } gbody;
static gbody gb[8];
static generator_t gen[8];
static uint32_t grid[8];
static int ngen, produced[8], entered[8], returned[8], pulled[8];
static bool ended[8];
static long value[8][MAXV];
static int prog[2][MAXOP], len[2];
static int nother, others, consumers_left;
static void hook(int timeout) { (void)timeout; if (polls_since > 40) vclock += MSEC; if (polls_since > 3000) mc_fail("stuck", "nothing moves any more"); }
static void *gbodyf(param_t a) {
	int g = a[0].integer;
	volatile long canary = 0x44000000 + g;
	int n = 0;
	if (gb[g].pipe) {
		for (;;) {
			int from = pulled[0];
			values_t v = yielded(gen[0]); polls_since = 0;
			if (!v.object) { if (!ended[0]) mc_fail("empty", "the pipe's pull gave the empty value, generator 0 has not finished"); break; }
			(void)from;
			if (v.integer != value[0][pulled[0]]) mc_fail("value", "the pipe pulled %d, next is %ld", v.integer, value[0][pulled[0]]);
			pulled[0]++;
			value[g][produced[g]++] = v.integer + 1000;
			yielding((void *)(long)(v.integer + 1000)); polls_since = 0;
			n++;
			if (pulled[g] < n - 1) mc_fail("ahead", "generator %d went on after its value %d, only %d were pulled", g, n, pulled[g]);
		}
	} else for (int k = 0; k < gb[g].m; k++) {
		if (gb[g].between == 1) yield();
		if (gb[g].between == 2) delay(1);
		polls_since = 0;
		value[g][produced[g]++] = 100 * (g + 1) + k;
		yielding((void *)(long)(100 * (g + 1) + k)); polls_since = 0;
		n++;
		if (pulled[g] < n - 1) mc_fail("ahead", "generator %d went on after its value %d, only %d were pulled", g, n, pulled[g]);
		if (mc_verbose) mc_note("  generator %d continues after value %d\n", g, k);
	}
	if (canary != 0x44000000 + g) mc_fail("state", "generator %d lost its local state", g);
	if (gb[g].between == 1) yield();
	ended[g] = true; polls_since = 0;
	if (mc_verbose) mc_note("  generator %d ends\n", g);
	return gb[g].ret ? (void *)(long)(900 + g) : NULL;
}
static long pull(int who, int g) {
	values_t v = yielded(gen[g]);
	polls_since = 0;
	if (mc_verbose) mc_note("  consumer %d pulls %ld from generator %d\n", who, (long)v.object, g);
	if (!v.object) {
		if (!ended[g]) mc_fail("empty", "a pull gave the empty value, generator %d has not finished", g);
		if (pulled[g] != produced[g]) mc_fail("missing", "a pull gave the empty value, value %d of generator %d was not handed over", pulled[g], g);
		if (task_is_ready(grid[g]) && gb[g].ret && (long)results_for(grid[g]).object != 900 + g) mc_fail("result", "the result of generator %d reads %ld", g, (long)results_for(grid[g]).object);
		return 0;
	}
	if (pulled[g] >= produced[g] || (long)v.object != value[g][pulled[g]])
		mc_fail("value", "pull %d from generator %d gave %ld, %d were yielded and that one is %ld", pulled[g], g, (long)v.object, produced[g], pulled[g] < produced[g] ? value[g][pulled[g]] : -1);
	if (gen_id() != grid[g]) mc_fail("gen-id", "after a pull from generator %d (id %u) the id reads %u", g, grid[g], gen_id());
	pulled[g]++;
	return (long)v.object;
}
static void *other(param_t a) {
	yield(); delay(1); yield();
	polls_since = 0;
	others++;
	return NULL;
}
static void make(int g) {
	gen[g] = generator((param_func_t)gbodyf, 1, g);
	if (!gen[g] || data_type(gen[g]) != DATA_GENERATOR) mc_fail("make", "no generator");
}
static void make_known(int g) {
	make(g);
	grid[g] = gen[g]->rid;
}
static void run_ops(int who) {
	volatile long canary = 0x33000000 + who;
	for (int k = 0; k < len[who]; k++) {
		int op = prog[who][k];
		if (mc_verbose && op > P1) mc_note("  consumer %d %s\n", who, ON[op]);
		switch (op) {
		case P0: pull(who, 0); break;
		case P1: pull(who, 1); break;
		case Y: yield(); break;
		case D: delay(1); break;
		case W: nother++; async_task((param_func_t)other, 1, 0); break;
		case G: { int g = ngen++; make_known(g); break; }
		}
		polls_since = 0;
		if (canary != 0x33000000 + who) mc_fail("state", "consumer %d lost its local state", who);
	}
}
static void *second(param_t a) { run_ops(1); consumers_left--; return NULL; }
static int nfirst;
static void *owner(param_t a) {
	for (int g = 0; g < nfirst; g++) { ngen++; make_known(g); }
	consumers_left = 1;
	if (len[1]) { consumers_left++; async_task((param_func_t)second, 1, 0); }
	run_ops(0);
	while (consumers_left > 1) yield();
	for (int g = ngen - 1; g >= 0; g--) {
		while (pull(0, g)) ;
		if (pull(0, g)) mc_fail("after-end", "generator %d gave a value after the empty one", g);
		if (!gb[g].pipe && pulled[g] != gb[g].m) mc_fail("missing", "%d of the %d values of generator %d arrived", pulled[g], gb[g].m, g);
	}
	consumers_left--;
	return NULL;
}
static bool up, as_main;
static void check(uint64_t tick) {
	if (mc_verbose) {
		for (int g = 0; g < nfirst; g++) mc_note("generator %d: %d values, %s between, returns %s%s; ", g, gb[g].m, gb[g].between ? gb[g].between == 1 ? "yield" : "sleep" : "nothing", gb[g].ret ? "a value" : "null", gb[g].pipe ? ", pipe" : "");
		for (int c = 0; c < 2; c++) { mc_note("consumer %d:", c); for (int k = 0; k < len[c]; k++) mc_note(" %s", ON[prog[c][k]]); mc_note("; "); }
		mc_note("clock %.1f ms per poll\n", tick / 1e6);
	}
	if (!up) { sim_start(64); up = true; if (as_main) events_set_main((main_cb)owner); }
	vtick = tick; vclock = 0; polls_since = 0; on_poll = hook;
	ngen = nother = others = 0; consumers_left = 1;
	memset(produced, 0, sizeof produced); memset(pulled, 0, sizeof pulled); memset(ended, 0, sizeof ended);
	async_task((param_func_t)owner, 1, 0);
	async_run(sim_loop);
	if (consumers_left) mc_fail("lost", "the run ended, %d consumers did not", consumers_left);
	if (others != nother) mc_fail("lost", "the run ended, %d unrelated tasks did not", nother - others);
	for (int g = 0; g < ngen; g++) if (!ended[g]) mc_fail("lost", "the run ended, generator %d did not", g);
	mc_obs("%d generators", ngen);
}
static uint64_t nstr(int letters, int n) { uint64_t t = 1, k = 1; while (n--) { k *= letters; t += k; } return t; }
static int unstr(uint64_t *idx, const int *set, int letters, int n, int *o) {
	uint64_t i = *idx % nstr(letters, n), k = 1;
	*idx /= nstr(letters, n);
	int l = 0;
	while (i >= k) { i -= k; k *= letters; l++; }
	for (int j = 0; j < l; j++) { o[j] = set[i % letters]; i /= letters; }
	return l;
}
static const int ALL[] = {P0, P1, Y, D, W, G};
typedef struct { int l0, n0, l1, n1; } cfg;
/* generator shapes: values 0..3, between 0..2, result or null */
static uint64_t space(cfg *c) { return nstr(c->l0, c->n0) * nstr(c->l1, c->n1) * (4 * 3) * (4 * 3 + 1) * 2 * 2; }
static void one(uint64_t idx, void *arg) {
	cfg *c = arg;
	memset(gb, 0, sizeof gb);
	len[0] = unstr(&idx, ALL, c->l0, c->n0, prog[0]);
	len[1] = unstr(&idx, ALL, c->l1, c->n1, prog[1]);
	gb[0].m = idx % 4; idx /= 4; gb[0].between = idx % 3; idx /= 3;
	int s = idx % 13; idx /= 13;
	if (s == 12) gb[1].pipe = 1; else { gb[1].m = s % 4; gb[1].between = s / 4; }
	gb[0].ret = 1; gb[1].ret = idx % 2; idx /= 2;
	bool p1 = false; int made = 0;
	for (int w = 0; w < 2; w++) for (int k = 0; k < len[w]; k++) { p1 |= prog[w][k] == P1; made += prog[w][k] == G; }
	nfirst = 2;
	if (!p1 && !gb[1].pipe && s) mc_skip();    /* nobody looks at the second one: one shape is enough */
	if (made > 2) mc_skip();
	for (int g = 2; g < 8; g++) { gb[g].m = g - 1; gb[g].ret = 0; gb[g].between = g % 3; }
	check(idx ? 1500000 : 0);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "S04");
	mc_opt o = {.timeout_s = 20, .recycle = 2000};
	static cfg q1 = {5, 4, 3, 1}, q2 = {6, 3, 4, 2}, t1 = {5, 5, 3, 2}, m1 = {4, 2, 2, 0}, m2 = {6, 2, 2, 1};
	mc_enum("programs-4-1", space(&q1), one, &q1, o);
	mc_enum("programs-3-2", space(&q2), one, &q2, o);
	if (MC_THOROUGH) mc_enum("programs-5-2", space(&t1), one, &t1, o);
	as_main = true;
	o.recycle = 1;
	mc_enum("main-2-0", space(&m1), one, &m1, o);
	if (MC_THOROUGH) mc_enum("main-2-1", space(&m2), one, &m2, o);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
