/* C04: the work-stealing queue itself: an owner pushing and taking, thieves stealing, every
 * interleaving up to a preemption bound; every history has to be that of a double-ended
 * queue (brute-force linearizability). */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#include "msched.h"

enum { PUSH, TAKE, STEAL };
typedef struct { int kind, who, val; uint32_t call, ret; } op;   /* val -1: nothing */
static op h[32];
static int nh;
static uint32_t now_;
static events_deque_t *q;
static int payload[12], npush, got[12];
#define TOKEN(i) ((tasks_t *)(uintptr_t)(0x300000000000ull + 4096ull * (i)))

#define PLAIN __attribute__((no_sanitize("thread"), noinline))   /* bookkeeping, not part of what is explored */
PLAIN static int claim(int v) { return got[v]++; }
static int value(tasks_t *t, const char *what) {
	if (!is_ptr_usable(t)) return -1;
	uintptr_t d = (uintptr_t)t - 0x300000000000ull;
	int v = (int)(d / 4096);
	if (d % 4096 || v < 0 || v >= npush) mc_fail("invented", "%s returns %p, which was never pushed", what, (void *)t);
	if (claim(v)) mc_fail("twice", "task %d came out twice", v);
	if (payload[v] != 50 + v) mc_fail("payload", "what was written before task %d was pushed is not seen", v);
	return v;
}
PLAIN static int begin(int kind) { int i = nh++; h[i] = (op){kind, sched_self(), -1, ++now_, 0}; return i; }
PLAIN static void end(int i, int v) { h[i].val = v; h[i].ret = ++now_; }
static void push(void) {
	int v = npush++, i = begin(PUSH);
	payload[v] = 50 + v;
	deque_push(q, TOKEN(v));
	end(i, v);
}
static int take(void) { int i = begin(TAKE), v = value(deque_take(q), "deque_take"); end(i, v); return v; }
static int steal(void) { int i = begin(STEAL), v = value(deque_steal(q), "deque_steal"); end(i, v); return v; }
static int steals;
static int thief(void *a) { (void)a; for (int i = 0; i < steals; i++) steal(); return 0; }

/* is there an order of the operations, respecting real time, that a double-ended queue allows */
static bool lin(uint32_t done, int lo, int hi, const int *dq) {
	if (done == (1u << nh) - 1) return true;
	uint32_t first = ~0u;
	for (int i = 0; i < nh; i++) if (!(done >> i & 1) && h[i].ret < first) first = h[i].ret;
	for (int i = 0; i < nh; i++) {
		if (done >> i & 1 || h[i].call > first) continue;
		int d[16], l = lo, r = hi;
		memcpy(d, dq, sizeof d);
		if (h[i].kind == PUSH) d[r++] = h[i].val;
		else if (h[i].kind == TAKE) { if (h[i].val < 0) { if (r != l) continue; } else if (r == l || d[--r] != h[i].val) continue; }
		else if (h[i].val >= 0) { if (r == l || d[l++] != h[i].val) continue; }
		if (lin(done | 1u << i, l, r, d)) return true;
	}
	return false;
}
static struct { int len, thieves, steals, cap; } *G;
static void scn(void *arg) {
	G = arg;
	sched_start();
	int code = mc_pick(1 << G->len, "owner's operations");
	steals = G->steals;
	q = events_calloc(1, sizeof *q);
	deque_init(q, G->cap);
	for (int k = 0; k < 12; k++) sched_watch(&payload[k], sizeof payload[k], "what was written before a push");
	sched_on();
	os_thread_t t[3];
	char s[16] = "";
	for (int k = 0; k < G->thieves; k++) t[k] = os_create(thief, NULL);
	for (int k = 0; k < G->len; k++) { s[k] = "PT"[code >> k & 1]; s[k + 1] = 0; if (code >> k & 1) take(); else push(); }
	mc_note("owner: %s\n", s);
	for (int k = 0; k < G->thieves; k++) os_join(t[k], -1, NULL);
	sched_off();
	while (take() >= 0) ;
	for (int k = 0; k < npush; k++) if (!got[k]) mc_fail("lost", "task %d of %d never came out (owner: %s)", k, npush, s);
	int d[16];
	if (!lin(0, 0, 0, d)) {
		char b[400]; int n = 0;
		for (int i = 0; i < nh; i++) n += snprintf(b + n, sizeof b - n, " %s%d=%d[%u,%u]", h[i].kind == PUSH ? "push" : h[i].kind == TAKE ? "take" : "steal", h[i].who, h[i].val, h[i].call, h[i].ret);
		mc_fail("order", "no order of the operations explains the results:%s", b);
	}
	if (deque_steal(q) && is_ptr_usable(deque_steal(q))) mc_fail("invented", "an empty queue still yields a task");
	deque_free(q);
	for (int i = 0; i < nh; i++) if (h[i].kind != PUSH) mc_obs("%c%d", "pts"[h[i].kind], h[i].val);
	mc_obs(" %s", s);
	mc_done();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "C04");
	static struct { int len, thieves, steals, cap, quick, thorough; } g[] = {
		{4, 0, 0, 2, 0, 0}, {6, 0, 0, 1, 0, 0}, {3, 1, 2, 1, 3, 4}, {4, 1, 2, 2, 3, 4}, {3, 1, 2, 2, 3, 5}, {3, 2, 1, 1, 2, 3}, {4, 2, 1, 2, 2, 3}, {4, 2, 2, 1, 2, 3}, {5, 1, 3, 2, 2, 3}};
	for (size_t i = 0; i < sizeof g / sizeof *g; i++) {
		char n[80];
		mc_opt o = {.bound = MC_THOROUGH ? g[i].thorough : g[i].quick, .timeout_s = 20};
		snprintf(n, sizeof n, "operations-%d-thieves-%d-steals-%d-capacity-%d", g[i].len, g[i].thieves, g[i].steals, g[i].cap);
		sched_explore(n, scn, &g[i], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
