/* X02/X03: every small program of guards, deferred clean-ups, protected pointers and
 * exceptions, run with the real macros and compared with a reference interpreter. */
#include "except.h"
#include "events_internal.h"
#undef open
#undef close
#undef read
#include "common.h"
#include <signal.h>

enum { D, I, F, N, R, C, W, V, T, P, K, Y, Q, G, NKIND };
/* D defer, I deferring, F defer_free, N fence, R defer that recovers, C try{defer; throw}catch_any{},
 * W the same with a yield before the throw, V try{fence; throw}catch_any{}, Q defer that asks for another error,
 * T throw, P panic, K break out of the guard, Y yield, G nested guard */
typedef struct blk blk;
typedef struct { int kind, id; blk *g; } st;
struct blk { int n, id; st s[4]; };
static blk pool[64];
static int npool, nid;

typedef struct { short k, id; } ev;
enum { E_RUN, E_STMT, E_LEFT, E_TOP, E_BAD, E_RECOVER };
static ev got[300], want[300];
static volatile int ngot, nwant;
static void log_(int k, int id) { if (ngot < 300) got[ngot] = (ev){k, id}; ngot++; }
static void wlog(int k, int id) { if (nwant < 300) want[nwant] = (ev){k, id}; nwant++; }

/* ---- allocator that sees which block is released */
static void *track[64]; static int tfreed[64];
static void my_free(void *p) {
	for (int i = 0; i < 64; i++) if (p && track[i] == p) {
		log_(tfreed[i] ? E_BAD : E_RUN, i); tfreed[i]++;
		return;                                  /* kept so that a second release is seen */
	}
	rpfree(p);
}
static void **cell;                          /* every cell points to another one */
static void clean(void *a) { void **c = a; log_(c >= cell && c < cell + 64 ? E_RUN : E_BAD, (int)(c - cell)); }
static void clean_int(int v) { log_(E_RUN, v); }
static void recover(void *a) {
	log_(E_RUN, (int)((void **)a - cell));
	const char *e = guard_message();
	if (guard_caught(e)) log_(E_RECOVER, (int)((void **)a - cell));
}
static void other(void *a) {
	log_(E_RUN, (int)((void **)a - cell));
	if (guard_caught("no such error")) log_(E_BAD, 93);
}
static const char *pm = "the roof is on fire";
static void __attribute__((noinline)) do_throw(int k) { if (k == P) panic(pm); throw(range_error); }
static void run_guard(blk *b);
static int use_yield;
static void caught_inside(st *s) {
	try { defer(clean, &cell[s->id]); if (s->kind == W) yield(); throw(logic_error); log_(E_BAD, 90); }
	catch_any { log_(E_STMT, s->id); }
}
static void fence_inside(st *s) {
	try { fence(&cell[s->id], clean); throw(logic_error); log_(E_BAD, 90); }
	catch_any { log_(E_STMT, s->id); }
}
/* returns 1: leave the block */
static int __attribute__((noinline)) run_stmt(st *s) {
	switch (s->kind) {
	case D: defer(clean, &cell[s->id]); break;
	case I: deferring(clean_int, s->id); break;
	case F: { void *p = rp_calloc(1, 64); track[s->id] = p; tfreed[s->id] = 0; defer_free(p); break; }
	case N: { void *p = &cell[s->id]; if (fence(p, clean) != p) log_(E_BAD, 91); break; }
	case R: defer(recover, &cell[s->id]); break;
	case Q: defer(other, &cell[s->id]); break;
	case C: case W: caught_inside(s); return 0;
	case V: fence_inside(s); return 0;
	case T: case P: do_throw(s->kind); log_(E_BAD, 92); break;
	case K: return 1;
	case Y: yield(); break;
	case G: run_guard(s->g); break;
	}
	log_(E_STMT, s->id);
	return 0;
}
static void __attribute__((noinline)) run_guard(blk *b) {
	guard {
		for (int i = 0; i < b->n; i++) if (run_stmt(&b->s[i])) goto out;
		if (0) { out: break; }
	} guarded;
	log_(E_LEFT, b->id);
}

/* ---- reference */
static bool in_task; static int tfree[16], ntfree;   /* defer_free in a task belongs to the task */
static int ref_blk(blk *b, bool is_guard) {
	st *def[16]; int nd = 0, e = 0;
	static st inner;
	for (int i = 0; i < b->n && !e; i++) {
		st *s = &b->s[i];
		if (s->kind == K) break;
		if (s->kind == T || s->kind == P) { e = s->kind; break; }
		if (s->kind == F && in_task) tfree[ntfree++] = s->id;
		else if ((s->kind <= V || s->kind == Q)) def[nd++] = s;
		if (s->kind == G) { e = ref_blk(s->g, true); if (e) break; }
		wlog(E_STMT, s->id);
	}
	int err = e;                             /* what every clean-up of this scope is told */
	for (; nd > 0; nd--) {
		wlog(E_RUN, def[nd - 1]->id);
		if (def[nd - 1]->kind == R && err) { wlog(E_RECOVER, def[nd - 1]->id); e = 0; }
	}
	if (is_guard && !e) wlog(E_LEFT, b->id);
	return e;
}

/* ---- program space */
static int L[4], kinds[4][NKIND], nk[4], depth;
static uint64_t blk_space(int d);
static uint64_t st_space(int d) { return nk[d] + (d < depth ? blk_space(d + 1) : 0); }
static uint64_t blk_space(int d) {
	uint64_t c = 0, p = 1, s = st_space(d);
	for (int i = 0; i <= L[d]; i++) { c += p; p *= s; }
	return c;
}
static blk *dec_blk(int d, uint64_t i) {
	blk *b = &pool[npool++];
	b->id = nid++; b->n = 0;
	uint64_t s = st_space(d), p = 1;
	while (i >= p) { i -= p; p *= s; b->n++; }
	for (int k = 0; k < b->n; k++) {
		uint64_t v = take(&i, s);
		if (v < nk[d]) b->s[k] = (st){kinds[d][v], nid++, NULL};
		else { b->s[k].kind = G; b->s[k].id = nid++; b->s[k].g = dec_blk(d + 1, v - nk[d]); }
		int kk = b->s[k].kind;
		if ((kk == T || kk == P || kk == K) && k + 1 < b->n) return NULL;   /* unreachable rest */
		if (kk == G && !b->s[k].g) return NULL;
	}
	return b;
}
static bool excluded(blk *b, bool is_guard) {
	/* fence() ties its scope to the next exception, so a try statement that handles one in
	 * the same scope after it releases early: not part of the property */
	bool fenced = false;
	for (int i = 0; i < b->n; i++) {
		st *s = &b->s[i];
		if (s->kind == N) fenced = true;
		if ((s->kind == C || s->kind == V) && fenced && is_guard) return true;
		if (s->kind == G && excluded(s->g, true)) return true;
	}
	return false;
}
static void p_blk(blk *b) {
	static const char *kn[] = {"defer", "deferring", "defer_free", "fence", "defer(recover)", "try{defer;throw}catch_any", "try{defer;yield;throw}catch_any", "try{fence;throw}catch_any", "throw", "panic", "break", "yield", "defer(asks for another error)", "guard"};
	for (int i = 0; i < b->n; i++) {
		mc_note("%s#%d", kn[b->s[i].kind], b->s[i].id);
		if (b->s[i].g) { mc_note("{"); p_blk(b->s[i].g); mc_note("}"); }
		mc_note("; ");
	}
}
static const char *evs(ev *e) {
	static const char *kn[] = {"clean-up", "statement", "left guard", "exception at top", "bad", "recovered in"};
	static char b[4][60]; static int r; r = (r + 1) % 4;
	snprintf(b[r], 60, "%s #%d", kn[e->k], e->id);
	return b[r];
}
static void compare(int upto) {
	for (int i = 0; i < ngot || i < nwant; i++) {
		mc_check("extra", i < nwant, "event %d: %s, nothing more should happen", i, evs(&got[i]));
		mc_check("missing", i < ngot, "event %d: %s is missing", i, evs(&want[i]));
		mc_check("order", got[i].k == want[i].k && got[i].id == want[i].id, "event %d: %s, should be %s", i, evs(&got[i]), evs(&want[i]));
	}
	for (int i = 0; i < 64; i++) if (track[i]) { mc_check("free", tfreed[i] == 1, "block #%d released %d times", i, tfreed[i]); rpfree(track[i]); track[i] = NULL; }
	mc_step(ngot);
	mc_obs("%d %d", ngot, ngot > 2 ? got[2].k : 0);
}
static blk *prog;
static volatile int alive;
static blk *progs[2];
static void __attribute__((noinline)) top_of(int k) {
	{ try { run_guard(progs[k]); } catch_any { log_(E_TOP, 32 * k + (str_is(err.name, "_panic") ? P : T)); } }
}
static volatile int nalive;
static void *pair_task0(param_t a) { top_of(0); nalive--; return NULL; }
static void *pair_task1(param_t a) { top_of(1); nalive--; return NULL; }
/* a guard in the caller's context */
static void __attribute__((noinline)) top_guard(void) {
	{ try { run_guard(prog); } catch_any { log_(E_TOP, str_is(err.name, "_panic") ? P : T); } }
}
static bool scope_is_task;
static bool prepare(uint64_t idx) {
	npool = nid = 0; ngot = nwant = 0; memset(track, 0, sizeof track);
	prog = dec_blk(1, idx);
	if (!prog || excluded(prog, !scope_is_task)) return false;
	if (mc_verbose) { mc_note("guard{ "); p_blk(prog); mc_note("} "); }
	return true;
}
static void guard_case(uint64_t idx, void *arg) {
	if (!prepare(idx)) return;
	ex_context_t *before = ex_local();
	top_guard();
	mc_check("context", ex_local() == before, "handler context not restored");
	int e = ref_blk(prog, true);
	if (e) wlog(E_TOP, e);
	compare(0);
}
/* the scope is a task: its clean-ups run when it ends */
static void __attribute__((noinline)) task_body(void) {
	{ try { for (int i = 0; i < prog->n; i++) if (run_stmt(&prog->s[i])) break; } catch_any { log_(E_TOP, str_is(err.name, "_panic") ? P : T); } }
}
static void *task_prog(param_t a) { alive = 1; task_body(); alive = 0; return NULL; }
static void *task_guard_prog(param_t a) { alive = 1; top_guard(); alive = 0; return NULL; }
static void run_task(param_func_t f) {
	alive = 1;
	async_ex(Kb(64), (launch_func_t)f, 0);
	for (int i = 0; i < 50 && alive; i++) yield();
	mc_check("lost", !alive, "the task did not end");
}
static bool has_recover(blk *b) { for (int i = 0; i < b->n; i++) if (b->s[i].kind == R) return true; return false; }
static void task_case(uint64_t idx, void *arg) {
	scope_is_task = true;
	if (!prepare(idx)) return;
	if (has_recover(prog)) return;
	run_task(task_prog);
	/* the exception is seen before the task's own clean-ups */
	int e = 0;
	in_task = true; ntfree = 0;
	for (int i = 0; i < prog->n && !e; i++) {
		st *s = &prog->s[i];
		if (s->kind == K) break;
		if (s->kind == T || s->kind == P) { e = s->kind; break; }
		if (s->kind <= V) tfree[ntfree++] = s->id;
		if (s->kind == G) { e = ref_blk(s->g, true); if (e) break; }
		wlog(E_STMT, s->id);
	}
	if (e) wlog(E_TOP, e);
	while (ntfree > 0) wlog(E_RUN, tfree[--ntfree]);
	compare(0);
}
static void task_guard_case(uint64_t idx, void *arg) {
	scope_is_task = false;
	if (!prepare(idx)) return;
	run_task(task_guard_prog);
	in_task = true; ntfree = 0;
	int e = ref_blk(prog, true);
	if (e) wlog(E_TOP, e);
	while (ntfree > 0) wlog(E_RUN, tfree[--ntfree]);
	compare(0);
}

/* two tasks, each with its own guards, taking turns at the yields */
static void compare_one(int t) {
	int j = 0;
	for (int i = 0; i < ngot; i++) {
		if ((got[i].id >> 5) != t) continue;
		while (j < nwant && (want[j].id >> 5) != t) j++;
		mc_check("extra", j < nwant, "task %d: %s, nothing more should happen", t, evs(&got[i]));
		mc_check("order", got[i].k == want[j].k && got[i].id == want[j].id, "task %d: %s, should be %s", t, evs(&got[i]), evs(&want[j]));
		j++;
	}
	while (j < nwant && (want[j].id >> 5) != t) j++;
	mc_check("missing", j == nwant, "task %d: %s is missing", t, evs(&want[j]));
}
static void pair_case(uint64_t idx, void *arg) {
	uint64_t n = blk_space(1);
	npool = nid = 0; ngot = nwant = 0;
	progs[0] = dec_blk(1, idx % n);
	nid = 32;
	progs[1] = dec_blk(1, idx / n);
	if (!progs[0] || !progs[1]) return;
	if (mc_verbose) for (int k = 0; k < 2; k++) { mc_note("task %d: guard{ ", k); p_blk(progs[k]); mc_note("}  "); }
	nalive = 2;
	async_ex(Kb(64), (launch_func_t)pair_task0, 0);
	async_ex(Kb(64), (launch_func_t)pair_task1, 0);
	for (int i = 0; i < 50 && nalive; i++) yield();
	mc_check("lost", !nalive, "a task did not end");
	for (int k = 0; k < 2; k++) { int e = ref_blk(progs[k], true); if (e) wlog(E_TOP, 32 * k + e); }
	compare_one(0);
	compare_one(1);
	mc_step(ngot);
	mc_obs("%d %d", ngot, ngot > 2 ? got[2].k : 0);
}
static mc_opt o;
static void set_kinds(int d, const int *k) { nk[d] = 0; while (k[nk[d]] >= 0) { kinds[d][nk[d]] = k[nk[d]]; nk[d]++; } }
static const int all_main[] = {D, I, F, N, R, C, Q, T, P, K, -1}, all_task[] = {D, I, F, N, R, C, Q, T, P, K, Y, -1};
static const int pairk[] = {D, R, W, T, Y, -1};
static const int few[] = {D, F, N, R, T, K, -1}, tscope[] = {D, I, F, N, V, C, T, P, K, Y, -1};
static void explore(const char *name, mc_case fn, const int *k1, const int *k2, int l1, int l2, int l3) {
	char nm[64];
	set_kinds(1, k1); set_kinds(2, k2); set_kinds(3, few);
	L[1] = l1; L[2] = l2; L[3] = l3; depth = l3 ? 3 : 2;
	snprintf(nm, sizeof nm, "%s-%d-%d-%d", name, l1, l2, l3);
	mc_enum(nm, fn == pair_case ? blk_space(1) * blk_space(1) : blk_space(1), fn, NULL, o);
}
static void *task_main(param_t a) {
	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, my_free);
	bool th = MC_THOROUGH;
	explore("task", task_case, tscope, all_task, 3, 2, 0);
	explore("task", task_case, tscope, all_task, 2, 3, 0);
	explore("guarded-task", task_guard_case, all_task, all_task, 3, 2, 0);
	explore("guarded-task", task_guard_case, few, few, 2, 2, 2);
	explore("two-tasks", pair_case, pairk, pairk, 2, 2, 0);
	explore("two-tasks", pair_case, pairk, pairk, 3, 0, 0);
	return NULL;
}

int main(int argc, char **argv) {
	mc_init(argc, argv, "X02");
	freopen("/dev/null", "w", stderr);
	scope_init();
	events_set_allocator(rp_malloc, rp_realloc, rp_calloc, my_free);
	signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL);
	cell = rp_malloc(sizeof(void *) * 128);
	for (int i = 0; i < 128; i++) cell[i] = &cell[(i + 32) % 128];
	bool th = MC_THOROUGH;
	explore("guard", guard_case, all_main, all_main, 3, 2, 0);
	explore("guard", guard_case, all_main, all_main, 2, 3, 0);
	explore("guard", guard_case, few, few, 2, 2, 2);
	explore("guard", guard_case, all_main, few, 4, 1, 0);
	events_init(64);
	events_t *loop = events_create(1);
	async_ex(Kb(512), (launch_func_t)task_main, 0); async_run(loop);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
