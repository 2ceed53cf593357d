/* S01: every small program of tasks over the cooperative task API, compared step by step
 * with a reference scheduler (first in, first out). */
#include "sim.h"

enum { Y, S, X, L, A, Q, C, K, U, R, MAXT = 8, MAXOP = 5 };
static const char OPN[] = "YSXLAQCKUR";         /* U suspends, R resumes the oldest suspended task */
typedef struct { int n, op[MAXOP]; bool ret_null; } body;
typedef struct { int nb; body b[4]; int nroots; bool x_root; } prog;
static prog P;

typedef struct { short inst, what; long v; } ev;
enum { E_START, E_OP, E_RET, E_END };
static ev got[400], want[400];
static int ngot, nwant;
static void out(int i, int w, long v) { if (ngot < 400) got[ngot] = (ev){i, w, v}; ngot++; }
static void exp_(int i, int w, long v) { if (nwant < 400) want[nwant] = (ev){i, w, v}; nwant++; }

/* ---- the real run */
static int ninst;
static uint32_t rid[MAXT];          /* by instance, result id or 0 */
static bool has_rid[MAXT], done[MAXT];
static tasks_t *handle[MAXT];
static void check_id(int inst, uint32_t id) {
	for (int i = 0; i < inst; i++) if (has_rid[i] && rid[i] == id) mc_fail("id", "task %d and task %d got the same result id %u", i, inst, id);
	rid[inst] = id; has_rid[inst] = true;
}
static long val_of(values_t v) { return (long)v.object; }
static char args_tag[MAXT];
static int susp[64], sh, st;        /* suspended tasks, oldest first */
static void *task_body(param_t a) {
	int inst = a[0].integer, level = a[1].integer;
	volatile long canary = 0x5a5a0000 + inst;
	int last = -1;
	out(inst, E_START, level);
	handle[inst] = active_task();
	for (int i = 0; i < ninst; i++) if (i != inst && handle[i] == handle[inst] && !done[i]) mc_fail("handle", "task %d and task %d have the same handle", i, inst);
	if (task_data()) mc_fail("data", "task %d starts with the user data of some other task", inst);
	task_data_set(handle[inst], &done[inst]);
	task_name("task %d with a name that is far longer than what the library keeps of it, so that it is cut %d", inst, level);
	if (a[2].object != &args_tag[inst]) mc_fail("args", "task %d started with the wrong arguments", inst);
	body *b = &P.b[level];
	for (int k = 0; k < b->n; k++) {
		long r = 0;
		switch (b->op[k]) {
		case Y: yield(); break;
		case S: { int c = ninst++; last = c; has_rid[c] = false;
			uint32_t id = async_task((param_func_t)task_body, 3, c, level + 1, &args_tag[c]);
			check_id(c, id); r = c; break; }
		case X: { int c = ninst++; has_rid[c] = false; async_ex(Kb(16), (launch_func_t)task_body, 3, c, level + 1, &args_tag[c]); r = c; break; }
		case L: { int c = ninst++; has_rid[c] = false; launch((launch_func_t)task_body, 3, c, level + 1, &args_tag[c]); r = c; break; }
		case A: { values_t v = await_for(rid[last]); r = val_of(v); if (!done[last]) mc_fail("await", "awaiting task %d returned before it ended", last); break; }
		case Q: r = task_is_ready(rid[last]) * 1000 + val_of(results_for(rid[last])); break;
		case C: task_set_canceled(rid[last]); break;
		case K: r = task_is_canceled(); break;
		case U: susp[st++] = inst; suspend(); break;
		case R: r = susp[sh++]; resume(handle[r]); break;
		}
		if (active_task() != handle[inst] || task_data() != &done[inst] || task_data_get(handle[inst]) != &done[inst])
			mc_fail("data", "task %d finds other user data than it stored after operation %d", inst, k);
		if (task_is_terminated(handle[inst])) mc_fail("terminated", "task %d is running and reported as terminated", inst);
		if (canary != 0x5a5a0000 + inst || a[0].integer != inst || a[1].integer != level || a[2].object != &args_tag[inst])
			mc_fail("state", "task %d: local state or arguments changed across operation %d", inst, k);
		out(inst, E_OP + 10 * k, r);
		if (has_rid[inst] && task_id() != rid[inst]) mc_fail("id", "task %d has id %u, its creator was told %u", inst, task_id(), rid[inst]);
	}
	out(inst, E_RET, 0);
	done[inst] = true;
	return b->ret_null ? NULL : (void *)(long)(100 + inst);
}

/* ---- reference */
typedef struct { int level, pc, last; bool rid, started, fin, cancel; int awaiting; int pend; } mt;
static mt M[64]; static int nm, q[4096], qh, qt;
static int mnew(int level, bool r) { M[nm] = (mt){.level = level, .last = -1, .rid = r, .awaiting = -1, .pend = -1}; q[qt++] = nm; return nm++; }
static bool infeasible;
static int ms[64], msh, mst;
static void mrun(void) {
	nm = qh = qt = msh = mst = 0; nwant = 0; infeasible = false;
	for (int i = 0; i < P.nroots; i++) mnew(i, !(i == 1 && P.x_root));
	while (qh < qt) {
		int i = q[qh++];
		mt *t = &M[i];
		body *b = &P.b[t->level];
		if (!t->started) { t->started = true; exp_(i, E_START, t->level); }
		if (t->pend >= 0) { exp_(i, E_OP + 10 * (t->pc - 1), t->pend == 1000 ? 0 : t->pend); t->pend = -1; }
		if (t->awaiting >= 0) {
			mt *o = &M[t->awaiting];
			if (!o->fin) { q[qt++] = i; if (qt > 4000) { infeasible = true; return; } continue; }
			exp_(i, E_OP + 10 * (t->pc - 1), P.b[o->level].ret_null ? 0 : 100 + t->awaiting);
			t->awaiting = -1;
		}
		bool off = false;
		while (t->pc < b->n && !off) {
			int k = t->pc++, op = b->op[k];
			long r = 0;
			switch (op) {
			case Y: t->pend = 1000; q[qt++] = i; off = true; continue;
			case S: r = t->last = mnew(t->level + 1, true); break;
			case X: r = mnew(t->level + 1, false); break;
			case L: t->pend = mnew(t->level + 1, false); q[qt++] = i; off = true; continue;
			case A: if (t->last < 0) { infeasible = true; return; }
				if (!M[t->last].fin) { t->awaiting = t->last; q[qt++] = i; off = true; continue; }
				r = P.b[M[t->last].level].ret_null ? 0 : 100 + t->last; break;
			case Q: if (t->last < 0) { infeasible = true; return; }
				r = M[t->last].fin ? 1000 + (P.b[M[t->last].level].ret_null ? 0 : 100 + t->last) : 0; break;
			case C: if (t->last < 0) { infeasible = true; return; }
				M[t->last].cancel = true; break;
			case K: r = t->cancel; break;
			case U: ms[mst++] = i; t->pend = 1000; off = true; continue;
			case R: if (msh == mst) { infeasible = true; return; }
				r = ms[msh++]; q[qt++] = r; t->pend = r ? r : 1000; q[qt++] = i; off = true; continue;
			}
			exp_(i, E_OP + 10 * k, r);
			if (nm > MAXT) { infeasible = true; return; }
		}
		if (off) { if (nm > MAXT) { infeasible = true; return; } continue; }
		exp_(i, E_RET, 0);
		t->fin = true;
	}
	if (msh != mst) infeasible = true;           /* somebody stays suspended: the run would not end */
}
static void put(void) {
	for (int i = 0; i < P.nb; i++) {
		char s[MAXOP + 1]; int k;
		for (k = 0; k < P.b[i].n; k++) s[k] = OPN[P.b[i].op[k]];
		s[k] = 0;
		mc_note("body%d=%s%s ", i, s, P.b[i].ret_null ? " (returns null)" : "");
	}
	mc_note("roots=%d%s\n", P.nroots, P.x_root ? " second without result" : "");
}
static bool up;
static bool as_main;
static void check(void) {
	if (mc_verbose) put();
	mrun();
	if (infeasible) mc_skip();
	if (!up) {
		sim_start(64); up = true;
		if (as_main) events_set_main((main_cb)task_body);
	}
	ngot = ninst = sh = st = 0; vclock = 0;
	memset(done, 0, sizeof done); memset(handle, 0, sizeof handle);
	for (int i = 0; i < P.nroots; i++) {
		int c = ninst++;
		has_rid[c] = false;
		if (i == 1 && P.x_root) async_ex(Kb(16), (launch_func_t)task_body, 3, c, i, &args_tag[c]);
		else check_id(c, async_task((param_func_t)task_body, 3, c, i, &args_tag[c]));
	}
	async_run(sim_loop);
	int n = ngot < nwant ? ngot : nwant;
	if (mc_verbose) for (int i = 0; i < ngot && i < 400; i++) mc_note("  task %d %s %d -> %ld\n", got[i].inst, got[i].what % 10 == E_START ? "starts" : got[i].what == E_RET ? "ends" : "op", got[i].what / 10, got[i].v);
	for (int i = 0; i < n && i < 400; i++)
		if (memcmp(&got[i], &want[i], sizeof(ev)))
			mc_fail("order", "step %d: task %d event %d value %ld, the reference has task %d event %d value %ld", i, got[i].inst, got[i].what, got[i].v, want[i].inst, want[i].what, want[i].v);
	if (ngot != nwant) mc_fail("order", "%d steps, the reference has %d", ngot, nwant);
	for (int i = 0; i < ninst; i++) {
		if (!done[i]) mc_fail("lost", "task %d did not run to its end", i);
		if (has_rid[i]) {
			if (!task_is_ready(rid[i])) mc_fail("result", "result of task %d is not ready after the run", i);
			long v = val_of(results_for(rid[i])), w = P.b[M[i].level].ret_null ? 0 : 100 + i;
			if (v != w) mc_fail("result", "result of task %d is %ld, it returned %ld", i, v, w);
		}
	}
	mc_step(ngot);
	mc_obs("%d tasks %d steps", ninst, ngot);
}

/* op strings of length <= n over the first `letters` of set */
static uint64_t nstr(int letters, int n) { uint64_t t = 1, k = 1; while (n--) { k *= letters; t += k; } return t; }
static int unstr(uint64_t *idx, const int *set, int letters, int n, int *o) {
	uint64_t i = *idx % nstr(letters, n), k = 1;
	*idx /= nstr(letters, n);
	int len = 0;
	while (i >= k) { i -= k; k *= letters; len++; }
	for (int j = 0; j < len; j++) { o[j] = set[i % letters]; i /= letters; }
	return len;
}
static const int ALL[] = {Y, S, X, L, A, Q, C, K}, LEAF[] = {Y, K};
typedef struct { int n0, n1, n2; } cfg;
static uint64_t space(cfg *c) { return nstr(8, c->n0) * nstr(8, c->n1) * nstr(2, c->n2) * 3 * 4; }
static void one(uint64_t idx, void *arg) {
	cfg *c = arg;
	memset(&P, 0, sizeof P);
	P.nb = 3;
	P.b[0].n = unstr(&idx, ALL, 8, c->n0, P.b[0].op);
	P.b[1].n = unstr(&idx, ALL, 8, c->n1, P.b[1].op);
	P.b[2].n = unstr(&idx, LEAF, 2, c->n2, P.b[2].op);
	int r = idx % 3; idx /= 3;
	P.nroots = r ? 2 : 1; P.x_root = r == 2;
	P.b[1].ret_null = idx & 1; P.b[2].ret_null = idx >> 1 & 1;
	/* bodies nobody starts: one representative */
	bool s0 = P.nroots == 2, s1 = false;
	for (int i = 0; i < P.b[0].n; i++) if (P.b[0].op[i] >= S && P.b[0].op[i] <= L) s0 = true;
	for (int i = 0; i < P.b[1].n; i++) if (s0 && P.b[1].op[i] >= S && P.b[1].op[i] <= L) s1 = true;
	if ((!s0 && (P.b[1].n || P.b[1].ret_null)) || (!s1 && (P.b[2].n || P.b[2].ret_null))) mc_skip();
	check();
}
/* suspending and resuming: all programs over {Y, S, L, U, R, A} with at least one suspension that is resumed */
static const int SR[] = {Y, U, R, S, L, A};
static uint64_t space2(cfg *c) { return nstr(6, c->n0) * nstr(6, c->n1) * nstr(2, c->n2) * 3; }
static void two(uint64_t idx, void *arg) {
	cfg *c = arg;
	static const int leaf[] = {U, Y};
	memset(&P, 0, sizeof P);
	P.nb = 3;
	P.b[0].n = unstr(&idx, SR, 6, c->n0, P.b[0].op);
	P.b[1].n = unstr(&idx, SR, 6, c->n1, P.b[1].op);
	P.b[2].n = unstr(&idx, leaf, 2, c->n2, P.b[2].op);
	int r = idx % 3;
	P.nroots = r ? 2 : 1; P.x_root = r == 2;
	bool s0 = P.nroots == 2, s1 = false, u = false, w = false;
	for (int i = 0; i < P.b[0].n; i++) if (P.b[0].op[i] >= S && P.b[0].op[i] <= L) s0 = true;
	for (int i = 0; i < P.b[1].n; i++) if (s0 && P.b[1].op[i] >= S && P.b[1].op[i] <= L) s1 = true;
	if ((!s0 && P.b[1].n) || (!s1 && P.b[2].n)) mc_skip();
	for (int b = 0; b < 3; b++) for (int i = 0; i < P.b[b].n; i++) u |= P.b[b].op[i] == U, w |= P.b[b].op[i] == R;
	if (!u || !w) mc_skip();
	check();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "S01");
	static cfg q = {3, 3, 2}, t = {4, 3, 2}, m = {2, 1, 1}, mt_ = {2, 2, 2};
	mc_opt o = {.timeout_s = 20, .recycle = 2000};
	mc_enum("programs-3-3-2", space(&q), one, &q, o);
	if (MC_THOROUGH) mc_enum("programs-4-3-2", space(&t), one, &t, o);
	static cfg u3 = {3, 3, 2}, u4 = {4, 4, 2};
	mc_enum("suspend-3-3-2", space2(&u3), two, &u3, o);
	if (MC_THOROUGH) mc_enum("suspend-4-4-2", space2(&u4), two, &u4, o);
	as_main = true;
	o.recycle = 1;
	mc_enum("main-2-1-1", space(&m), one, &m, o);
	if (MC_THOROUGH) mc_enum("main-2-2-2", space(&mt_), one, &mt_, o);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
