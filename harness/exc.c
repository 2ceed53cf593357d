/* X01: every small program made of try / catch / finally / throw / rethrow / raise / calls,
 * executed with the real macros and compared event by event with a reference interpreter. */
#include "except.h"
#include "events_internal.h"
#undef open
#undef close
#undef read
#include "common.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/wait.h>

enum { S_THROW, S_TRY };
enum { A, B, P, R, NTHROW };                 /* logic_error, range_error, panic, raise(SIGTERM) */
enum { H_NONE, H_A, H_AB, H_ANY, H_A_ANY, H_IF_A, H_IF_NONE, H_B, NCHAIN };
enum { X_NONE, X_THROW, X_RETHROW, X_BODY };
typedef struct node node;
typedef struct { int kind; int what; node *t; int after; node *t2; } body;   /* X_BODY: try t, then throw (after>=0) or a second try */
struct node { int id, chain, has_fin; body b, h, f; };
static node pool[16];
static int npool;

/* ---- what is observed */
typedef struct { short k, id, a; int line; } ev;
enum { E_ENTER, E_BODYEND, E_HANDLER, E_HANDLEREND, E_FIN, E_FINEND, E_AFTER, E_TOP, E_SEEN };
static ev got[400], want[400];
static volatile int ngot; static int nwant;
static void log_(int k, int id, int a, int line) { if (ngot < 400) got[ngot++] = (ev){k, id, a, line}; }
static void wlog(int k, int id, int a, int line) { if (nwant < 400) want[nwant++] = (ev){k, id, a, line}; }
static const char *ename[NTHROW] = {"logic_error", "range_error", "_panic", "sig_term"};
static int eid(const char *n) { for (int i = 0; n && i < NTHROW; i++) if (!strcmp(n, ename[i])) return i; return n ? 8 : 9; }
static int eline[NTHROW];
static const char *pmsg = "out of cheese";

/* ---- the real thing */
static void run_try(node *n);
static void do_throw(int what) {
	switch (what) {
	case A: eline[A] = __LINE__; throw(logic_error); break;
	case B: eline[B] = __LINE__; throw(range_error); break;
	case P: eline[P] = __LINE__; panic(pmsg); break;
	case R: eline[R] = 0; raise(SIGTERM); break;
	}
	log_(E_SEEN, 99, what, 0);               /* code after a throw */
}
static int run_body(body *b) {                /* returns 1: rethrow */
	if (b->kind == X_THROW) do_throw(b->what);
	else if (b->kind == X_RETHROW) return 1;
	else if (b->kind == X_BODY) {
		run_try(b->t);
		if (b->t2) run_try(b->t2);
		if (b->after >= 0) do_throw(b->after);
	}
	return 0;
}
static int where_ok(ex_error_t *e) {
	int id = eid(e->name);
	if (id >= NTHROW) return id == 9 ? 0 : -2;
	if (id == R) return e->file && !strcmp(e->file, "unknown") ? e->line : -3;
	if (!e->file || !strstr(e->file, "exc.c")) return -3;
	return e->line;
}
#define ENTER_H(k) do { log_(E_HANDLER, n->id * 4 + (k), eid(err.name), where_ok(&err)); \
	if (!err.name) break; \
	if (eid(err.name) == P && (!ex_err._panic || strcmp(ex_err._panic, pmsg))) log_(E_SEEN, 98, 0, 0); } while (0)
#define HANDLER(k) { ENTER_H(k); if (run_body(&n->h)) rethrow; log_(E_HANDLEREND, n->id * 4 + (k), 0, 0); }
#define HANDLER_IF(E) { ENTER_H(2); if (caught(E)) { log_(E_SEEN, 97, 0, 0); if (run_body(&n->h)) rethrow; } log_(E_HANDLEREND, n->id * 4 + 2, 0, 0); }
#define FIN { log_(E_FIN, n->id, err.is_caught, 0); run_body(&n->f); log_(E_FINEND, n->id, 0, 0); }
#define BODY { log_(E_ENTER, n->id, 0, 0); run_body(&n->b); log_(E_BODYEND, n->id, 0, 0); }
static void __attribute__((noinline)) run_try(node *n) {
	volatile int canary = n->id * 1000 + 7;
	if (!n->has_fin) switch (n->chain) {
	case H_NONE: { try BODY } break;
	case H_A: { try BODY catch (logic_error) HANDLER(0) } break;
	case H_B: { try BODY catch (range_error) HANDLER(0) } break;
	case H_AB: { try BODY catch (logic_error) HANDLER(0) catch (range_error) HANDLER(1) } break;
	case H_ANY: { try BODY catch_any HANDLER(0) } break;
	case H_A_ANY: { try BODY catch (logic_error) HANDLER(0) catch_any HANDLER(1) } break;
	case H_IF_A: { try BODY catch_if HANDLER_IF(logic_error) } break;
	case H_IF_NONE: { try BODY catch_if { ENTER_H(2); log_(E_HANDLEREND, n->id * 4 + 2, 0, 0); } } break;
	} else switch (n->chain) {
	case H_NONE: { try BODY finally FIN } break;
	case H_A: { try BODY catch (logic_error) HANDLER(0) finally FIN } break;
	case H_B: { try BODY catch (range_error) HANDLER(0) finally FIN } break;
	case H_AB: { try BODY catch (logic_error) HANDLER(0) catch (range_error) HANDLER(1) finally FIN } break;
	case H_ANY: { try BODY catch_any HANDLER(0) finally FIN } break;
	case H_A_ANY: { try BODY catch (logic_error) HANDLER(0) catch_any HANDLER(1) finally FIN } break;
	case H_IF_A: { try BODY catch_if HANDLER_IF(logic_error) finally FIN } break;
	case H_IF_NONE: { try BODY catch_if { ENTER_H(2); log_(E_HANDLEREND, n->id * 4 + 2, 0, 0); } finally FIN } break;
	}
	log_(E_AFTER, n->id, canary - n->id * 1000, 0);
}

/* ---- the reference: exceptions are return values */
typedef struct { int e; } res;                /* -1 normal, else exception number */
static int ref_try(node *n);
static int ref_body(body *b, int pend) {
	switch (b->kind) {
	case X_THROW: return b->what;
	case X_RETHROW: return pend;
	case X_BODY: {
		int e = ref_try(b->t);
		if (e < 0 && b->t2) e = ref_try(b->t2);
		if (e < 0 && b->after >= 0) e = b->after;
		return e; }
	}
	return -1;
}
static int ref_line(int e) { return eline[e]; }
static int ref_try(node *n) {
	wlog(E_ENTER, n->id, 0, 0);
	int e = ref_body(&n->b, -1), handled = 0;
	if (e < 0) wlog(E_BODYEND, n->id, 0, 0);
	else {
		int k = -1;
		switch (n->chain) {
		case H_A: if (e == A) k = 0; break;
		case H_B: if (e == B) k = 0; break;
		case H_AB: if (e == A) k = 0; else if (e == B) k = 1; break;
		case H_ANY: k = 0; break;
		case H_A_ANY: k = e == A ? 0 : 1; break;
		case H_IF_A: case H_IF_NONE: k = 2; break;
		}
		if (k >= 0) {
			int pend = e;
			wlog(E_HANDLER, n->id * 4 + k, e, ref_line(e));
			if (k < 2) { e = ref_body(&n->h, pend); handled = e < 0; }
			else if (n->chain == H_IF_A && pend == A) { wlog(E_SEEN, 97, 0, 0); e = ref_body(&n->h, pend); handled = e < 0; }
			if (e < 0 || k == 2 && !(n->chain == H_IF_A && pend == A)) wlog(E_HANDLEREND, n->id * 4 + k, 0, 0);
		}
	}
	if (n->has_fin) {
		wlog(E_FIN, n->id, handled, 0);
		int f = ref_body(&n->f, -1);
		if (f < 0) wlog(E_FINEND, n->id, 0, 0); else e = f;
	}
	if (e < 0) wlog(E_AFTER, n->id, 7, 0);
	return e;
}

/* ---- the program space */
static bool wide;
static const int w_chain[] = {H_NONE, H_A, H_AB, H_ANY, H_A_ANY, H_IF_A, H_IF_NONE, H_B}, n_chain[] = {H_NONE, H_A, H_ANY, H_IF_A};
static int nch(void) { return wide ? 8 : 4; }
static int nb0(void) { return wide ? 5 : 3; }   /* eps + throws */
static int nh0(void) { return wide ? 4 : 3; }
static int nf0(void) { return wide ? 3 : 2; }   /* absent, empty, throw B */
static uint64_t T(int n);
static uint64_t Bc(int n) {                    /* bodies with n trys */
	if (!n) return nb0();
	uint64_t c = T(n) * 2;
	for (int i = 1; i < n; i++) c += T(i) * T(n - i);
	return c;
}
static uint64_t Hc(int n) { return n ? T(n) : nh0(); }
static uint64_t Fc(int n) { return n ? T(n) : nf0(); }
static uint64_t T(int n) {
	static uint64_t memo[2][8];
	if (n <= 0) return 0;
	if (memo[wide][n]) return memo[wide][n];
	uint64_t c = 0;
	for (int b = 0; b <= n - 1; b++) for (int h = 0; b + h <= n - 1; h++) c += Bc(b) * Hc(h) * Fc(n - 1 - b - h);
	return memo[wide][n] = c * nch();
}
static node *dec_try(int n, uint64_t i);
static body dec_body(int n, uint64_t i) {
	body b = {X_NONE, 0, NULL, -1, NULL};
	static const int th[] = {A, B, P, R};
	if (!n) { if (i) { b.kind = X_THROW; b.what = th[i - 1]; } return b; }
	b.kind = X_BODY;
	if (i < T(n) * 2) { b.after = i & 1 ? A : -1; b.t = dec_try(n, i >> 1); return b; }
	i -= T(n) * 2;
	for (int k = 1; k < n; k++) {
		uint64_t c = T(k) * T(n - k);
		if (i < c) { b.t = dec_try(k, i % T(k)); b.t2 = dec_try(n - k, i / T(k)); return b; }
		i -= c;
	}
	abort();
}
static body dec_h(int n, uint64_t i) {
	body b = {X_NONE, 0, NULL, -1, NULL};
	if (n) { b.kind = X_BODY; b.t = dec_try(n, i); return b; }
	if (wide) { if (i == 1) b = (body){X_THROW, A, NULL, -1, NULL}; if (i == 2) b = (body){X_THROW, B, NULL, -1, NULL}; if (i == 3) b.kind = X_RETHROW; }
	else { if (i == 1) b = (body){X_THROW, B, NULL, -1, NULL}; if (i == 2) b.kind = X_RETHROW; }
	return b;
}
static node *dec_try(int n, uint64_t i) {
	node *t = &pool[npool];
	t->id = npool++;
	t->chain = (wide ? w_chain : n_chain)[take(&i, nch())];
	for (int b = 0; b <= n - 1; b++) for (int h = 0; b + h <= n - 1; h++) {
		int f = n - 1 - b - h;
		uint64_t c = Bc(b) * Hc(h) * Fc(f);
		if (i >= c) { i -= c; continue; }
		t->b = dec_body(b, take(&i, Bc(b)));
		t->h = dec_h(h, take(&i, Hc(h)));
		t->has_fin = 1;
		t->f = (body){X_NONE, 0, NULL, -1, NULL};
		if (f) { t->f.kind = X_BODY; t->f.t = dec_try(f, i); }
		else if (i == 0) t->has_fin = 0;
		else if (i == 2) t->f = (body){X_THROW, B, NULL, -1, NULL};
		if (t->chain == H_NONE && !t->has_fin) t->has_fin = 0;
		return t;
	}
	abort();
}

/* ---- printing */
static void p_try(node *n);
static void p_body(body *b) {
	static const char *tn[] = {"throw(logic_error)", "throw(range_error)", "panic()", "raise(SIGTERM)"};
	if (b->kind == X_THROW) mc_note("%s;", tn[b->what]);
	if (b->kind == X_RETHROW) mc_note("rethrow;");
	if (b->kind == X_BODY) { p_try(b->t); if (b->t2) p_try(b->t2); if (b->after >= 0) mc_note("%s;", tn[b->after]); }
}
static void p_try(node *n) {
	static const char *cn[] = {"", "catch(logic_error)", "catch(logic_error)|catch(range_error)", "catch_any", "catch(logic_error)|catch_any", "catch_if if(caught(logic_error))", "catch_if", "catch(range_error)"};
	mc_note("try#%d{", n->id); p_body(&n->b); mc_note("}");
	if (n->chain) { mc_note("%s{", cn[n->chain]); p_body(&n->h); mc_note("}"); }
	if (n->has_fin) { mc_note("finally{"); p_body(&n->f); mc_note("}"); }
}
static const char *evs(ev *e) {
	static const char *kn[] = {"enter", "end of body", "handler", "end of handler", "finally", "end of finally", "after try", "top", "seen"};
	static char b[4][100]; static int r; r = (r + 1) % 4;
	snprintf(b[r], 100, "%s id=%d value=%d line=%d", kn[e->k], e->k == E_HANDLER || e->k == E_HANDLEREND ? e->id / 4 : e->id, e->a, e->line);
	return b[r];
}

static int trys;
static node *root;
static volatile int top;                     /* what came out of the whole program */
static void __attribute__((noinline)) run_top(void) {
	top = -1;
	{
		try { run_try(root); }
		catch_any { top = eid(err.name); log_(E_TOP, 0, top, where_ok(&err)); }
	}
}
static void prog_case(uint64_t idx, void *arg) {
	(void)arg;
	npool = 0; ngot = nwant = 0;
	root = dec_try(trys, idx);
	if (mc_verbose) { mc_note("program: "); p_try(root); }
	ex_context_t *before = ex_local();
	run_top();
	mc_check("context", ex_local() == before, "the handler context is not restored after the program");
	int e = ref_try(root);
	if (e >= 0) wlog(E_TOP, 0, e, ref_line(e));
	for (int i = 0; i < ngot || i < nwant; i++) {
		mc_check("extra", i < nwant, "event %d: %s, the program should have ended", i, evs(&got[i]));
		mc_check("missing", i < ngot, "event %d: %s is missing", i, evs(&want[i]));
		mc_check("flow", got[i].k == want[i].k && got[i].id == want[i].id, "event %d: %s, should be %s", i, evs(&got[i]), evs(&want[i]));
		mc_check("value", got[i].a == want[i].a, "event %d: %s, should be %s", i, evs(&got[i]), evs(&want[i]));
		mc_check("origin", got[i].line == want[i].line, "event %d: %s, should be %s", i, evs(&got[i]), evs(&want[i]));
	}
	sigset_t m; sigprocmask(SIG_SETMASK, NULL, &m);
	mc_check("mask", !sigismember(&m, SIGTERM) && !sigismember(&m, SIGUSR1), "signals stay blocked after the program");
	mc_step(ngot);
	if (ngot > 3) mc_obs("%d:%d:%d", ngot, top, got[ngot / 2].k);
}

/* an exception nobody handles ends the process with a failure status */
static void uncaught_fn(void *arg) {
	int what = mc_pick(NTHROW, "exception"), nest = mc_pick(3, "nesting");
	pid_t p = fork();
	if (!p) {
		freopen("/dev/null", "w", stderr);
		if (nest == 0) do_throw(what);
		else if (nest == 1) { try { do_throw(what); } finally { } }
		else { try { do_throw(what); } catch (out_of_memory) { } }
		_exit(0);
	}
	int st; waitpid(p, &st, 0);
	mc_check("uncaught", WIFEXITED(st) && WEXITSTATUS(st) != 0, "an uncaught %s ends the process with status %x", ename[what], st);
	mc_obs("%d", st);
}

static mc_opt o;
static const char *ctxname;
static void explore_all(void) {
	char nm[64];
	/* the throw sites' line numbers */
	for (int k = 0; k < NTHROW; k++) { try { do_throw(k); } catch_any { } }
	ngot = 0;
	bool deep = !strcmp(ctxname, "main");
	wide = true;
	for (trys = 1; trys <= 2; trys++) {
		snprintf(nm, sizeof nm, "%s-%d-try", ctxname, trys);
		mc_enum(nm, T(trys), prog_case, NULL, o);
	}
	wide = false; trys = 3;
	snprintf(nm, sizeof nm, "%s-3-try", ctxname);
	mc_enum(nm, T(3), prog_case, NULL, o);
	if (MC_THOROUGH) {
		wide = true;
		snprintf(nm, sizeof nm, "%s-3-try-wide", ctxname);
		if (deep) mc_enum(nm, T(3), prog_case, NULL, o);
		wide = false; trys = 4;
		snprintf(nm, sizeof nm, "%s-4-try", ctxname);
		if (deep) mc_enum(nm, T(4), prog_case, NULL, o);
	}
}
static void *task_main(param_t a) { explore_all(); return NULL; }
static void guard_main(void) {
	guard {
		explore_all();
	} guarded;
}
static void *task_guard_main(param_t a) { guard_main(); return NULL; }
static void *thread_main(void *a) { explore_all(); return NULL; }

int main(int argc, char **argv) {
	mc_init(argc, argv, "X01");
	freopen("/dev/null", "w", stderr);
	const char *only = getenv("EXC_CTX");
	scope_init();
	signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL);
	mc_explore("uncaught", uncaught_fn, NULL, o);
	ctxname = "main"; explore_all();
	ctxname = "guard"; guard_main();
	ctxname = "thread"; { pthread_t t; pthread_create(&t, NULL, thread_main, NULL); pthread_join(t, NULL); }
	events_init(64);
	events_t *loop = events_create(1);
	ctxname = "task"; async_ex(Kb(512), (launch_func_t)task_main, 0); async_run(loop);
	ctxname = "guarded-task"; async_ex(Kb(512), (launch_func_t)task_guard_main, 0); async_run(loop);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
