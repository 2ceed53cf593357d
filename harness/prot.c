/* X03: every small program of protected pointers, try statements and exceptions, run with
 * the real macros and compared with a reference interpreter. */
#include "except.h"
#include "events_internal.h"
#undef open
#undef close
#undef read
#include "common.h"
#include <signal.h>

enum { PA, PN, U, M, Z, T, A, S, X, PS, UF, NK };
/* protect a block, protect a null pointer, lift the latest, point the latest elsewhere, make it
 * null, throw range_error, throw logic_error, raise(SIGTERM), nested try, protect what the latest points to again, lift
 * the latest with the function instead of the macro */
typedef struct seq seq;
typedef struct { int kind; seq *b, *h; int typed; } op;
struct seq { int n; op o[6]; };
static seq pool[64];
static int npool, nv;
enum { E_REL, E_CAUGHT, E_END, E_BAD };
typedef struct { short k, id; } ev;
static ev got[200], want[200];
static volatile int ngot, nwant;
static void log_(int k, int id) { if (ngot < 200) got[ngot] = (ev){k, id}; ngot++; }
static void wlog(int k, int id) { if (nwant < 200) want[nwant] = (ev){k, id}; nwant++; }

static char *blocks;                         /* stand-in storage, mapped high */
static volatile int nblk;
static void *blk(int i) { return blocks + 64 * i; }
static void rel(void *p) { long d = (char *)p - blocks; log_(d >= 0 && d < 64 * 200 && d % 64 == 0 ? E_REL : E_BAD, d / 64); }
static void __attribute__((noinline)) thrower(int k) {
	if (k == T) throw(range_error);
	if (k == A) throw(logic_error);
	raise(SIGTERM);
}
/* the open protections of the current try, innermost last; plain chain through the frames */
typedef struct frame { void **var; ex_ptr_t *p; struct frame *up; bool lifted; } frame;
static frame *live(frame *f) { while (f && f->lifted) f = f->up; return f; }
static int lvl;
static void run(seq *s, int i, frame *f);
static void __attribute__((noinline)) run_try(op *o) {
	if (o->typed) {
		try { run(o->b, 0, NULL); }
		catch (logic_error) { log_(E_CAUGHT, 0); run(o->h, 0, NULL); }
	} else {
		try { run(o->b, 0, NULL); }
		catch_any { log_(E_CAUGHT, 0); run(o->h, 0, NULL); }
	}
}
static void __attribute__((noinline)) run_prot(seq *s, int i, frame *f, void *val) {
	void *ptr = val;
	protected(ptr, rel);
	frame me = {&ptr, &EX_PNAME(ptr), f, false};
	run(s, i + 1, &me);
}
static void __attribute__((noinline)) run(seq *s, int i, frame *f) {
	for (; i < s->n; i++) {
		op *o = &s->o[i];
		frame *l = live(f);
		switch (o->kind) {
		case PA: run_prot(s, i, f, blk(nblk++)); return;     /* the rest of the block runs inside */
		case PN: run_prot(s, i, f, NULL); return;
		case PS: run_prot(s, i, f, *l->var); return;
		case U: { ex_ptr_t EX_PNAME(x) = *l->p; unprotected(x); l->lifted = true; break; }
		case UF: ex_unprotected_ptr(l->p); l->lifted = true; break;
		case M: *l->var = blk(nblk++); break;
		case Z: *l->var = NULL; break;
		case T: case A: case S: thrower(o->kind); log_(E_BAD, 99); break;
		case X: run_try(o); break;
		}
	}
}
/* ---- reference: returns the exception that leaves the sequence, -1 for none */
static int rblk;
static bool open_question;                    /* the same twice, with others between: not said */
static int ref_seq(seq *s) {
	int val[8], n = 0, e = -1;
	for (int i = 0; i < s->n && e < 0; i++) {
		op *o = &s->o[i];
		switch (o->kind) {
		case PA: val[n++] = rblk++; break;
		case PN: val[n++] = -1; break;
		case PS: val[n] = val[n - 1]; n++; break;
		case U: case UF: n--; break;
		case M: val[n - 1] = rblk++; break;
		case Z: val[n - 1] = -1; break;
		case T: case A: case S: e = o->kind; break;
		case X: e = ref_seq(o->b);
			if (e >= 0 && (!o->typed || e == A)) { wlog(E_CAUGHT, 0); e = ref_seq(o->h); }
			break;
		}
	}
	if (e >= 0) for (int top = n; n > 0;) {
		int v = val[--n];
		if (v < 0 || (n + 1 < top && val[n + 1] == v)) continue;   /* the same twice in a row: once */
		for (int k = n + 2; k < top; k++) open_question |= val[k] == v;
		wlog(E_REL, v);
	}
	return e;
}
/* ---- space */
static const int alpha[] = {PA, PN, U, M, Z, T, A, S, PS, UF};
static int L[4], LH[4], nA[4], maxd;
static uint64_t sspace(int d, int len);
static uint64_t xspace(int d) { return d < maxd ? 2 * sspace(d + 1, L[d + 1]) * sspace(d + 1, LH[d + 1]) : 0; }
static uint64_t sspace(int d, int len) { uint64_t c = 0, p = 1, k = nA[d] + xspace(d); for (int i = 0; i <= len; i++) { c += p; p *= k; } return c; }
static seq *dec(int d, int len, uint64_t i) {
	seq *s = &pool[npool++];
	uint64_t k = nA[d] + xspace(d), p = 1;
	int open = 0;
	s->n = 0;
	while (i >= p) { i -= p; p *= k; s->n++; }
	for (int j = 0; j < s->n; j++) {
		uint64_t v = take(&i, k);
		op *o = &s->o[j];
		if (v < nA[d]) o->kind = alpha[v];
		else {
			v -= nA[d]; o->kind = X; o->typed = v & 1; v >>= 1;
			uint64_t b = sspace(d + 1, L[d + 1]);
			if (!(o->b = dec(d + 1, L[d + 1], v % b)) || !(o->h = dec(d + 1, LH[d + 1], v / b))) return NULL;
		}
		if ((o->kind == T || o->kind == A || o->kind == S) && j + 1 < s->n) return NULL;
		if (o->kind == U || o->kind == UF || o->kind == PS || o->kind == M || o->kind == Z) { if (!open) return NULL; if (o->kind == U || o->kind == UF) open--; }
		if (o->kind == PA || o->kind == PN || o->kind == PS) open++;
	}
	return s;
}
static void p_seq(seq *s) {
	static const char *kn[] = {"protect", "protect(null)", "unprotect", "repoint", "make-null", "throw(range_error)", "throw(logic_error)", "raise(SIGTERM)", "", "protect-again", "unprotect-call"};
	for (int j = 0; j < s->n; j++) {
		if (s->o[j].kind != X) mc_note("%s; ", kn[s->o[j].kind]);
		else { mc_note("try{ "); p_seq(s->o[j].b); mc_note("}%s{ ", s->o[j].typed ? "catch(logic_error)" : "catch_any"); p_seq(s->o[j].h); mc_note("} "); }
	}
}
static const char *evs(ev *e) {
	static const char *kn[] = {"release of block", "handler", "end", "wrong"};
	static char b[4][60]; static int r; r = (r + 1) % 4;
	snprintf(b[r], 60, "%s %d", kn[e->k], e->id);
	return b[r];
}
static seq *prog;
static void __attribute__((noinline)) top(void) { try { run(prog, 0, NULL); log_(E_END, 0); } catch_any { log_(E_END, 1); } }
static void prot_case(uint64_t idx, void *arg) {
	npool = 0; ngot = nwant = 0; nblk = rblk = 0;
	prog = dec(1, L[1], idx);
	if (!prog) return;
	if (mc_verbose) { mc_note("try{ "); p_seq(prog); mc_note("}"); }
	ex_context_t *before = ex_local();
	top();
	open_question = false;
	int e = ref_seq(prog);
	if (open_question) return;
	wlog(E_END, e >= 0);
	for (int i = 0; i < ngot || i < nwant; i++) {
		mc_check("extra", i < nwant, "event %d: %s, nothing more should happen", i, evs(&got[i]));
		mc_check("missing", i < ngot, "event %d: %s is missing", i, evs(&want[i]));
		mc_check("release", got[i].k == want[i].k && got[i].id == want[i].id, "event %d: %s, should be %s", i, evs(&got[i]), evs(&want[i]));
	}
	mc_check("context", ex_local() == before, "handler context not restored");
	mc_step(ngot);
	mc_obs("%d %d", ngot, got[0].k);
}
static mc_opt o;
static const char *ctx;
static void explore(int l1, int n1, int l2, int lh2, int n2, int l3, int lh3, int n3) {
	char nm[64];
	L[1] = l1; nA[1] = n1; L[2] = l2; LH[2] = lh2; nA[2] = n2; L[3] = l3; LH[3] = lh3; nA[3] = n3;
	maxd = l3 ? 3 : l2 ? 2 : 1;
	snprintf(nm, sizeof nm, "%s-%d-%d.%d-%d.%d", ctx, l1, l2, lh2, l3, lh3);
	mc_enum(nm, sspace(1, l1), prot_case, NULL, o);
}
static void all(bool deep) {
	explore(5 + (deep && MC_THOROUGH), 9, 0, 0, 0, 0, 0, 0);
	explore(2, 10, 2, 1, 10, 0, 0, 0);
	if (deep) explore(4, 10, 0, 0, 0, 0, 0, 0);
	if (deep) explore(3, 7, 2, 1, 5, 0, 0, 0);
	if (deep) explore(2, 7, 3, 0, 9, 0, 0, 0);
	if (deep) explore(1, 7, 2, 1, 6, 1, 1, 6);
	if (deep && MC_THOROUGH) { explore(3, 8, 2, 1, 6, 0, 0, 0); explore(2, 8, 2, 2, 6, 0, 0, 0); }
}
static void *task_main(param_t a) { all(false); return NULL; }
static void *thread_main(void *a) { { try { ngot = 0; } catch_any { } } all(false); return NULL; }
static void guard_main(void) { guard { all(false); } guarded; }
int main(int argc, char **argv) {
	mc_init(argc, argv, "X03");
	freopen("/dev/null", "w", stderr);
	scope_init();
	signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL);
	blocks = rp_malloc(64 * 256);
	ctx = "main"; all(true);
	ctx = "guard"; guard_main();
	ctx = "thread"; { pthread_t t; pthread_create(&t, NULL, thread_main, NULL); pthread_join(t, NULL); }
	events_init(64);
	events_t *loop = events_create(1);
	ctx = "task"; async_ex(Kb(512), (launch_func_t)task_main, 0); async_run(loop);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
