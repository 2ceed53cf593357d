/* G01: command-line options, every argument vector over a token set, every question sequence. */
#include "events_internal.h"
#include "common.h"
#include "defers.h"

static const char *tok[] = {"-a", "-b", "-a=v", "-b=", "-a=x=y", "-h", "help", "val", "h", "e", "", "=", "-", "?", "--h"};
static const struct { const char *f; bool single; } Q[] = {{"-a", false}, {"-a", true}, {"-b", false}, {"-b", true}, {NULL, false}, {NULL, true}, {"val", true}, {"-", true}};
static int ntok, nargs, index_, required = 1;
static bool ordered;
static char *args[8], *keep[8];
static char *ref_opt;

static bool ref(const char *flag, bool single) {
	if (nargs <= required) return false;
	for (int i = index_; i < nargs; i++) {
		char *a = args[i], *eq = strchr(a, '=');
		if (!flag) {
			ref_opt = a;
			if (ordered) index_ = i + 1;
			return true;
		}
		if (!strcmp(a, flag)) {
			if (!single) i++;
			ref_opt = i < nargs ? args[i] : NULL;
			if (ordered) index_ = i + 1;
			return true;
		}
		if (single && eq && (int)strlen(flag) == eq - a && !strncmp(a, flag, eq - a)) {
			ref_opt = eq + 1;
			if (ordered) index_ = i + 1;
			return true;
		}
		if (!strcmp(a, "-h") || !strcmp(a, "--h") || !strcmp(a, "?") || !strcmp(a, "help")) return false;
	}
	return false;
}
static void ask(int q) {
	bool w = ref(Q[q].f, Q[q].single), g = getopt_has(Q[q].f, Q[q].single);
	char *o = getopts();
	mc_note(" ask %s%s;", Q[q].f ? Q[q].f : "(any)", Q[q].single ? " single" : "");
	mc_check("present", g == w, "asking for %s (%s) says %s", Q[q].f ? Q[q].f : "anything", Q[q].single ? "single" : "with value", g ? "present" : "absent");
	if (w) mc_check("value", ref_opt ? o && !strcmp(o, ref_opt) : o == NULL, "asking for %s (%s) gives \"%s\", not \"%s\"", Q[q].f ? Q[q].f : "anything", Q[q].single ? "single" : "with value", o ? o : "(none)", ref_opt ? ref_opt : "(none)");
	for (int i = 0; i <= nargs; i++) mc_check("args", args[i] == keep[i] && (i >= nargs || !i || true), "argument %d was replaced", i);
	mc_obs("%d", w);
}
static char copy[8][16];
static void set_args(uint64_t i, int n) {
	nargs = n + 1;
	args[0] = keep[0] = "prog";
	for (int k = 0; k < n; k++) { strcpy(copy[k], tok[take(&i, ntok)]); args[k + 1] = keep[k + 1] = copy[k]; mc_note(" \"%s\"", copy[k]); }
	args[n + 1] = keep[n + 1] = NULL;
	getopt_arguments_set(nargs, args);
}
static void intact(uint64_t i, int n) { for (int k = 0; k < n; k++) mc_check("text", !strcmp(copy[k], tok[take(&i, ntok)]), "argument %d was changed to \"%s\"", k + 1, copy[k]); }
static void free_case(uint64_t i, void *arg) {           /* unordered: all questions, twice */
	int n = (intptr_t)arg;
	ndfr = 0;
	index_ = 1;
	set_args(i, n);
	for (int r = 0; r < 2; r++) for (int q = 0; q < 8; q++) ask(q);
	intact(i, n);
	run_defers();
}
static int maxn, maxq;
static void ordered_fn(void *arg) {
	bool ord = arg != NULL;
	int n = mc_pick(maxn + 1, "count"), req = mc_pick(3, "required");
	uint64_t idx = 0, p = 1;
	for (int k = 0; k < n; k++) { idx += p * mc_pick(ntok, "argument"); p *= ntok; }
	ndfr = 0; index_ = 1; ordered = ord; required = req;
	set_args(idx, n);
	getopt_message_set("usage", req, ord);
	getopt_message_set("other", 0, !ord);                /* only the first one counts */
	/* all question sequences, one process each */
	int q = maxq;
	for (int k = 0; k < q; k++) ask(mc_pick(6, "question"));
	intact(idx, n);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "G01");
	mc_opt o = {0};
	scope_init();
	events_set_allocator(malloc, realloc, calloc, free);
	freopen("/dev/null", "w", stderr);
	bool th = MC_THOROUGH;
	ntok = 15;
	for (int n = 0; n <= (th ? 5 : 4); n++) {
		char nm[32];
		uint64_t c = 1;
		for (int k = 0; k < n; k++) c *= ntok;
		snprintf(nm, sizeof nm, "any-order-%d", n);
		mc_enum(nm, c, free_case, (void *)(intptr_t)n, o);
	}
	ntok = th ? 8 : 6; maxn = 3; maxq = 3;
	mc_explore("ordered", ordered_fn, (void *)1, o);
	ntok = th ? 10 : 8; maxn = 2; maxq = 2;
	mc_explore("unordered-required", ordered_fn, NULL, o);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
