/* I04: every short history of handing out, assigning, freeing and closing pseudo descriptors,
 * with every number asked about after every step; also with a nearly full and a growing table. */
#include "sim.h"
#include <errno.h>
#include <fcntl.h>

enum { MAXN = 1024 };
static struct { bool live, same; int map, type; } m[MAXN];
static bool watched;                        /* assigned to a watch, whose event descriptor is its own business */
static int order[MAXN], nlive;              /* live numbers, oldest first */
static int size = 256;
static const int SRC[] = {50, 51}, HND[] = {60, 61};
static int devnull;
static void fresh(int fd) { if (fcntl(fd, F_GETFD) < 0) dup2(devnull, fd); }
static void drop(int k) { m[order[k]].live = false; memmove(order + k, order + k + 1, (--nlive - k) * sizeof *order); }
static void look(void) {
	for (int p = -2; p < size + 3; p++) {
		bool in_range = p >= 0 && p < size, v = in_range && m[p].live && m[p].map != -1;
		if (events_valid_fd(p) != v) mc_fail("valid", "events_valid_fd(%d) is %d, the number is %s", p, !v, !in_range || !m[p].live ? "not live" : v ? "live" : "not assigned");
		int g = (int)events_get_fd(p), want = v ? m[p].map : p;
		if (g != want) mc_fail("map", "events_get_fd(%d) is %d, not %d", p, g, want);
	}
}
static int make(int type, int fd, int want) {
	fresh(fd);
	bool full = true;
	for (int i = 1; i < size; i++) full &= m[i].live;
	int p = events_new_fd(type, fd, want);
	if (mc_verbose) mc_note("  new(type %d, fd %d, desired %d) = %d\n", type, fd, want, p);
	bool d = want >= 0 && want < size && !m[want].live;
	if (d) { if (p != want) mc_fail("desired", "asked for the free number %d, got %d", want, p); }
	else if (full) { if (p != -1) mc_fail("full", "the table is full, number %d was handed out", p); return -1; }
	else {
		if (p < 0 || p >= size) mc_fail("refused", "no number (%d) though some are free", p);
		if (m[p].live) mc_fail("shared", "number %d was handed out while it is live", p);
		if (fd < size && !m[fd].live && p != fd) mc_fail("own", "number %d, though the descriptor's own, %d, is free", p, fd);
	}
	m[p].live = true; m[p].map = want; order[nlive++] = p;
	m[p].type = type;
	m[p].same = want == fd;         /* released together with the number */
	return p;
}
static void assign(int h, int p) {
	bool r = events_assign_fd(HND[h], p);
	if (mc_verbose) mc_note("  assign(%d, %d) = %d\n", HND[h], p, r);
	if (r != (p >= 0 && p < size)) mc_fail("assign", "assigning to number %d gave %d", p, r);
	if (p >= 0 && p < size) { m[p].map = HND[h]; watched |= m[p].type == FD_MONITOR_SYNC; }
}
static void release(int k, bool by_close) {
	int p = order[k];
	if (m[p].map < 40 || m[p].map > 100) by_close = false;       /* closing has no resource to act on */
	if (m[p].type == FD_MONITOR_SYNC) by_close = false;          /* the number names a watch, closing one a descriptor */
	if (mc_verbose) mc_note("  %s(%d)\n", by_close ? "close" : "free", p);
	if (by_close) {
		if (m[p].map >= 0) fresh(m[p].map);
		int t = m[p].map;
		int r = os_close(p);
		if (m[p].type == FD_CHILD) {         /* a process, its number is not a descriptor's */
			if (t >= 40 && !m[p].same && fcntl(t, F_GETFD) < 0) mc_fail("close-process", "closing the number of process %d closed descriptor %d", t, t);
			drop(k);
			return;
		}
		if (t >= 40 && ((r && !m[p].same) || fcntl(t, F_GETFD) >= 0)) mc_fail("close", "closing number %d gave %d, the descriptor %d behind it is %s", p, r, t, fcntl(t, F_GETFD) >= 0 ? "open" : "closed");
	} else events_free_fd(p);
	drop(k);
}
static const int DES[] = {-1, 1, 50, 0, 51, 255, 256, 60000, 2}, TYPES[] = {FD_FILE_ASYNC, FD_CHILD, FD_MONITOR_SYNC};
typedef struct { int types, srcs, des, handles, slots, depth, keep; } cfg;
static int letters(const cfg *c) { return c->types * c->srcs * c->des + c->handles * (c->slots + 1) + 2 * c->slots + 2; }
static void step(const cfg *c, int o) {
	int n = c->types * c->srcs * c->des;
	if (o < n) { make(TYPES[o / c->srcs / c->des], SRC[o / c->des % c->srcs], DES[o % c->des]); return; }
	o -= n;
	if (o < c->handles * (c->slots + 1)) {
		int k = o / c->handles;
		if (k == c->slots) { assign(o % c->handles, size); return; }
		if (k >= nlive) mc_skip();
		assign(o % c->handles, order[nlive - 1 - k]);
		return;
	}
	o -= c->handles * (c->slots + 1);
	if (o < 2 * c->slots) { if (o / 2 >= nlive) mc_skip(); release(nlive - 1 - o / 2, o & 1); return; }
	o -= 2 * c->slots;
	/* freeing what is not live does nothing */
	for (int k = 0; !o && k < nlive; k++) if (order[k] == 7) { release(k, false); return; }
	events_free_fd(o ? size + 1 : 7);
	if (mc_verbose) mc_note("  free(%d), not live\n", o ? size + 1 : 7);
}
static bool up;
static void one(uint64_t idx, void *a) {
	cfg *c = a;
	/* infeasible histories first, so that nothing is left behind */
	int L = letters(c), ops[8], live = c->keep, n = c->types * c->srcs * c->des;
	for (int i = 0; i < c->depth; i++) {
		ops[i] = take(&idx, L);
		int o = ops[i];
		if (o < n) { live++; continue; }
		if ((o -= n) < c->handles * (c->slots + 1)) { if (o / c->handles < c->slots && o / c->handles >= live) mc_skip(); continue; }
		if ((o -= c->handles * (c->slots + 1)) < 2 * c->slots) { if (o / 2 >= live) mc_skip(); live--; }
	}
	if (!up) { sim_start(1024); up = true; devnull = 45; dup2(__extension__ ({ int f = open("/dev/null", O_RDWR); f; }), 45); }
	int low = dup(devnull), end;
	close(low);
	for (int i = 0; i < c->keep; i++) make(FD_MONITOR_SYNC, 70, -1);
	if (c->keep) look();
	for (int i = 0; i < c->depth; i++) { step(c, ops[i]); look(); mc_step(1); }
	while (nlive) release(nlive - 1, false);
	look();
	end = dup(devnull);
	close(end);
	if (watched) { watched = false; for (int f = low; f < 40; f++) close(f); }
	else if (end != low) mc_fail("leak", "every number is free again, descriptor %d is still open", low);
	for (int i = 0; i < 2; i++) { close(SRC[i]); close(HND[i]); }
	close(70);
}
static void nothing(fds_t fd, int ev, void *arg) { (void)fd; (void)ev; (void)arg; }
static const cfg G = {1, 1, 3, 1, 2, 2, 0};
static void growing(void *a) {
	int n = *(int *)a;
	sim_start(1024);
	devnull = 45;
	int f = open("/dev/null", O_RDWR);
	dup2(f, 45);
	int L = letters(&G);
	for (int i = 0; i < 2; i++) { step(&G, mc_pick(L, "before")); look(); }
	int p[2];
	if (pipe(p)) mc_fail("init", "pipe");
	for (int i = 0; i < n; i++) { int d = 300 + i; dup2(p[0], d); if (events_add(sim_loop, d, EVENTS_READ, 0, nothing, NULL)) mc_fail("init", "events_add"); }
	/* a number for a registered descriptor makes the table grow as far as the loop needs it */
	int own = 300 + n - 1;
	while (size <= n) size *= 2;
	int q = events_new_fd(FD_FILE_ASYNC, own, -1);
	if (q != own && own < size) mc_fail("own", "number %d, though the descriptor's own, %d, is free in the grown table", q, own);
	m[q].live = true; m[q].map = -1; order[nlive++] = q;
	look();
	for (int i = 0; i < 2; i++) { step(&G, mc_pick(L, "after")); look(); }
	mc_done();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I04");
	bool th = MC_THOROUGH;
	mc_opt o = {.timeout_s = 20, .recycle = 4000};
	static struct { const char *n; cfg c; bool th; } S[] = {
		{"histories-3-wide", {3, 2, 9, 2, 2, 3, 0}},
		{"histories-4", {1, 2, 4, 1, 2, 4, 0}},
		{"histories-5", {1, 1, 3, 1, 2, 5, 0}},
		{"histories-6", {1, 1, 2, 1, 2, 6, 0}},
		{"histories-6-wide", {1, 1, 3, 1, 2, 6, 0}, true},
		{"histories-4-wide", {2, 2, 5, 1, 3, 4, 0}, true},
		{"full-1", {1, 1, 3, 1, 2, 3, 254}},
		{"full", {1, 1, 3, 1, 2, 3, 255}},
	};
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
		if (S[i].th && !th) continue;
		uint64_t n = 1;
		for (int k = 0; k < S[i].c.depth; k++) n *= letters(&S[i].c);
		mc_enum(S[i].n, n, one, &S[i].c, o);
	}
	static int N[] = {256, 300, 513};
	for (int i = 0; i < 3; i++) { char name[40]; snprintf(name, sizeof name, "growing-%d", N[i]); mc_explore(name, growing, &N[i], o); }
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
