/* I01: async_read, async_read2, async_write and async_wait on a stand-in for the kernel that
 * decides at every call how much it transfers, whether it asks to wait, fails or ends the stream,
 * and in every turn which of the ready descriptors it reports. */
#include "sim.h"
#include <errno.h>
#include <fcntl.h>

#define BASE 40
enum { NF = 6, NC = 3, CAP = 8 };
static struct { unsigned char b[CAP]; int n, cap; bool wclosed, rclosed; unsigned wtot, rtot; } ch[NC];
static struct { int src, out; bool open; uint32_t ev; uint64_t data; bool reg; unsigned reported; unsigned gen[2]; bool broken; bool waited[2]; int last, lasterr; bool answered; } fd_[NF];
static bool model, deviate;
static int budget_wait;                  /* would-blocks that no lack of data or room explains */
static int dev(int n, const char *w) { return deviate ? mc_choose(n, w) : 0; }
static int at(int fd) { return model && fd >= BASE && fd < BASE + NF ? fd - BASE : -1; }
/* the buffer of the call under way, per descriptor and direction */
static struct { char *b; int n, done; bool on; } call[NF][2];
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_epoll_ctl(int, int, int, struct epoll_event *);
static void attempt(int f, int w) {
	if (!fd_[f].open) mc_fail("closed", "a transfer on closed descriptor %d", f);
	if (fd_[f].waited[w] && !(fd_[f].reported & (w ? 2 : 1))) mc_fail("spin", "descriptor %d asked to wait, the call tries again though it was not reported ready", f);
	fd_[f].waited[w] = false;
	fd_[f].reported &= w ? ~2u : ~1u;
	polls_since = 0;
	mc_step(1);
}
static ssize_t fails(int f, int e) { errno = fd_[f].lasterr = e; fd_[f].last = -1; if (mc_verbose) mc_note("    fd %d: %s\n", f, e == EAGAIN ? "would block" : strerror(e)); return -1; }
static const int ERRS[] = {EINTR, ECONNRESET, EIO};
ssize_t __wrap_read(int fd, void *buf, size_t len) {
	int f = at(fd);
	if (f < 0) return __real_read(fd, buf, len);
	attempt(f, 0);
	if (fd_[f].broken) return fails(f, EIO);
	if (!call[f][0].on || (char *)buf < call[f][0].b || (char *)buf + len > call[f][0].b + call[f][0].n) mc_fail("buffer", "read into %zu bytes outside the caller's buffer of %d", len, call[f][0].n);
	int c = fd_[f].src, nat = ch[c].n < (int)len ? ch[c].n : (int)len;
	bool eof = !ch[c].n && ch[c].wclosed, none = !ch[c].n && !eof && len;
	int alt = none ? 1 : budget_wait ? nat + 1 : nat ? nat : 1;       /* natural, fewer bytes, would block */
	int k = dev(alt + 3, "read");
	if (k >= alt) return fails(f, ERRS[k - alt]);
	if (none) { fd_[f].waited[0] = true; return fails(f, EAGAIN); }
	if (k && k == alt - 1 && budget_wait) { budget_wait--; fd_[f].waited[0] = true; return fails(f, EAGAIN); }
	int m = k ? k : nat;
	memcpy(buf, ch[c].b, m);
	memmove(ch[c].b, ch[c].b + m, ch[c].n -= m);
	ch[c].rtot += m;
	fd_[f].last = m;
	if (mc_verbose) mc_note("    fd %d: %d of %zu bytes read\n", f, m, len);
	return m;
}
ssize_t __wrap_write(int fd, const void *buf, size_t len) {
	int f = at(fd);
	if (f < 0) return __real_write(fd, buf, len);
	attempt(f, 1);
	if (fd_[f].broken) return fails(f, EIO);
	if (!call[f][1].on || (const char *)buf < call[f][1].b || (const char *)buf + len > call[f][1].b + call[f][1].n) mc_fail("buffer", "write of %zu bytes outside the caller's buffer", len);
	int c = fd_[f].out, room = ch[c].cap - ch[c].n, nat = room < (int)len ? room : (int)len;
	if (ch[c].rclosed) return fails(f, EPIPE);
	bool none = !room && len;
	int alt = none ? 1 : budget_wait ? nat + 1 : nat ? nat : 1;
	int k = dev(alt + 3, "write");
	if (k >= alt) return fails(f, ERRS[k - alt]);
	if (none) { fd_[f].waited[1] = true; return fails(f, EAGAIN); }
	if (k && k == alt - 1 && budget_wait) { budget_wait--; fd_[f].waited[1] = true; return fails(f, EAGAIN); }
	int m = k ? k : nat;
	for (int i = 0; i < m; i++) {
		unsigned char want = (unsigned char)(ch[c].wtot * 7 + 3 + c);
		if (((const unsigned char *)buf)[i] != want) mc_fail("order", "byte %u of the stream is written as %02x, not %02x", ch[c].wtot, ((const unsigned char *)buf)[i], want);
		ch[c].b[ch[c].n++] = want;
		ch[c].wtot++;
	}
	fd_[f].last = m;
	call[f][1].done += m;
	if (mc_verbose) mc_note("    fd %d: %d of %zu bytes written\n", f, m, len);
	return m;
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
	int f = at(fd);
	if (f < 0) return __real_epoll_ctl(ep, op, fd, e);
	if (!fd_[f].open) { errno = EBADF; return -1; }
	if (op == EPOLL_CTL_ADD ? fd_[f].reg : !fd_[f].reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
	fd_[f].reg = op != EPOLL_CTL_DEL;
	if (mc_verbose) mc_note("    epoll_ctl fd %d op %d events %x\n", f, op, op == EPOLL_CTL_DEL ? 0 : e->events);
	if (fd_[f].reg) { fd_[f].ev = e->events; fd_[f].data = e->data.u64; }
	return 0;
}
static uint32_t ready(int f) {
	uint32_t r = fd_[f].broken ? EPOLLIN | EPOLLERR : 0;
	int i = fd_[f].src, o = fd_[f].out;
	if (i >= 0) r |= (ch[i].n ? EPOLLIN : 0) | (ch[i].wclosed ? (o >= 0 ? EPOLLIN : EPOLLHUP) : 0);
	if (o >= 0) r |= (ch[o].n < ch[o].cap ? EPOLLOUT : 0) | (ch[o].rclosed ? EPOLLERR : 0);
	return r;
}
static unsigned ticks, tick_mark, quiet;
static bool ticking;
static int answer(struct epoll_event *ev, int n, int timeout) {
	(void)timeout;
	if (ticking) {
		if (ticks == tick_mark) { if (++quiet > 8) mc_fail("starved", "the other task did not run for eight turns"); }
		else quiet = 0;
		tick_mark = ticks;
	}
	if (polls_since > 60) mc_fail("stuck", "sixty turns without a transfer, though a waiting task's descriptor is ready");
	int set[NF], k = 0, m = 0;
	for (int f = 0; f < NF; f++) if (fd_[f].open && fd_[f].reg && ready(f) & (fd_[f].ev | EPOLLERR | EPOLLHUP)) set[k++] = f;
	if (k) {
		int c = dev(k + 1, "poll");     /* which is reported first, or none yet */
		if (c < k) for (int i = 0; i < k && m < n; i++) {
			int f = set[(i + c) % k];
			uint32_t r = ready(f) & (fd_[f].ev | EPOLLERR | EPOLLHUP);
			ev[m].events = r; ev[m].data.u64 = fd_[f].data; m++;
			for (int d = 0; d < 2; d++) if (r & (EPOLLHUP | EPOLLERR | (d ? EPOLLOUT : EPOLLIN))) fd_[f].gen[d]++;
			if (r & (EPOLLIN | EPOLLHUP)) fd_[f].reported |= 1;
			if (r & EPOLLOUT) fd_[f].reported |= 2;
			if (r & EPOLLERR) fd_[f].reported |= 3;
			if (mc_verbose) mc_note("  turn: fd %d reported %s%s%s\n", f, r & EPOLLIN ? "in " : "", r & EPOLLOUT ? "out " : "", r & (EPOLLERR | EPOLLHUP) ? "error/hangup" : "");
		}
	}
	return m;
}
/* ---- programs: one string per task.  r/w n: transfer of n bytes, q n: read that waits first,
 * a / b: wait for reading / writing, y: give way, c: close.  The task's descriptor is its number's. */
typedef struct { const char *p[3]; int fd[3], cap; bool duplex, tick; } prog;
static const prog *P;
static int running, shared[NF];
static void shut(int f) {
	if (--shared[f] > 0) return;
	fd_[f].open = fd_[f].reg = false;
	if (fd_[f].src >= 0) ch[fd_[f].src].rclosed = true;
	if (fd_[f].out >= 0) ch[fd_[f].out].wclosed = true;
	polls_since = 0;
}
static unsigned char tail_before[8];
static void *body(param_t a) {
	int t = a[0].integer, f = P->fd[t], fd = BASE + f;
	volatile int local = 0x5a0 + t;
	const char *s = P->p[t];
	for (; *s; s++) {
		char op = *s;
		int n = (op == 'r' || op == 'w' || op == 'q') ? *++s - '0' : 0;
		if (mc_verbose) mc_note("  task %d: %c%d\n", t, op, n);
		if (op == 'y') { yield(); continue; }
		if (op == 'a' || op == 'b') {
			unsigned g = fd_[f].gen[op == 'b'];
			async_wait(fd, op == 'a' ? 'r' : 'w');
			if (fd_[f].gen[op == 'b'] == g) mc_fail("woken", "async_wait returned though descriptor %d was not reported ready", f);
			polls_since = 0;
			continue;
		}
		char mem[32];
		memset(mem, 0xEE, sizeof mem);
		char *b = mem + 8;
		int w = op == 'w';
		if (call[f][w].on) mc_fail("mc-harness", "two calls in one direction");
		call[f][w].b = b; call[f][w].n = n; call[f][w].done = 0; call[f][w].on = true;
		fd_[f].last = -2;
		unsigned from = w ? ch[fd_[f].out].wtot : ch[fd_[f].src].rtot;
		if (w) for (int i = 0; i < n; i++) b[i] = (from + i) * 7 + 3 + fd_[f].out;
		errno = 77;
		int r = w ? async_write(fd, b, n) : op == 'q' ? async_read2(fd, b, n) : async_read(fd, b, n), e = errno;
		call[f][w].on = false;
		if (local != 0x5a0 + t) mc_fail("state", "a task lost its local state");
		int last = fd_[f].last, le = fd_[f].lasterr;
		if (P->duplex) last = r;          /* the other direction's calls come in between */
		if (w) {
			if (r >= 0 && r != n) mc_fail("short", "async_write of %d bytes returned %d (written %d)", n, r, call[f][1].done);
			if (r >= 0 && call[f][1].done != n) mc_fail("short", "async_write of %d bytes returned %d, %d were written", n, r, call[f][1].done);
			if (last == -1 && r >= 0 && call[f][1].done != n) mc_fail("error", "a failed write is reported as %d", r);
			if (r < 0 && last != -1) mc_fail("error", "async_write fails though the kernel did not");
		} else {
			if (n && last == -2) mc_fail("invented", "async_read returned %d without reading", r);
			if (last != -2 && r != last) mc_fail("result", "async_read returned %d, the kernel's read %d", r, last);
			for (int i = 0; i < 24; i++) {
				unsigned char want = i >= 8 && r > 0 && i < 8 + r ? (from + i - 8) * 7 + 3 + fd_[f].src : 0xEE;
				if (mem[i] != (char)want && (i < 8 || i >= 8 + n || i < 8 + r)) mc_fail("bytes", "byte %d of the buffer is %02x, not %02x (read %d of %d)", i - 8, (unsigned char)mem[i], want, r, n);
			}
			if (r >= 0 && ch[fd_[f].src].rtot != from + r) mc_fail("lost", "%u bytes left the descriptor, async_read returned %d", ch[fd_[f].src].rtot - from, r);
		}
		if (r < 0 && !P->duplex && (e != le || e == EAGAIN)) mc_fail("errno", "errno %d, the kernel's %d", e, le);
		mc_obs("%c%d=%d", op, n, r);
		if (r < 0) { if (P->duplex) fd_[f].broken = true; break; }       /* for the other task on it as well */
		if (op != 'w' && r == 0 && n) break;
	}
	running--;
	shut(f);
	return NULL;
}
static void *ticker(param_t a) { (void)a; while (running) { ticks++; yield(); } ticking = false; return NULL; }
static bool up;
static void once(const prog *p) {
	P = p;
	if (!up) { sim_start(64); up = true; poll_answer = answer; }
	model = false;
	memset(ch, 0, sizeof ch); memset(call, 0, sizeof call); memset(shared, 0, sizeof shared);
	for (int f = 0; f < NF; f++) { fd_[f].src = fd_[f].out = -1; fd_[f].open = fd_[f].reg = false; fd_[f].reported = 0; fd_[f].broken = false; fd_[f].waited[0] = fd_[f].waited[1] = false; }
	for (int c = 0; c < NC; c++) ch[c].cap = p->cap;
	if (p->duplex) { fd_[0].src = 1; fd_[0].out = 0; fd_[1].src = 0; fd_[1].out = 1; }
	else { fd_[0].out = 0; fd_[1].src = 0; fd_[2].out = 1; fd_[3].src = 1; }
	for (int f = 0; f < 4; f++) fd_[f].open = true;
	running = 0; ticks = tick_mark = quiet = 0; polls_since = 0;
	budget_wait = 2;
	if (mc_verbose) mc_note("capacity %d\n", p->cap);
	model = true;
	for (int t = 0; t < 3; t++) if (p->p[t]) { shared[p->fd[t]]++; running++; if (mc_verbose) mc_note("task %d on fd %d: %s\n", t, p->fd[t], p->p[t]); }
	for (int f = 0; f < 4; f++) if (!shared[f]) { shared[f] = 1; shut(f); }
	ticking = p->tick;
	for (int t = 0; t < 3; t++) if (p->p[t]) async_task((param_func_t)body, 1, t);
	if (ticking) async_task((param_func_t)ticker, 0);
	async_run(sim_loop);
	if (running) mc_fail("lost", "the run ended, %d tasks did not", running);
	model = false;
}
static void explored(void *a) { deviate = true; once(a); mc_done(); }
static const char *const WR[] = {"w1", "w2", "w3", "y", "w5", "b", "w0"}, *const RD[] = {"r1", "r2", "r4", "q2", "y", "a", "q1", "r0"};
typedef struct { int wn, wl, rn, rl, caps; } cfg;
static uint64_t strs(int k, int n) { uint64_t s = 0, p = 1; for (int i = 1; i <= n; i++) { p *= k; s += p; } return s; }
static void unstr(uint64_t i, const char *const *al, int k, char *out) {
	uint64_t p = k; int n = 1;
	while (i >= p) { i -= p; p *= k; n++; }
	*out = 0;
	while (n--) { strcat(out, al[i % k]); i /= k; }
}
static uint64_t space(cfg *c) { return strs(c->wn, c->wl) * strs(c->rn, c->rl) * c->caps * 4; }
static void natural(uint64_t idx, void *a) {
	cfg *c = a;
	char w[32], r[32];
	unstr(take(&idx, strs(c->wn, c->wl)), WR, c->wn, w);
	unstr(take(&idx, strs(c->rn, c->rl)), RD, c->rn, r);
	static prog p;
	p = (prog){.cap = 1 + take(&idx, c->caps)};
	p.tick = take(&idx, 2);
	int o = take(&idx, 2);
	p.p[o] = w; p.fd[o] = 0; p.p[!o] = r; p.fd[!o] = 1;
	deviate = false;
	once(&p);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I01");
	bool th = MC_THOROUGH;
	mc_opt o = {.timeout_s = 20, .recycle = 4000};
	static cfg q = {7, 2, 8, 3, 3}, t = {7, 3, 8, 4, 4};
	mc_enum("programs", space(&q), natural, &q, o);
	if (th) mc_enum("programs-longer", space(&t), natural, &t, o);
	static const struct { const char *n; prog p; int b; } L[] = {
		{"read-1", {{"w2", "r1r1r1"}, {0, 1}, 2}, 3},
		{"read-2", {{"w3", "r2r2r2"}, {0, 1}, 3}, 3},
		{"read-first", {{"w3", "q2q2q2"}, {0, 1}, 2}, 3},
		{"write", {{"w4", "r4r4r4r4"}, {0, 1}, 2}, 3},
		{"write-6", {{"w6", "r4r4r4"}, {0, 1}, 3}, 3},
		{"write-twice", {{"w2w3", "r2r2r2r2"}, {0, 1}, 2}, 3},
		{"waits", {{"yw2bw2", "ar1ar2a"}, {0, 1}, 2}, 3},
		{"ticked", {{"w3w1", "r1r2r2"}, {0, 1}, 2, false, true}, 3},
		{"early-close", {{"w3w3", "r1"}, {0, 1}, 2}, 3},
		{"two-pipes", {{"w3", "r2r2", "w2"}, {0, 1, 2}, 2}, 2},
		{"two-readers", {{"r2r1", "yw2w1", "r1"}, {1, 0, 3}, 2}, 3},
		{"relay", {{"w2w1", "r1r1r1r1", "r1"}, {0, 1, 3}, 1}, 2},
	};
	for (unsigned i = 0; i < sizeof L / sizeof *L; i++) { o.bound = L[i].b + th; mc_explore(L[i].n, explored, (void *)&L[i].p, o); }
	static const struct { const char *n; prog p; int b; } D[] = {
		{"duplex-1", {{"r2r2", "w3", "w2r3r1"}, {0, 0, 1}, 2, true}, 3},
		{"duplex-2", {{"w3", "r2", "r2r2w2"}, {0, 0, 1}, 1, true}, 3},
		{"duplex-3", {{"w2w2", "r1r1", "w2r4r4"}, {0, 0, 1}, 1, true}, 3},
		{"duplex-4", {{"aw2", "ab", "yw1r1r1"}, {0, 0, 1}, 2, true}, 3},
	};
	for (unsigned i = 0; i < sizeof D / sizeof *D; i++) { o.bound = D[i].b + th; mc_explore(D[i].n, explored, (void *)&D[i].p, o); }
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
