/* E04: every short history of registering, removing and delivering signals, one or several
 * pending at once, with callbacks that remove, register and raise. */
#include "sim.h"

enum { NS = 3 };
static const int SIG[NS] = {SIGURG, SIGWINCH, SIGCHLD};      /* ignored by default */
typedef struct { bool on; int cb, arg; } regt;
static regt reg[NS];
static bool pending[NS], running[NS], fd_on;
static int script[NS], depth, epochs, fd_calls;
static int owed[NS];                /* deliveries whose callback has to run */
static bool maybe[NS];              /* raised while blocked and not registered: registered before it is
                                     * unblocked, it may run the callback; nothing is owed */
static void cb_a(fds_t s, int ev, void *arg), cb_b(fds_t s, int ev, void *arg);
static sig_cb const CBS[2] = {(sig_cb)cb_a, (sig_cb)cb_b};
static void add(int i, int cb) {
	int e = ++epochs;
	if (events_add(sim_loop, SIG[i], EVENTS_SIGNAL, 0, (events_cb)CBS[cb], (void *)(long)e)) mc_fail("add", "registering signal %d failed", i);
	reg[i] = (regt){true, cb, e};
}
static void del(int i) {
	if (!reg[i].on) return;
	if (i == 1 && fd_on) return;     /* would mean the descriptor of the same number */
	if (events_del(SIG[i])) mc_fail("del", "removing signal %d failed", i);
	reg[i].on = false; pending[i] = false; owed[i] = 0;
}
static void deliver_raise(int i) {
	if (depth) { if (reg[i].on) { pending[i] = true; owed[i] = 1; } else maybe[i] = true; raise(SIG[i]); return; }
	if (reg[i].on) owed[i] = 1;
	raise(SIG[i]);
}
enum { NONE, DSELF, ASELF, DASELF, RSELF, DO1, AO1, RO1, DO2, AO2, RO2, NACT };
static const char *AN[] = {"nothing", "remove itself", "register itself again", "remove and register itself", "raise itself", "remove the next", "register the next", "raise the next", "remove the one after", "register the one after", "raise the one after"};
static void act(int i, int s) {
	int o1 = (i + 1) % NS, o2 = (i + 2) % NS;
	switch (s) {
	case DSELF: del(i); break;
	case ASELF: add(i, 1); break;
	case DASELF: del(i); add(i, 1); break;
	case RSELF: deliver_raise(i); break;
	case DO1: del(o1); break; case AO1: add(o1, 1); break; case RO1: deliver_raise(o1); break;
	case DO2: del(o2); break; case AO2: add(o2, 1); break; case RO2: deliver_raise(o2); break;
	}
}
static void called(int cb, int sig, int ev, void *arg) {
	int i = 0;
	while (i < NS && SIG[i] != sig) i++;
	if (mc_verbose) mc_note("    callback %c of signal %d\n", 'a' + cb, i);
	if (i == NS) mc_fail("number", "callback for signal number %d", sig);
	if (ev != EVENTS_SIGNAL) mc_fail("event", "event value %d", ev);
	if (!reg[i].on) mc_fail("removed", "callback of signal %d, which is not registered", i);
	if (cb != reg[i].cb || (long)arg != reg[i].arg) mc_fail("stale", "signal %d: callback or argument of an earlier registration", i);
	if (!owed[i] && !maybe[i]) mc_fail("again", "signal %d: a callback without delivery", i);
	owed[i] = 0; pending[i] = false; maybe[i] = false;
	int s = script[i];
	script[i] = 0;
	depth++; running[i] = true;
	if (s && mc_verbose) mc_note("      does %s\n", AN[s]);
	if (s) act(i, s);
	depth--; running[i] = false;
}
static void cb_a(fds_t s, int ev, void *arg) { called(0, s, ev, arg); }
static void cb_b(fds_t s, int ev, void *arg) { called(1, s, ev, arg); }
static void fd_cb(fds_t fd, int ev, void *arg) { if (fd != SIG[1] || (long)arg != 4242) mc_fail("fd", "descriptor callback with wrong number or argument"); fd_calls++; }
static void state(void) {
	int n = fd_on;
	memset(maybe, 0, sizeof maybe);
	for (int i = 0; i < NS; i++) {
		n += reg[i].on;
		if (owed[i]) mc_fail("lost", "signal %d was delivered, its callback did not run", i);
		if (reg[i].on && events_loop(SIG[i]) != sim_loop) mc_fail("loop", "signal %d: the loop query gives another loop", i);
	}
	if (events_is_running(sim_loop) != (n > 0)) mc_fail("running", "%d registrations, the loop reports %s", n, n ? "stopped" : "running");
}
static bool up;
static int pipefd[2];
static void begin(void) {
	if (!up) {
		sim_start(64); up = true; real_poll = true;
		for (int k = 0; k < 8; k++) events_once(sim_loop, 0);
		if (pipe(pipefd)) mc_fail("init", "pipe");
		dup2(pipefd[0], SIG[1]);
		if (write(pipefd[1], "x", 1) != 1) mc_fail("init", "write");
	}
	if (fd_on) { events_del(SIG[1]); fd_on = false; }
	for (int i = 0; i < NS; i++) del(i);
	memset(script, 0, sizeof script); memset(owed, 0, sizeof owed); memset(pending, 0, sizeof pending);
	depth = 0;
}
enum { ADD = 0, DEL = 6, RAISE = 9, BOTH = 12, TURN = 15, FDADD, FDDEL, NOP };
static void op(int o) {
	if (mc_verbose) {
		if (o < DEL) mc_note("  register signal %d with callback %c\n", o / 2, 'a' + o % 2);
		else if (o < RAISE) mc_note("  remove signal %d\n", o - DEL);
		else if (o < BOTH) mc_note("  signal %d\n", o - RAISE);
		else if (o < TURN) mc_note("  signals %d and %d at once\n", o - BOTH, (o - BOTH + 1) % NS);
		else mc_note("  %s\n", o == TURN ? "turn" : o == FDADD ? "register the descriptor with the number of signal 1" : "remove that descriptor");
	}
	if (o < DEL) add(o / 2, o % 2);
	else if (o < RAISE) del(o - DEL);
	else if (o < BOTH) deliver_raise(o - RAISE);
	else if (o < TURN) {
		int a = o - BOTH, b = (a + 1) % NS;
		sigset_t all, old;
		sigfillset(&all);
		sigprocmask(SIG_BLOCK, &all, &old);
		owed[a] = reg[a].on; owed[b] = reg[b].on; maybe[a] = !reg[a].on; maybe[b] = !reg[b].on;
		raise(SIG[a]); raise(SIG[b]);
		sigprocmask(SIG_SETMASK, &old, NULL);
	} else switch (o) {
	case TURN: { int n = fd_calls; events_once(sim_loop, 0); if (fd_calls - n != fd_on) mc_fail("fd", "the descriptor's callback ran %d times", fd_calls - n); mc_step(1); break; }
	case FDADD: if (!fd_on) { if (events_add(sim_loop, SIG[1], EVENTS_READ, 0, fd_cb, (void *)4242)) mc_fail("fd", "add failed"); fd_on = true; } break;
	case FDDEL: if (fd_on) { if (events_del(SIG[1])) mc_fail("fd", "del failed"); fd_on = false; } break;
	}
	state();
}
typedef struct { int d, scripts; } cfg;
static uint64_t space(cfg *c) { uint64_t n = 1; for (int k = 0; k < c->d; k++) n *= NOP; for (int k = 0; k < c->scripts; k++) n *= NACT; return n; }
static void one(uint64_t idx, void *arg) {
	cfg *c = arg;
	int ops[8], s[NS] = {0};
	for (int k = 0; k < c->d; k++) { ops[k] = idx % NOP; idx /= NOP; }
	for (int k = 0; k < c->scripts; k++) { s[k] = idx % NACT; idx /= NACT; }
	if (ops[0] >= DEL && ops[0] != FDADD) mc_skip();
	begin();
	if (mc_verbose) for (int k = 0; k < c->scripts; k++) mc_note("the first callback of signal %d does %s\n", k, AN[s[k]]);
	memcpy(script, s, sizeof s);
	if (c->scripts) { op(ADD); op(ADD + 2); }
	for (int k = 0; k < c->d; k++) op(ops[k]);
	for (int i = 0; i < NS; i++) op(RAISE + i);
	op(TURN);
	mc_obs("%d%d%d", reg[0].on, reg[1].on, reg[2].on);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "E04");
	mc_opt o = {.timeout_s = 20, .recycle = 5000};
	static cfg p4 = {4, 0}, p5 = {5, 0}, s3 = {3, 2}, s33 = {3, 3}, s4 = {4, 2};
	mc_enum("histories-4", space(&p4), one, &p4, o);
	mc_enum("in-callbacks-3", space(&s3), one, &s3, o);
	mc_enum("histories-5", space(&p5), one, &p5, o);
	if (MC_THOROUGH) {
		mc_enum("in-callbacks-3-3", space(&s33), one, &s33, o);
		mc_enum("in-callbacks-4", space(&s4), one, &s4, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
