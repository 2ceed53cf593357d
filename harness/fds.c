/* E01: every short history of registrations, interest and callback changes, removals and
 * readiness changes on real descriptors, also from inside the callbacks of a turn. */
#include "sim.h"
#include <poll.h>
#include <fcntl.h>
#include <sys/socket.h>

enum { NF = 2 };
static const int FD[NF] = {20, 37}, PEER[NF] = {120, 137};
static bool dirty[NF], full[NF], peer_gone[NF], opened;
typedef struct { bool on; int interest, cb, arg; } regt;
static regt reg[NF];
static int start[NF], calls[NF], epoch[NF];
static bool touched[NF], fresh[NF], in_turn;
static int script[NF];              /* what the next callback of this descriptor does */
static void pair(int i) {
	int p[2], sz = 1;
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) mc_fail("init", "socketpair");
	dup2(p[0], FD[i]); dup2(p[1], PEER[i]);
	close(p[0]); close(p[1]);
	setsockopt(FD[i], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
	dirty[i] = full[i] = peer_gone[i] = false;
}
static int ready(int i) {
	struct pollfd p = {.fd = FD[i], .events = ((reg[i].interest & 1) ? POLLIN : 0) | ((reg[i].interest & 2) ? POLLOUT : 0)};
	poll(&p, 1, 0);
	int r = ((p.revents & POLLIN) ? 1 : 0) | ((p.revents & POLLOUT) ? 2 : 0);
	if (p.revents & POLLERR) r |= reg[i].interest;        /* whoever waits is to try again */
	if (p.revents & POLLHUP) r |= EVENTS_CLOSED;
	return r;
}
static void peer_write(int i) { if (!peer_gone[i]) { char c = 'x'; if (write(PEER[i], &c, 1) == 1) dirty[i] = true; } }
static void drain(int i) { char b[256]; while (read(FD[i], b, sizeof b) > 0) ; }
static void fill(int i) { char b[4096] = {0}; while (write(FD[i], b, sizeof b) > 0) ; while (write(FD[i], b, 1) > 0) ; full[i] = dirty[i] = true; }
static void unfill(int i) { char b[65536]; while (read(PEER[i], b, sizeof b) > 0) ; full[i] = false; }
static void cb_a(fds_t fd, int ev, void *arg), cb_b(fds_t fd, int ev, void *arg);
static events_cb const CBS[2] = {cb_a, cb_b};
static void add(int i, int interest) {
	int cb = epoch[i] & 1;
	epoch[i]++;
	if (events_add(sim_loop, FD[i], interest, 0, CBS[cb], (void *)(long)(1000 * i + epoch[i]))) mc_fail("add", "events_add refused descriptor %d", i);
	if (!reg[i].on) fresh[i] = true;
	reg[i] = (regt){true, interest, cb, 1000 * i + epoch[i]};
	touched[i] = true;
}
static void del(int i) {
	int r = events_del(FD[i]);
	if ((r == 0) != reg[i].on) mc_fail("del", "events_del gave %d for a descriptor that was%s registered", r, reg[i].on ? "" : " not");
	reg[i].on = false; touched[i] = true;
}
static void set(int i, int interest) {
	if (!reg[i].on) return;
	if (events_set_event(FD[i], interest)) mc_fail("set", "events_set_event failed");
	reg[i].interest = interest; touched[i] = true;
}
static void swap(int i, bool with_arg) {
	if (!reg[i].on) return;
	void *arg = (void *)(long)(1000 * i + ++epoch[i]);
	reg[i].cb ^= 1;
	if (with_arg) reg[i].arg = 1000 * i + epoch[i];
	events_set_callback(sim_loop, FD[i], CBS[reg[i].cb], with_arg ? &arg : NULL);
	touched[i] = true;
}
static void reopen(int i) {
	if (reg[i].on) del(i);
	close(FD[i]); close(PEER[i]);
	pair(i);
	touched[i] = fresh[i] = true;
}
enum { A1, A2, A3, DEL, S1, S2, S3, CB, CBA, PW, DR, FL, PC, RO, NOPS, TURN = 2 * NOPS, NALL };
static const char *OPN[] = {"add-read", "add-write", "add-both", "del", "set-read", "set-write", "set-both", "callback", "callback+arg", "peer-writes", "drain", "fill", "peer-closes", "reopen"};
static void op1(int i, int op) {
	switch (op) {
	case A1: case A2: case A3: add(i, op - A1 + 1); break;
	case DEL: del(i); break;
	case S1: case S2: case S3: set(i, op - S1 + 1); break;
	case CB: case CBA: swap(i, op == CBA); break;
	case PW: peer_write(i); break;
	case DR: drain(i); break;
	case FL: if (full[i]) unfill(i); else fill(i); break;
	case PC: if (!peer_gone[i]) { close(PEER[i]); peer_gone[i] = true; } break;
	case RO: reopen(i); break;
	}
}
/* what a callback may do: nothing, or to itself or the other one */
enum { NONE, ADEL, ADELADD, AS1, AS2, AS3, ACB, ACBA, ADR, AREADD1, AREADD3, ARDADD, NACT };
static const char *ACTN[] = {"nothing", "del", "del+add-both", "set-read", "set-write", "set-both", "callback", "callback+arg", "drain", "reopen+add-read", "reopen+add-both", "add-both"};
static void act(int i, int a) {
	switch (a) {
	case ADEL: if (reg[i].on) del(i); break;
	case ADELADD: if (reg[i].on) del(i); add(i, 3); break;
	case AS1: case AS2: case AS3: set(i, a - AS1 + 1); break;
	case ACB: case ACBA: swap(i, a == ACBA); break;
	case ADR: drain(i); break;
	case AREADD1: case AREADD3: reopen(i); add(i, a == AREADD1 ? 1 : 3); break;
	case ARDADD: add(i, 3); break;
	}
}
static void called(int cb, fds_t fd, int ev, void *arg) {
	int i = 0;
	while (i < NF && FD[i] != fd) i++;
	if (mc_verbose) mc_note("    callback %c of descriptor %d: events %d\n", 'a' + cb, i, ev);
	if (i == NF) mc_fail("unknown", "callback for descriptor number %d", fd);
	if (!in_turn) mc_fail("outside", "callback outside a turn");
	if (!reg[i].on) mc_fail("removed", "callback of descriptor %d, which is not registered", i);
	if (cb != reg[i].cb) mc_fail("callback", "descriptor %d: the replaced callback ran", i);
	if ((long)arg != reg[i].arg) mc_fail("argument", "descriptor %d: argument %ld, registered %d", i, (long)arg, reg[i].arg);
	if (calls[i]++) mc_fail("twice", "descriptor %d: two callbacks in one turn", i);
	int now = ready(i);
	if (!touched[i]) {
		if (!start[i]) mc_fail("spurious", "descriptor %d: callback with events %d, it is not ready", i, ev);
		if (ev != start[i]) mc_fail("value", "descriptor %d: event value %d, ready for %d of interest %d", i, ev, start[i], reg[i].interest);
	} else if (!(ev & 4)) {
		if (!ev || (ev & ~reg[i].interest)) mc_fail("interest", "descriptor %d: event value %d, interest %d", i, ev, reg[i].interest);
		if (fresh[i] && (ev & ~now)) mc_fail("spurious", "descriptor %d was registered anew: event value %d, ready for %d", i, ev, now);
	} else if (!(now & 4)) mc_fail("spurious", "descriptor %d: closed event, its peer is there", i);
	int s = script[i];
	script[i] = 0;
	if (s) {
		int other = s >= NACT;
		if (other) s -= NACT;
		if (mc_verbose) mc_note("      does %s to descriptor %d\n", ACTN[s], other ? 1 - i : i);
		act(other ? 1 - i : i, s);
	}
}
static void cb_a(fds_t fd, int ev, void *arg) { called(0, fd, ev, arg); }
static void cb_b(fds_t fd, int ev, void *arg) { called(1, fd, ev, arg); }
static void state(void) {
	int n = 0;
	for (int i = 0; i < NF; i++) {
		n += reg[i].on;
		if (events_is_registered(sim_loop, FD[i]) != reg[i].on || events_is_registered(NULL, FD[i]) != reg[i].on)
			mc_fail("registered", "descriptor %d: the query says %d, it is%s registered", i, events_is_registered(sim_loop, FD[i]), reg[i].on ? "" : " not");
		if (reg[i].on) {
			if (events_get_event(sim_loop, FD[i]) != reg[i].interest) mc_fail("interest-query", "descriptor %d: interest %d reads %d", i, reg[i].interest, events_get_event(sim_loop, FD[i]));
			void *a = NULL;
			if (events_get_callback(sim_loop, FD[i], &a) != CBS[reg[i].cb] || (long)a != reg[i].arg) mc_fail("callback-query", "descriptor %d: callback or argument read back wrongly", i);
			if (events_loop(FD[i]) != sim_loop) mc_fail("loop-query", "descriptor %d: wrong loop", i);
		}
	}
	if (events_is_running(sim_loop) != (n > 0)) mc_fail("running", "%d descriptors registered, the loop reports %s", n, n ? "stopped" : "running");
}
static void turn(void) {
	for (int i = 0; i < NF; i++) { calls[i] = 0; touched[i] = fresh[i] = false; start[i] = reg[i].on ? ready(i) : 0; }
	if (mc_verbose) mc_note("  turn (ready: %d %d)\n", start[0], start[1]);
	in_turn = true;
	int r = events_once(sim_loop, 0), n = 0;
	in_turn = false;
	for (int i = 0; i < NF; i++) {
		n += reg[i].on;
		if (!touched[i] && start[i] && !calls[i]) mc_fail("missed", "descriptor %d: ready for %d, no callback in this turn", i, start[i]);
	}
	if (r != n) mc_fail("count", "the turn reports %d, %d descriptors are registered", r, n);
	mc_step(1);
	state();
}
static bool up;
static void begin(void) {
	if (!up) {
		sim_start(256); real_poll = true; up = true;
		for (int k = 0; k < 8; k++) events_once(sim_loop, 0);      /* the waiting task settles */
		for (int i = 0; i < NF; i++) pair(i);
		for (int k = 0; k < 3; k++) for (int f = 60; f < 64; f++) { }
	}
	for (int i = 0; i < NF; i++) {
		if (reg[i].on) { events_del(FD[i]); reg[i].on = false; }
		close(FD[i]); close(PEER[i]);
		pair(i);
		script[i] = epoch[i] = 0; touched[i] = fresh[i] = false;
	}
}
typedef struct { int d, nf; bool scripts; } cfg;
static int nops(cfg *c) { return c->nf * NOPS + 1; }
static uint64_t space_plain(cfg *c) { uint64_t n = 1; for (int k = 0; k < c->d; k++) n *= nops(c); return n; }
static uint64_t space_script(cfg *c) { return space_plain(c) * (2 * NACT) * (2 * NACT) * 9 * 4; }
static void show(const char *pre, int op) { if (mc_verbose) { if (op == TURN) mc_note("%sturn\n", pre); else mc_note("%s%s(%d)\n", pre, OPN[op % NOPS], op / NOPS); } }
static void run(const int *ops, int n) {
	for (int k = 0; k < n; k++) {
		if (ops[k] == TURN) { turn(); continue; }
		show("  ", ops[k]);
		op1(ops[k] / NOPS, ops[k] % NOPS);
		state();
	}
	turn(); turn();
}
static bool decode(uint64_t *idx, cfg *c, int *ops) {
	for (int k = 0; k < c->d; k++) { int o = *idx % nops(c); *idx /= nops(c); ops[k] = o == nops(c) - 1 ? TURN : o; }
	return true;
}
static void plain(uint64_t idx, void *arg) {
	cfg *c = arg;
	int ops[8];
	decode(&idx, c, ops);
	if (c->nf == 2 && ops[0] >= NOPS) mc_skip();     /* the same with the descriptors exchanged */
	begin();
	run(ops, c->d);
	mc_obs("%d%d", reg[0].on, reg[1].on);
}
static void scripted(uint64_t idx, void *arg) {
	cfg *c = arg;
	int s0 = idx % (2 * NACT); idx /= 2 * NACT;
	int s1 = idx % (2 * NACT); idx /= 2 * NACT;
	int inte = idx % 9, rd = idx / 9 % 4; idx /= 36;
	if (s0 == NACT || s1 == NACT) mc_skip();         /* nothing to the other: the same as nothing */
	int ops[8];
	decode(&idx, c, ops);
	begin();
	if (mc_verbose) mc_note("scripts: %s to %d, %s to %d\n", ACTN[s0 % NACT], s0 / NACT ? 1 : 0, ACTN[s1 % NACT], s1 / NACT ? 0 : 1);
	add(0, 1 + inte % 3); add(1, 1 + inte / 3);
	if (rd & 1) peer_write(0);
	if (rd & 2) peer_write(1);
	script[0] = s0; script[1] = s1;
	turn();
	run(ops, c->d);
	mc_obs("%d%d", reg[0].on, reg[1].on);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "E01");
	mc_opt o = {.timeout_s = 20, .recycle = 5000};
	static cfg p4 = {4, 2}, p5 = {5, 1}, p6 = {6, 1}, q5 = {5, 2}, s1 = {1, 2}, s2 = {2, 2};
	mc_enum("histories-2-fds-4", space_plain(&p4), plain, &p4, o);
	mc_enum("histories-1-fd-5", space_plain(&p5), plain, &p5, o);
	mc_enum("in-callbacks-1", space_script(&s1), scripted, &s1, o);
	if (MC_THOROUGH) {
		mc_enum("histories-1-fd-6", space_plain(&p6), plain, &p6, o);
		mc_enum("in-callbacks-2", space_script(&s2), scripted, &s2, o);
		mc_enum("histories-2-fds-5", space_plain(&q5), plain, &q5, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
