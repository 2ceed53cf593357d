/* E02: every short history of arming, re-arming, disarming, removing and clock steps of
 * descriptor timeouts, also from inside the timeout callbacks, for several descriptor
 * numbers and timer resolutions. */
#include "sim.h"
#include <fcntl.h>

enum { NF = 3 };
static const int FDS[][NF] = {{20, 21, 37}, {31, 32, 300}, {255, 256, 15}};
static const int MAXT[] = {6, 256, 1000};
static const int *FD;
static events_t *lp;
static int res;
static long now_s, lnow;            /* the clock, and what the loop read last */
typedef struct { bool on, armed; long deadline; int epoch; } regt;
static regt reg[NF];
static int script[NF], sarg[NF], epochs, step_in_poll;
static bool in_turn;
static void hook(int timeout) { (void)timeout; if (step_in_poll) { now_s += step_in_poll; vclock += step_in_poll * 1000000000ull; step_in_poll = 0; } }
static void fire(fds_t fd, int ev, void *arg);
static void model_arm(int i, int s) { reg[i].armed = s != 0; reg[i].deadline = lnow + s; }
static void add(int i, int s) {
	reg[i].epoch = ++epochs;
	if (events_add(lp, FD[i], EVENTS_READ, s, fire, (void *)(long)epochs)) mc_fail("add", "events_add failed");
	reg[i].on = true;
	model_arm(i, s);
}
static void arm(int i, int s) { if (reg[i].on) { events_set_timeout(FD[i], s); model_arm(i, s); } }
static void del(int i) { if (reg[i].on) { if (events_del(FD[i])) mc_fail("del", "events_del failed"); reg[i].on = reg[i].armed = false; } }
enum { NONE, R1, R3, R130, DIS, DEL, DELADD, ADD, NACT };
static const char *ACTN[] = {"nothing", "arm 1", "arm 3", "arm 130", "disarm", "del", "del+add 2", "add 2"};
static void act(int i, int a) {
	switch (a) {
	case R1: arm(i, 1); break;
	case R3: arm(i, 3); break;
	case R130: arm(i, 130); break;
	case DIS: arm(i, 0); break;
	case DEL: del(i); break;
	case DELADD: del(i); add(i, 2); break;
	case ADD: add(i, 2); break;
	}
}
static void fire(fds_t fd, int ev, void *arg) {
	int i = 0;
	while (i < NF && FD[i] != fd) i++;
	if (i == NF) mc_fail("unknown", "callback for descriptor number %d", fd);
	if (mc_verbose) mc_note("    [%ld s] descriptor %d: events %d\n", now_s, i, ev);
	if (!in_turn) mc_fail("outside", "callback outside a turn");
	if (ev != EVENTS_TIMEOUT) mc_fail("value", "descriptor %d: event value %d", i, ev);
	if (!reg[i].on) mc_fail("removed", "timeout callback of descriptor %d, which is not registered", i);
	if (!reg[i].armed) mc_fail("not-armed", "timeout callback of descriptor %d, no timeout is armed", i);
	if ((long)arg != reg[i].epoch) mc_fail("argument", "descriptor %d: argument %ld, registered %d", i, (long)arg, reg[i].epoch);
	if (now_s < reg[i].deadline) mc_fail("early", "descriptor %d: timeout %ld s before its deadline", i, reg[i].deadline - now_s);
	lnow = now_s;
	reg[i].armed = false;
	int s = script[i];
	script[i] = 0;
	if (s) {
		int to = s / NACT ? sarg[i] : i;
		if (mc_verbose) mc_note("      does %s to descriptor %d\n", ACTN[s % NACT], to);
		act(to, s % NACT);
	}
}
static void turn(int step) {
	if (mc_verbose) mc_note("  +%d s, turn\n", step / 2);
	int n = 0;
	bool due[NF]; int ep[NF];
	if (step % 2) step_in_poll = step / 2; else { now_s += step / 2; vclock += step / 2 * 1000000000ull; }
	long t = now_s + step_in_poll;
	for (int i = 0; i < NF; i++) { due[i] = reg[i].armed && t >= reg[i].deadline + res; ep[i] = reg[i].epoch; }
	long dl[NF]; for (int i = 0; i < NF; i++) dl[i] = reg[i].deadline;
	in_turn = true;
	int r = events_once(lp, step % 2);
	in_turn = false;
	lnow = now_s;
	for (int i = 0; i < NF; i++) {
		n += reg[i].on;
		if (due[i] && reg[i].armed && reg[i].epoch == ep[i] && reg[i].deadline == dl[i])
			mc_fail("missed", "descriptor %d: its deadline passed %ld s ago, no timeout callback", i, now_s - dl[i]);
	}
	if (r != n) mc_fail("count", "the turn reports %d, %d descriptors are registered", r, n);
	if (events_is_running(lp) != (n > 0)) mc_fail("running", "%d descriptors, the loop reports %s", n, n ? "stopped" : "running");
	mc_step(1);
}
static bool up;
static events_t *loops[3];
static void begin(int set, int lo) {
	if (!up) {
		sim_start(512); up = true;
		loops[0] = sim_loop;
		for (int k = 0; k < 8; k++) events_once(sim_loop, 0);
		for (int k = 1; k < 3; k++) loops[k] = events_create(MAXT[k]);
		for (int s = 0; s < 3; s++) for (int i = 0; i < NF; i++) { int p[2]; if (pipe(p)) mc_fail("init", "pipe"); dup2(p[0], FDS[s][i]); dup2(p[1], FDS[s][i] + 1 == 32 || FDS[s][i] + 1 == 21 || FDS[s][i] + 1 == 256 ? 400 + 10 * s + i : 420 + 10 * s + i); close(p[0]); close(p[1]); }
	}
	vtick = 0; on_poll = hook; step_in_poll = 0;
	for (int i = 0; i < NF; i++) if (reg[i].on) { events_del(FD[i]); reg[i].on = reg[i].armed = false; }
	FD = FDS[set]; lp = loops[lo]; res = (MAXT[lo] + 127) / 128;
	memset(script, 0, sizeof script);
	now_s += 3;
	vclock = now_s * 1000000000ull;
	turn(0);
}
static const int TO[] = {1, 2, 3, 130}, STEPS[] = {1, 2, 0, 3, 130, 127, 400};
/* plain: per descriptor add 0/2/130, arm 0/1/2/3/130/300, del; turns */
enum { NPER = 10 };
static const char *PN[] = {"add", "add 2", "add 130", "disarm", "arm 1", "arm 2", "arm 3", "arm 130", "arm 300", "del"};
static void plain_op(int i, int o) {
	static const int S[] = {0, 2, 130, 0, 1, 2, 3, 130, 300};
	if (mc_verbose) mc_note("  %s(%d)\n", PN[o], i);
	if (o < 3) add(i, S[o]); else if (o < 9) arm(i, S[o]); else del(i);
}
typedef struct { int d, nf; } cfg;
static uint64_t space_plain(cfg *c) { uint64_t n = 9 * 2; for (int k = 0; k < c->d; k++) n *= NPER * c->nf + 7; return n; }
static void finish(void) {
	for (int k = 0; k < 4; k++) turn(2 * 400);
	for (int i = 0; i < NF; i++) if (reg[i].armed) mc_fail("missed", "descriptor %d is still armed after 1600 s", i);
	mc_obs("%d%d%d", reg[0].on, reg[1].on, reg[2].on);
}
static void plain(uint64_t idx, void *arg) {
	cfg *c = arg;
	int set = idx % 3, lo = idx / 3 % 3, inp = idx / 9 % 2, m = NPER * c->nf + 7; idx /= 18;
	begin(set, lo);
	if (mc_verbose) mc_note("descriptors %d %d %d, resolution %d s, the clock moves %s\n", FD[0], FD[1], FD[2], res, inp ? "while polling" : "before turns");
	int prev = -1;
	for (int k = 0; k < c->d; k++) {
		int o = idx % m; idx /= m;
		if (k == 0 && (o >= NPER || o > 2)) mc_skip();   /* everything but an add is a no-op at first */
		if (o < NPER * c->nf) { plain_op(o / NPER, o % NPER); prev = o; }
		else turn(2 * STEPS[o - NPER * c->nf] + inp);
	}
	(void)prev;
	finish();
}
static uint64_t space_script(cfg *c) { uint64_t n = 9ull * 16 * (2 * NACT) * (2 * NACT); for (int k = 0; k < c->d; k++) n *= 7; return n * (c->nf == 3 ? 4 : 1); }
static void scripted(uint64_t idx, void *arg) {
	cfg *c = arg;
	int set = idx % 3, lo = idx / 3 % 3; idx /= 9;
	int a = TO[idx % 4], b = TO[idx / 4 % 4]; idx /= 16;
	int s0 = idx % (2 * NACT), s1 = idx / (2 * NACT) % (2 * NACT); idx /= 4 * NACT * NACT;
	int t3 = 0;
	if (c->nf == 3) { t3 = TO[idx % 4]; idx /= 4; }
	if (s0 == NACT || s1 == NACT) mc_skip();
	begin(set, lo);
	if (mc_verbose) mc_note("descriptors %d %d %d, resolution %d s; add(0, %d s), add(1, %d s)%s; scripts: %s to %d, %s to %d\n", FD[0], FD[1], FD[2], res, a, b, t3 ? ", add(2)" : "", ACTN[s0 % NACT], s0 / NACT ? 1 : 0, ACTN[s1 % NACT], s1 / NACT ? (t3 ? 2 : 0) : 1);
	add(0, a); add(1, b);
	if (t3) add(2, t3);
	script[0] = s0; script[1] = s1; sarg[0] = 1; sarg[1] = t3 ? 2 : 0;
	for (int k = 0; k < c->d; k++) { turn(2 * STEPS[idx % 7] + k % 2); idx /= 7; }
	finish();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "E02");
	mc_opt o = {.timeout_s = 20, .recycle = 20000};
	static cfg p4 = {4, 2}, p5 = {5, 2}, p43 = {4, 3}, p6 = {6, 1}, p51 = {5, 1}, s2 = {2, 2}, s3 = {3, 3}, s32 = {3, 2};
	mc_enum("histories-4", space_plain(&p4), plain, &p4, o);
	mc_enum("histories-1-fd-5", space_plain(&p51), plain, &p51, o);
	mc_enum("in-callbacks-2", space_script(&s2), scripted, &s2, o);
	if (MC_THOROUGH) {
		mc_enum("in-callbacks-3", space_script(&s32), scripted, &s32, o);
		mc_enum("histories-1-fd-6", space_plain(&p6), plain, &p6, o);
		mc_enum("histories-3-fds-4", space_plain(&p43), plain, &p43, o);
		mc_enum("histories-5", space_plain(&p5), plain, &p5, o);
		mc_enum("in-callbacks-3-fds-3", space_script(&s3), scripted, &s3, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
