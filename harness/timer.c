/* E03: every short history of creating, clearing and re-arming user timers, of clock steps
 * and turns, with callbacks that repeat, stop, create and clear timers or take time. */
#include "sim.h"

#define MSEC 1000000ull
enum { MAXT = 64 };
enum { ONCE, REP2CLR, REP1, REPCLR, MAKE, CLROTHER, BUSY, NSCRIPT };
static const char *SN[] = {"", " repeating after 1 ms twice, then clearing", " repeating after 3 ms once", " repeating and clearing at once", " making one of 2 ms", " clearing the oldest other", " taking 3 ms"};
typedef struct { bool pending, running, gone; uint64_t deadline; int script, count; actor_t *a; } timer;
static timer T[MAXT];
static int nt;
static uint64_t step_in_poll;
static bool in_turn;
static int ran;
static void hook(int timeout) { (void)timeout; vclock += step_in_poll; step_in_poll = 0; }
static void cb(actor_t *a, void *arg);
static int outstanding(void) { int n = 0; for (int i = 0; i < nt; i++) n += T[i].pending; return n; }
static void make(int ms, int script) {
	if (nt >= MAXT) return;
	int i = nt++;
	T[i] = (timer){.pending = true, .deadline = vclock + ms * MSEC, .script = script};
	T[i].a = events_actor(sim_loop, ms, cb, (void *)(long)(7000 + i));
	if (!T[i].a) mc_fail("make", "no timer");
	if (events_actor_loop(T[i].a) != sim_loop) mc_fail("loop", "the timer's loop is another one");
}
static void clear(int i) { if (T[i].gone || (!T[i].pending && !T[i].running)) return; events_clear_actor(T[i].a); T[i].pending = false; if (!T[i].running) T[i].gone = true; }
static void repeat(int i, int ms) {
	if (T[i].gone || (!T[i].pending && !T[i].running)) return;
	uint64_t d = vclock + ms * MSEC;
	if (events_repeat_actor(T[i].a, ms) != T[i].a) mc_fail("repeat", "re-arming gave another timer");
	T[i].pending = true; T[i].deadline = d;
}
static void cb(actor_t *a, void *arg) {
	int i = (int)(long)arg - 7000;
	if (i < 0 || i >= nt) mc_fail("argument", "callback with a foreign argument");
	if (mc_verbose) mc_note("    [%.1f ms] timer %d\n", vclock / 1e6, i);
	if (!in_turn) mc_fail("outside", "callback outside a turn");
	if (T[i].a && a != T[i].a) mc_fail("handle", "timer %d: callback with another handle", i);
	if (T[i].gone || !T[i].pending) mc_fail("again", "timer %d fired, it is not armed", i);
	if (vclock < T[i].deadline) mc_fail("early", "timer %d fired %.1f ms before its deadline", i, (T[i].deadline - vclock) / 1e6);
	for (int j = 0; j < nt; j++) if (T[j].pending && T[j].deadline < T[i].deadline) mc_fail("order", "timer %d fired before timer %d, which is due %.1f ms earlier", i, j, (T[i].deadline - T[j].deadline) / 1e6);
	T[i].pending = false; T[i].running = true;
	ran++;
	int n = T[i].count++;
	switch (T[i].script) {
	case REP2CLR: if (n < 2) repeat(i, 1); else clear(i); break;
	case REP1: if (n < 1) repeat(i, 3); break;
	case REPCLR: repeat(i, 1); clear(i); break;
	case MAKE: make(2, ONCE); break;
	case CLROTHER: for (int j = 0; j < nt; j++) if (j != i && T[j].pending) { clear(j); break; } break;
	case BUSY: vclock += 3 * MSEC; break;
	}
	T[i].running = false;
	if (!T[i].pending) T[i].gone = true;
}
static void check_state(void) {
	int n = outstanding();
	if (events_is_running(sim_loop) != (n > 0)) mc_fail("running", "%d timers outstanding, the loop reports %s", n, n ? "stopped" : "running");
}
static void turn(uint64_t step, bool inpoll) {
	if (mc_verbose) mc_note("  +%.0f ms, turn\n", step / 1e6);
	if (inpoll) step_in_poll = step; else vclock += step;
	bool due = false;
	for (int i = 0; i < nt; i++) due |= T[i].pending && T[i].deadline <= vclock + step_in_poll;
	ran = 0;
	in_turn = true;
	int r = events_once(sim_loop, inpoll);
	in_turn = false;
	if (due && !ran) mc_fail("missed", "a timer was due, none fired in this turn");
	if (r != outstanding()) mc_fail("count", "the turn reports %d, %d timers are outstanding", r, outstanding());
	check_state();
	mc_step(1);
}
static bool up;
static void begin(void) {
	if (!up) { sim_start(64); up = true; for (int k = 0; k < 8; k++) events_once(sim_loop, 0); }
	on_poll = hook; vtick = 0; nt = 0; step_in_poll = 0;
	vclock += 1000 * MSEC;
}
static const int MSV[] = {2, 0, 5};
enum { NNEW = 3 * NSCRIPT, LONG = NNEW, CLR_OLD, CLR_NEW, REARM, TURN0, NTURN = 5, NOP = TURN0 + NTURN };
static const uint64_t STEP[NTURN] = {2 * MSEC, 0, 1 * MSEC, 5 * MSEC, 3000 * MSEC};
static void op(int o, bool inpoll) {
	if (mc_verbose && o < TURN0) {
		if (o < NNEW) mc_note("  timer %d of %d ms%s\n", nt, MSV[o / NSCRIPT], SN[o % NSCRIPT]);
		else mc_note("  %s\n", o == LONG ? "timer of 2500 ms" : o == CLR_OLD ? "clear the oldest" : o == CLR_NEW ? "clear the newest" : "re-arm the newest after 4 ms");
	}
	if (o < NNEW) make(MSV[o / NSCRIPT], o % NSCRIPT);
	else switch (o) {
	case LONG: make(2500, ONCE); break;
	case CLR_OLD: for (int i = 0; i < nt; i++) if (T[i].pending) { clear(i); break; } break;
	case CLR_NEW: for (int i = nt - 1; i >= 0; i--) if (T[i].pending) { clear(i); break; } break;
	case REARM: for (int i = nt - 1; i >= 0; i--) if (T[i].pending) { repeat(i, 4); break; } break;
	default: turn(STEP[o - TURN0], inpoll); return;
	}
	check_state();
}
static int nop = NOP;
static const int NARROW[] = {0, 1, 2, 3, 4, 5, 6, NSCRIPT, 2 * NSCRIPT, CLR_OLD, REARM, TURN0, TURN0 + 1, TURN0 + 2, TURN0 + 3};
static uint64_t space(int d) { uint64_t n = 2; while (d--) n *= nop; return n; }
static void one(uint64_t idx, void *arg) {
	int d = (int)(long)arg;
	bool inpoll = idx % 2; idx /= 2;
	int ops[8];
	for (int k = 0; k < d; k++) { ops[k] = nop == NOP ? idx % NOP : NARROW[idx % nop]; idx /= nop; }
	if (ops[0] > LONG) mc_skip();       /* nothing to clear or to wait for */
	begin();
	if (mc_verbose) mc_note("the clock moves %s\n", inpoll ? "while polling" : "before turns");
	for (int k = 0; k < d; k++) op(ops[k], inpoll);
	int total = 0;
	for (int k = 0; k < 40 && outstanding(); k++) turn(100 * MSEC, inpoll), total++;
	if (outstanding()) mc_fail("missed", "%d timers never fired", outstanding());
	turn(0, inpoll);
	for (int i = 0; i < nt; i++) total += T[i].count;
	mc_obs("%d", total);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "E03");
	mc_opt o = {.timeout_s = 20, .recycle = 20000};
	mc_enum("histories-3", space(3), one, (void *)3, o);
	mc_enum("histories-4", space(4), one, (void *)4, o);
	mc_enum("histories-5", space(5), one, (void *)5, o);
	if (MC_THOROUGH) { nop = 15; mc_enum("histories-6-narrow", space(6), one, (void *)6, o); mc_enum("histories-7-narrow", space(7), one, (void *)7, o); }
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
