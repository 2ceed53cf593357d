/* L01: every short history of starting the library, using it and stopping it, with every small kind of
 * work done and left undone at the time of stopping; every later run has to do what the first one does. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
typedef struct { int cycles, kind, works, lefts; bool sw; } cfg;
static cfg *C;
static char said[2000];
static int logn, cycle;
PLAIN static void say(const char *f, ...) {
	va_list a;
	va_start(a, f);
	int was = logn;
	logn += vsnprintf(said + logn, sizeof said - logn, f, a);
	va_end(a);
	if (logn > 1800) mc_fail("runaway", "the work does not end: %.200s", said);
	if (mc_verbose) mc_note("    %s\n", said + was);
}
PLAIN static int descriptors(char *list) {
	int n = 0;
	if (list) *list = 0;
	for (int f = 0; f < 200; f++) if (fcntl(f, F_GETFD) >= 0) { n++; if (list) list += sprintf(list, " %d", f); }
	return n;
}
static events_t *loop;
static int user[2] = {-1, -1};
static bool counting;

/* ---- work on a loop */
enum { NOTHING, POLL, TIMER, TIMEOUT, SIGNAL, TWO_LOOPS, NUMBERS, LWORKS };
static const char *const LTEXT[LWORKS] = {"", "read x;read y;", "timer a;timer b;", "timeout;", "signal 10;", "read x;read y;", "numbers;"};
static void on_fd(fds_t fd, int ev, void *arg) {
	char c;
	(void)arg;
	if (ev & EVENTS_READ && read(fd, &c, 1) == 1) say("read %c;", c);
	else if (ev == EVENTS_TIMEOUT) say("timeout;");
	else say("event %d;", ev);
}
static void on_timer(actor_t *a, void *arg) { (void)a; say("timer %s;", (char *)arg); }
static void on_signal(fds_t sig, int ev, void *arg) { (void)ev; (void)arg; say("signal %d;", (int)sig); }
static void put(int c) { char b = (char)c; if (write(user[1], &b, 1) != 1) mc_fail("init", "write"); }
static void turns(events_t *l, int n, int ms) { for (int i = 0; i < n; i++) { sched_clock += ms * 1000000ull; events_once(l, 0); } }
static void loop_work(events_t *l, int w) {
	switch (w) {
	case POLL: case TWO_LOOPS:
		if (events_add(l, user[0], EVENTS_READ, 0, on_fd, NULL)) mc_fail("add", "events_add fails");
		put('x'); turns(l, 2, 1); put('y'); turns(l, 2, 1);
		if (events_del(user[0])) mc_fail("del", "events_del fails");
		break;
	case TIMER:
		events_actor(l, 3, on_timer, "b"); events_actor(l, 1, on_timer, "a");
		turns(l, 6, 1);
		break;
	case TIMEOUT:
		if (events_add(l, user[0], EVENTS_READ, 2, on_fd, NULL)) mc_fail("add", "events_add fails");
		turns(l, 6, 1000);
		events_del(user[0]);
		break;
	case SIGNAL:
		if (events_add(l, SIGUSR1, EVENTS_SIGNAL, 0, on_signal, NULL)) mc_fail("signal", "events_add fails for a signal");
		raise(SIGUSR1);
		turns(l, 2, 1);
		events_del(SIGUSR1);
		break;
	case NUMBERS: {
		int a = events_new_fd(FD_FILE_ASYNC, dup(user[0]), -1), b = events_new_fd(FD_FILE_ASYNC, dup(user[0]), 77);
		if (a < 0 || b != 77 || events_valid_fd(78) || events_valid_fd(a)) mc_fail("numbers", "the table hands out %d and %d", a, b);
		if (!events_assign_fd(user[0], a) || !events_valid_fd(a) || (int)events_get_fd(a) != user[0]) mc_fail("numbers", "an assigned number is not valid");
		events_free_fd(a); events_free_fd(b);
		say("numbers;");
		break; }
	}
}
/* what is left undone */
enum { CLEAN, DESCRIPTOR, ARMED, SIGNALLED, NUMBER, ARMED_TIMEOUT, LLEFTS };
static void loop_leave(events_t *l, int w) {
	switch (w) {
	case DESCRIPTOR: if (events_add(l, user[0], EVENTS_READ, 0, on_fd, NULL)) mc_fail("add", "events_add fails"); break;
	case ARMED: events_actor(l, 1, on_timer, "left"); break;
	case SIGNALLED: if (events_add(l, SIGUSR2, EVENTS_SIGNAL, 0, on_signal, NULL)) mc_fail("signal", "events_add fails for a signal"); break;
	case NUMBER: { int e = dup(user[0]); if (events_new_fd(FD_CHILD, e, -1) < 0) mc_fail("numbers", "no number"); break; }
	case ARMED_TIMEOUT: if (events_add(l, user[0], EVENTS_READ, 1, on_fd, NULL)) mc_fail("add", "events_add fails"); break;
	}
}
/* ---- work in tasks */
enum { TNOTHING, TASKS, SLEEP, JOBS, THREADED, GROUP, GENERATOR, WAITING, CAUGHT, TWORKS };
static const char *const TTEXT[TWORKS] = {"", "task 5;task 7;6;8;", "slept 10;slept 30;12;32;", "8;18;", "104;105;", "3 of 3;", "1;2;3;0;", "got 1;", "caught;6;"};
static void *add_one(param_t a) { int n = a[0].integer; say("task %d;", n); yield(); return (void *)(intptr_t)(n + 1); }
static void *quiet(param_t a) { int n = a[0].integer; yield(); return (void *)(intptr_t)(n + 1); }
static void *sleeper(param_t a) { int n = a[0].integer; delay(n); say("slept %d;", n); return (void *)(intptr_t)(n + 2); }
static void *job(param_t a) { return (void *)(intptr_t)(a[0].integer * 2); }
static void *remote(param_t a) { return (void *)(intptr_t)(a[0].integer + 100); }
static void *slow_remote(param_t a) { for (int i = 0; i < 4; i++) yield(); return (void *)(intptr_t)(a[0].integer + 100); }
static void *gen(param_t a) { for (int i = 0; i < a[0].integer; i++) yielding((void *)(intptr_t)(i + 1)); return 0; }
static void *reader(param_t a) { char c; int n = async_read(a[0].integer, &c, 1); say("got %d;", n); return (void *)(intptr_t)1; }
static void *forever(param_t a) { (void)a; for (;;) yield(); return 0; }
static void task_work(int w) {
	switch (w) {
	case TASKS: { uint32_t a = async_task((param_func_t)add_one, 1, 5), b = async_task((param_func_t)add_one, 1, 7); say("%d;", await_for(a).integer); say("%d;", await_for(b).integer); break; }
	case SLEEP: { uint32_t a = async_task((param_func_t)sleeper, 1, 30), b = async_task((param_func_t)sleeper, 1, 10); int y = await_for(b).integer; int x = await_for(a).integer; say("%d;%d;", y, x); break; }
	case JOBS: { promise *a = queue_work(futures_pool(), (param_func_t)job, 1, 4), *b = queue_work(futures_pool(), (param_func_t)job, 1, 9); int x = queue_get(a).integer, y = queue_get(b).integer; say("%d;%d;", x, y); break; }
	case THREADED: { uint32_t a = go((param_func_t)remote, 1, 4), b = go((param_func_t)remote, 1, 5); say("%d;", await_for(a).integer); say("%d;", await_for(b).integer); break; }
	case GROUP: { waitgroup_t wg = waitgroup(3); for (int i = 0; i < 3; i++) go((param_func_t)remote, 1, i); array_t r = waitfor(wg); say("%d of 3;", r ? (int)$size(r) : 0); break; }
	case GENERATOR: { generator_t g = generator((param_func_t)gen, 1, 3); for (int i = 0; i < 4; i++) say("%d;", yielded(g).integer); break; }
	case WAITING: { uint32_t a = async_task((param_func_t)reader, 1, user[0]); yield(); yield(); put('z'); await_for(a); break; }
	case CAUGHT: {
		try { throw(out_of_memory); } catch_any { say("caught;"); }
		uint32_t a = async_task((param_func_t)quiet, 1, 5);
		say("%d;", await_for(a).integer);
		break; }
	}
}
enum { TCLEAN, TARMED, TDESCRIPTOR, TJOB, TREMOTE, TRESULT, TLEFTS };
static promise *left_job;
static void task_leave(int w) {
	switch (w) {
	case TARMED: events_actor(loop, 1000, on_timer, "left"); break;
	case TDESCRIPTOR: if (events_add(loop, user[0], EVENTS_READ, 0, on_fd, NULL)) mc_fail("add", "events_add fails"); break;
	case TJOB: left_job = queue_work(futures_pool(), (param_func_t)job, 1, 4); break;
	case TREMOTE: go((param_func_t)slow_remote, 1, 3); break;
	case TRESULT: for (int i = 0; i < 5; i++) async_task((param_func_t)quiet, 1, i); break;
	}
}
/* ---- stopping inside a task, as exit() would */
enum { IN_PLAIN, IN_SLEEPING, IN_WAITING, IN_RUNNING, IN_JOB, IN_REMOTE, IN_GENERATOR, IN_TIMER, INS };
static int work, left, inside = -1;
static void check_stopped(int base, const char *before) {
	char now[600];
	if (sched_threads()) mc_fail("thread", "%d threads of the library still run", sched_threads());
	if (descriptors(now) != base) mc_fail("descriptor", "descriptors%s were open before, now%s", before, now);
	if (events_is_active()) mc_fail("active", "the library still counts as active");
	if (!events_is_shutdown()) mc_fail("shutdown", "the library does not count as stopped");
}
static int base_fds;
static char base_list[600];
static void *stopper(param_t args) {
	(void)args;
	if (work >= 0) task_work(work);
	switch (inside) {
	case IN_SLEEPING: async_task((param_func_t)sleeper, 1, 1000); yield(); break;
	case IN_WAITING: async_task((param_func_t)reader, 1, user[0]); yield(); yield(); break;
	case IN_RUNNING: async_task((param_func_t)forever, 1, 0); yield(); break;
	case IN_JOB: left_job = queue_work(futures_pool(), (param_func_t)job, 1, 4); break;
	case IN_REMOTE: go((param_func_t)slow_remote, 1, 3); go((param_func_t)forever, 1, 0); yield(); break;
	case IN_GENERATOR: { generator_t g = generator((param_func_t)gen, 1, 3); yielded(g); break; }
	case IN_TIMER: events_actor(loop, 1000, on_timer, "left"); break;
	}
	if (C->sw) sched_on();
	events_deinit();
	sched_off();
	if (sched_threads()) mc_fail("thread", "%d threads of the library still run", sched_threads());
	events_deinit();
	mc_obs("inside %d", inside);
	mc_done();
	return 0;
}
static void *main_task(param_t args) {
	(void)args;
	task_work(work);
	task_leave(left);
	return (void *)(intptr_t)9;
}
static void same(const char *want, const char *when) { if (strcmp(said, want)) mc_fail("differs", "run %d: the work gives '%s'%s, not '%s'", cycle, said, when, want); }
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = 2;
	sched_tick = 250000;
	sched_stall = C->sw ? 24 : 0;
	sched_real_poll = true;
	if (pipe2(user, O_CLOEXEC | O_NONBLOCK)) mc_fail("init", "pipe");
	base_fds = descriptors(base_list);
	for (cycle = 1; cycle <= C->cycles; cycle++) {
		bool last = cycle == C->cycles;
		logn = 0; said[0] = 0;
		work = mc_pick(C->works, "work");
		int spare = -1;
		if (events_init(64)) mc_fail("init", "events_init fails in run %d", cycle);
		if (events_init(64)) mc_fail("init-again", "a second events_init fails in run %d", cycle);
		ex_signal_default();
		signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL); signal(SIGPIPE, SIG_IGN);
		if (events_is_shutdown()) mc_fail("shutdown", "the started library counts as stopped");
		if (C->kind == 0) {
			left = mc_pick(C->lefts, "left undone");
			if (mc_verbose) mc_note("  run %d: a loop, work %d, left undone %d\n", cycle, work, left);
			loop = events_create(6);
			if (!loop) mc_fail("create", "events_create fails in run %d", cycle);
			events_t *l2 = work == TWO_LOOPS ? events_create(6) : NULL;
			loop_work(l2 ? l2 : loop, work);
			same(LTEXT[work], "");
			loop_leave(loop, left);
			if (C->sw && last) sched_on();
			if (l2 && events_destroy(l2)) mc_fail("destroy", "events_destroy fails for the second loop in run %d", cycle);
			if (events_destroy(loop)) mc_fail("destroy", "events_destroy fails in run %d", cycle);
		} else if (C->kind == 1) {
			left = mc_pick(C->lefts, "left undone");
			if (mc_verbose) mc_note("  run %d: tasks, work %d, left undone %d\n", cycle, work, left);
			loop = events_init_pool(1);
			if (!loop) mc_fail("create", "events_init_pool fails in run %d", cycle);
			if (C->sw && last) sched_on();
			async_task((param_func_t)main_task, 0);
			async_run(loop);
			same(TTEXT[work], "");
			if (events_destroy(loop)) mc_fail("destroy", "events_destroy fails in run %d", cycle);
		} else {
			inside = mc_pick(INS, "at the time of stopping");
			if (mc_verbose) mc_note("  run %d: work %d, stopped inside a task with %d\n", cycle, work, inside);
			loop = events_init_pool(1);
			async_task((param_func_t)stopper, 0);
			async_run(loop);
			mc_fail("end", "the scheduler ended before the program");
		}
		/* a number just set free is somebody else's from here on */
		if (mc_pick(2, "spare")) spare = fcntl(user[0], F_DUPFD_CLOEXEC, 0);
		events_deinit();
		if (spare >= 0) { if (close(spare)) mc_fail("foreign", "stopping closed descriptor %d, which is not the library's", spare); }
		sched_off();
		check_stopped(base_fds, base_list);
		same(C->kind ? TTEXT[work] : LTEXT[work], " and what came at the end");
		events_deinit();
		check_stopped(base_fds, base_list);
		char c;
		while (read(user[0], &c, 1) == 1) {}
	}
	mc_obs("%d %d", work, left);
	mc_done();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "L01");
	static struct { const char *n; cfg c; bool th; int bound; } S[] = {
		{"loop-2", {2, 0, LWORKS, LLEFTS}, false, 0},
		{"loop-3", {3, 0, 4, 3}, false, 0},
		{"loop-switched", {1, 0, LWORKS, LLEFTS, true}, false, 1},
		{"tasks-2", {2, 1, TWORKS, TLEFTS}, false, 0},
		{"tasks-3", {3, 1, 4, 2}, false, 0},
		{"tasks-switched", {1, 1, 1, TLEFTS, true}, false, 1},
		{"inside", {1, 2, TWORKS}, false, 0},
		{"inside-switched", {1, 2, 1, 0, true}, false, 1},
	};
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
		if (S[i].th && !MC_THOROUGH) continue;
		sched_plain = !S[i].c.sw;
		mc_opt o = {.bound = S[i].bound, .timeout_s = 30};
		sched_explore(S[i].n, scn, &S[i].c, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
