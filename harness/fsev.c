/* W02: directories watched through fs_events, whose tasks run on the pool thread, among each other and with
 * every order of starting, changing, cancelling and removing. The kernel's real inotify on scratch directories;
 * every handler call is compared with the changes that were made while the watch was in force. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef inotify_init
#undef inotify_init1
#undef inotify_add_watch
#undef inotify_rm_watch
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/epoll.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { NDIR = 3, NFILE = 12 };
typedef struct { int ops, nops, cpus; bool sw; const char *script; } cfg;
static cfg *C;
static char root[64], path[NDIR][100], text[100];
static int rid[NDIR] = {-1, -1, -1}, got[NDIR], want[NDIR], files[NDIR], made, base_fds;
static bool exists[NDIR], stopped[NDIR], on[NDIR], seen[NDIR][NFILE + 4], want_seen[NDIR][NFILE + 4];
static int tag[NDIR];
static events_t *loop;
PLAIN static int descriptors(void) { int n = 0; for (int f = 0; f < 200; f++) n += fcntl(f, F_GETFD) >= 0; return n; }
PLAIN static void clean(void) {
	char n[200];
	for (int d = 0; d < NDIR; d++) {
		for (int i = 0; i < NFILE + 4; i++) { snprintf(n, sizeof n, "%s/f%d", path[d], i); unlink(n); }
		rmdir(path[d]);
	}
	rmdir(root);
}
/* nothing of what fails may stay behind */
#define FAIL(...) do { clean(); mc_fail(__VA_ARGS__); } while (0)
PLAIN static void handler_saw(int wd, int events, const char *name, void *filter) {
	int d = (int)((int *)filter - tag), f = -1;
	if (d < 0 || d >= NDIR) FAIL("filter", "a handler gets something that is not its watch's filter");
	if (mc_verbose) mc_note("    handler of %d: %s %#x\n", d, name, events);
	if (events & WATCH_REMOVED && !exists[d]) return;     /* with its files; that they are reported is W01's */
	if (strcmp(fs_events_path(wd), path[d])) FAIL("path", "the watch of %s is called with the path %s", path[d], fs_events_path(wd));
	if (sscanf(name, "f%d", &f) != 1 || f < 0 || f >= NFILE) FAIL("name", "a handler gets the name %s", name);
	if (!(events & WATCH_ADDED)) FAIL("kind", "making %s is reported as %#x", name, events);
	if (!want_seen[d][f]) FAIL("surplus", "%s in directory %d is reported though the watch was not in force", name, d);
	if (seen[d][f]) FAIL("twice", "%s in directory %d is reported twice", name, d);
	for (int g = f + 1; g < NFILE; g++) if (seen[d][g]) FAIL("order", "%s in directory %d is reported after f%d", name, d, g);
	seen[d][f] = true;
	got[d]++;
}
static int handler(int wd, events_monitors events, const char *name, void *filter) { handler_saw(wd, (int)events, name, filter); return 0; }
static void *nothing(param_t a) { (void)a; return 0; }
static void settle(void) { for (int i = 0; i < (C->sw ? 4 : 10); i++) delay(5); }
PLAIN static void check(const char *when) { for (int d = 0; d < NDIR; d++) if (got[d] != want[d]) FAIL("lost", "%s: of %d changes in directory %d only %d are reported", when, want[d], d, got[d]); }
PLAIN static void touch(int d, bool counts) {
	char n[200];
	int f = files[d]++;
	snprintf(n, sizeof n, "%s/f%d", path[d], f);
	want_seen[d][f] = counts;
	if (counts) want[d]++;
	int fd = open(n, O_CREAT | O_WRONLY, 0600);
	if (fd < 0) FAIL("init", "open");
	close(fd);
}
PLAIN static void rm(int d) {
	char n[200];
	exists[d] = false;
	for (int i = 0; i < files[d]; i++) { snprintf(n, sizeof n, "%s/f%d", path[d], i); unlink(n); }
	rmdir(path[d]);
}
/* nothing told of removals */
enum { START, CANCEL, TOUCH, REMOVE, BURST, AGAIN, ABSENT, KINDS };
static const char KEY[] = "sctrbma";
static void start(int d) {
	static char own_[NDIR][100]; char *own = own_[d];
	snprintf(own, 100, "%s", path[d]);
	rid[d] = fs_events(own, handler, &tag[d]);
	if (rid[d] <= 0) FAIL("start", "fs_events gives %d", rid[d]);
	/* the caller's text is the caller's again */
	memset(own, 'x', 99);
	for (int i = 0; i < NDIR; i++) if (i != d && on[i] && rid[i] == rid[d]) FAIL("number", "two watches have the number %d", rid[d]);
	on[d] = true;
	stopped[d] = false;
}
static void stop(int d) {
	int r = fs_events_cancel((uint32_t)rid[d]);
	if (r) FAIL("cancel", "fs_events_cancel gives %d", r);
	on[d] = false;
	stopped[d] = true;
}
static bool possible(int k, int d) { return k == START ? exists[d] && !on[d] : k == AGAIN ? !exists[d] : k == ABSENT ? true : k == CANCEL ? on[d] : k == REMOVE ? exists[d] : exists[d]; }
static void step(int k, int d) {
	if (mc_verbose) mc_note("  %s %d\n", k == START ? "watch" : k == CANCEL ? "cancel" : k == TOUCH ? "make a file in" : k == BURST ? "make three files in" : k == AGAIN ? "make again" : k == ABSENT ? "watch what is absent in" : "remove", d);
	switch (k) {
	case START: start(d); break;
	case CANCEL: stop(d); break;
	case TOUCH: touch(d, on[d]); break;
	case BURST: for (int i = 0; i < 3; i++) touch(d, on[d]); break;
	/* the events of the files' removal are checked by W01, here there are none */
	case REMOVE: rm(d); break;
	/* a directory of the same name is another one, the watch of the first has ended */
	case AGAIN: if (mkdir(path[d], 0700)) FAIL("init", "mkdir"); exists[d] = true; on[d] = false; break;
	/* nothing to watch: the task ends, the other watches do not care */
	case ABSENT: { char own[120]; snprintf(own, sizeof own, "%s/none", path[d]); if (fs_events(own, handler, &tag[d]) <= 0) FAIL("start", "fs_events fails"); break; }
	}
	settle();
	check("after the step");
}
static void *main_task(param_t args) {
	int n = 0;
	(void)args;
	if (C->script) {
		for (const char *s = C->script; *s; s += 2) {
			char *at = strchr(KEY, s[0]); int k = at ? (int)(at - KEY) : 0, d = s[1] - '0';
			if (mc_verbose) mc_note("  %c%c\n", s[0], s[1]);
			if (s[0] == '.') settle(); else if (k == START) start(d); else if (k == CANCEL) stop(d); else step(k, d);
		}
	} else for (n = 0; n < C->ops; n++) {
		int o = mc_pick(C->nops + 1, "step"), k, d;
		if (o == C->nops) break;
		k = o / 2; d = o % 2;
		if (!possible(k, d)) mc_skip();
		step(k, d);
	}
	/* a cancelled task's number is no watch any more */
	for (int d = 0; d < NDIR; d++) if (rid[d] > 0 && stopped[d] && fs_events_cancel((uint32_t)rid[d]) == 0) FAIL("cancel", "a watch is cancelled twice");
	for (int d = 0; d < NDIR; d++) if (on[d] && exists[d]) { stop(d); }
	if (mc_verbose) mc_note("  the task ends\n");
	return (void *)(intptr_t)9;
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = C->cpus;
	sched_tick = 250000;
	sched_stall = C->sw ? 24 : 0;
	sched_real_poll = true;
	base_fds = descriptors();
	snprintf(root, sizeof root, "/tmp/w02.XXXXXX");
	if (!mkdtemp(root)) mc_fail("init", "mkdtemp");
	for (int d = 0; d < NDIR; d++) {
		snprintf(path[d], sizeof path[d], "%s/d%d", root, d);
		if (mkdir(path[d], 0700)) FAIL("init", "mkdir");
		exists[d] = true;
	}
	if (events_init(64)) FAIL("init", "events_init");
	ex_signal_default();
	loop = events_init_pool(1);
	if (!loop) FAIL("init", "events_init_pool");
	if (C->sw) sched_on();
	async_task((param_func_t)main_task, 0);
	async_run(loop);
	sched_off();
	check("at the end");
	events_destroy(loop);
	events_deinit();
	if (sched_threads()) FAIL("thread", "%d threads still run", sched_threads());
	if (descriptors() != base_fds) FAIL("descriptor", "%d descriptors were open before, now %d", base_fds, descriptors());
	mc_obs("%d %d", got[0], got[1]);
	clean();
	mc_done();
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "W02");
	static struct { const char *n; cfg c; bool th; int bound; } S[] = {
		{"histories-4", {4, 14, 2}, false, 0},
		{"histories-5", {5, 14, 2}, true, 0},
		{"two-threads-3", {3, 14, 3}, false, 0},
		{"two-threads-4", {4, 14, 3}, true, 0},
		{"start", {0, 0, 2, true, "s0"}, false, 1},
		{"start-start", {0, 0, 2, true, "s0s1. t0t1"}, false, 1},
		{"start-cancel", {0, 0, 2, true, "s0c0s1. t1"}, false, 1},
		{"start-change", {0, 0, 2, true, "s0. t0c0"}, false, 1},
		{"cancel-other", {0, 0, 2, true, "s0s1. c0t1"}, false, 1},
		{"remove", {0, 0, 2, true, "s0. r0"}, false, 1},
		{"absent", {0, 0, 2, true, "a0s1. t1"}, false, 1},
	};
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
		if (S[i].th && !MC_THOROUGH) continue;
		sched_plain = !S[i].c.sw;
		mc_opt o = {.bound = S[i].bound + (MC_THOROUGH && S[i].c.sw), .timeout_s = 30};
		sched_explore(S[i].n, scn, &S[i].c, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
