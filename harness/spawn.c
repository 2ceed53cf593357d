/* I05: real child processes, led step by step by the harness: what each one was given, what it writes
 * and how it ends is compared with what the callbacks and exec_wait report, between all turns of the loop. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { CTL = 700, NC = 4 };
static char exe[300], odd[300], dir[100];

/* ---- the child: tells what it was given, then does what it is told */
typedef struct { int argc, envc, nfds, fds[16], nonblock[3], sid, len; dev_t dev[3]; ino_t ino[3]; char text[4000]; } hello;
typedef struct { char what; int n; } order;
typedef struct { char what; int n, err; char data[64]; } answer;
PLAIN static unsigned char pat(long i, int c) { return 'A' + (i * 7 + i / 251 + c * 5) % 26; }
PLAIN static void child_list(hello *h, char *buf) {
	/* no library functions that keep a descriptor open */
	for (int f = 0; f < 1024; f++) if (f != CTL && fcntl(f, F_GETFD) >= 0 && h->nfds < 16) h->fds[h->nfds++] = f;
	(void)buf;
}
PLAIN static void child(int argc, char **argv, char **env) {
	static hello h;
	static char buf[100000];
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	h.argc = argc;
	for (int i = 0; i < argc; i++) h.len += sprintf(h.text + h.len, "%s", argv[i]) + 1;
	while (env[h.envc]) h.len += sprintf(h.text + h.len, "%s", env[h.envc++]) + 1;
	child_list(&h, buf);
	h.sid = getsid(0) == getpid();
	for (int i = 0; i < 3; i++) {
		struct stat st;
		int f = fcntl(i, F_GETFL);
		h.nonblock[i] = f >= 0 && f & O_NONBLOCK;
		if (!fstat(i, &st)) { h.dev[i] = st.st_dev; h.ino[i] = st.st_ino; }
	}
	send(CTL, &h, sizeof h, 0);
	long out = 0, err = 0;
	int who = 0;
	for (order o; recv(CTL, &o, sizeof o, 0) == sizeof o;) {
		answer a = {o.what, 0, 0, ""};
		switch (o.what) {
		case 'i': who = o.n; break;
		case 'w': case 'e':
			for (int i = 0; i < o.n; i++) buf[i] = o.what == 'w' ? pat(out + i, who) : '!';
			for (int i = 0; i < o.n;) {
				ssize_t r = write(o.what == 'w' ? 1 : 2, buf + i, o.n - i);
				if (r < 0) { a.err = errno; break; }
				i += r; a.n = i;
			}
			if (o.what == 'w') out += a.n; else err += a.n;
			break;
		case 'c': close(1); break;
		case 'r': { ssize_t r = read(0, a.data, o.n > 64 ? 64 : o.n); if (r < 0) a.err = errno; a.n = (int)r; break; }
		case 'x': close(CTL); _exit(o.n);
		case 'k': signal(o.n, SIG_DFL); { sigset_t m; sigfillset(&m); sigprocmask(SIG_UNBLOCK, &m, NULL); } { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); } raise(o.n); break;
		}
		send(CTL, &a, sizeof a, 0);
	}
	_exit(0);
}
extern char **environ;
PLAIN __attribute__((constructor(101))) static void maybe_child(int argc, char **argv, char **env) {
	int t;
	socklen_t l = sizeof t;
	if (fcntl(CTL, F_GETFD) >= 0 && !getsockopt(CTL, SOL_SOCKET, SO_TYPE, &t, &l) && t == SOCK_SEQPACKET) child(argc, argv, env);
}

/* ---- calls that may fail */
static bool faults, model;
int vfork_fails;
void vfork_failed(void);
PLAIN void vfork_failed(void) { errno = EAGAIN; }
__asm__(".text\n.globl __wrap_vfork\n__wrap_vfork:\n\tcmpl $0, vfork_fails(%rip)\n\tjne 1f\n\tjmp __real_vfork\n1:\tpushq %rbx\n\tcall vfork_failed\n\tpopq %rbx\n\tmovl $-1, %eax\n\tret\n");
int __real_pipe2(int *, int);
PLAIN int __wrap_pipe2(int *p, int flags) { if (model && faults && mc_choose(2, "pipe2")) { errno = EMFILE; return -1; } return __real_pipe2(p, flags); }
int __real_eventfd(unsigned, int);
PLAIN int __wrap_eventfd(unsigned v, int flags) { if (model && faults && mc_choose(2, "eventfd")) { errno = EMFILE; return -1; } return __real_eventfd(v, flags); }
int __real_epoll_ctl(int, int, int, struct epoll_event *);
PLAIN int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (model && faults && op == EPOLL_CTL_ADD && mc_choose(2, "epoll_ctl")) { errno = ENOSPC; return -1; } return __real_epoll_ctl(e, op, fd, ev); }

/* ---- the children as the harness knows them */
typedef struct {
	bool used, alive, blocked, eof, io, onexit, in_io, cgi;
	int pid, ctl, owed, out_fd;
	long sent, got;                         /* written by the child so far, passed to the callback */
	int writeto, exits, code, sig;          /* how it ended */
	execinfo_t *info;
	hello h;
} kid;
static kid k[NC];
static events_t *loop;
static int theirs;
PLAIN static void before_spawn(int i) {
	int s[2];
	kid *c = k + i;
	memset(c, 0, sizeof *c);
	if (socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, s)) mc_fail("init", "socketpair");
	int hi = fcntl(s[0], F_DUPFD_CLOEXEC, 710), b = 1 << 20;
	close(s[0]);
	if (dup2(s[1], CTL) != CTL) mc_fail("init", "dup2");
	close(s[1]);
	setsockopt(hi, SOL_SOCKET, SO_RCVBUF, &b, sizeof b);
	struct timeval tv = {10, 0};
	setsockopt(hi, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	c->used = true; c->ctl = hi; c->writeto = -2;
	theirs = CTL;
}
PLAIN static void greet(int i, int pid) {
	kid *c = k + i;
	close(CTL);
	c->pid = pid;
	ssize_t r = recv(c->ctl, &c->h, sizeof c->h, 0);
	if (r != sizeof c->h) mc_fail("start", "the program never starts (%zd)", r);
	c->alive = true;
	order o = {'i', i};
	answer a;
	send(c->ctl, &o, sizeof o, 0);
	recv(c->ctl, &a, sizeof a, 0);
}
PLAIN static char state_of(int pid) {
	char b[400];
	snprintf(b, sizeof b, "/proc/%d/stat", pid);
	int f = open(b, O_RDONLY | O_CLOEXEC);
	if (f < 0) return 'X';
	int n = (int)read(f, b, sizeof b - 1);
	close(f);
	b[n > 0 ? n : 0] = 0;
	char *p = strrchr(b, ')');
	return p ? p[2] : 'X';
}
/* until the child has done what it was told, or cannot go on */
PLAIN static void follow(int i) {
	kid *c = k + i;
	answer a;
	if (!c->blocked) return;
	for (;;) {
		char s = state_of(c->pid);
		ssize_t r = recv(c->ctl, &a, sizeof a, MSG_DONTWAIT);
		if (r == sizeof a) {
			if (a.err) mc_fail("write", "writing to its output fails in the program: %s after %d bytes", strerror(a.err), a.n);
			c->blocked = false; c->sent += a.n;
			return;
		}
		if (s == 'S') return;
		sched_yield();
	}
}
PLAIN static void tell(int i, char what, int n) {
	kid *c = k + i;
	order o = {what, n};
	if (mc_verbose) mc_note("  child %d: %c %d\n", i, what, n);
	mc_step(1);
	send(c->ctl, &o, sizeof o, 0);
	if (what == 'w') { c->owed += n; c->blocked = true; follow(i); return; }
	if (what == 'x' || what == 'k') {
		siginfo_t s;
		if (waitid(P_PID, c->pid, &s, WEXITED | WNOWAIT)) mc_fail("reaped", "the process is no child any more");
		c->alive = false; c->code = what == 'x' ? n : 0; c->sig = what == 'k' ? n : 0;
		return;
	}
	answer a;
	if (recv(c->ctl, &a, sizeof a, 0) != sizeof a) mc_fail("init", "the child does not answer");
	if (what == 'c') c->eof = true;
	if (what == 'r' && (a.err || a.n != 3 || memcmp(a.data, "xyz", 3))) mc_fail("input", "the program reads %d bytes, %s", a.n, a.err ? strerror(a.err) : "not what was written to it");
	if (what == 'e' && a.err && a.err != EAGAIN) mc_fail("error-output", "writing to its error output fails in the program: %s", strerror(a.err));
}
/* ---- the user's callbacks */
static void output(int i, int to, size_t n, char *data) {
	kid *c = k + i;
	if (mc_verbose) mc_note("  output %d: %zu bytes to %d\n", i, n, to);
	if (!c->used || !c->io) mc_fail("surplus", "output for a child that has none");
	if (c->in_io) mc_fail("nested", "output inside the output callback");
	if (c->exits) mc_fail("late", "output after the exit callback");
	if (!n) mc_fail("empty", "output of no bytes");
	if (c->got + (long)n > c->owed) mc_fail("surplus", "%ld bytes of output, the program wrote %d", c->got + (long)n, c->owed);
	for (size_t j = 0; j < n; j++) if ((unsigned char)data[j] != pat(c->got + (long)j, i)) mc_fail("bytes", "byte %ld of the output is not what the program wrote", c->got + (long)j);
	if (c->writeto != -2 && c->writeto != to) mc_fail("writeto", "the descriptor to write to changes from %d to %d", c->writeto, to);
	c->writeto = to;
	c->got += n;
}
static void ended(int i, int code, int sig) {
	kid *c = k + i;
	if (mc_verbose) mc_note("  exit %d: %d %d\n", i, code, sig);
	if (!c->used || !c->onexit) mc_fail("surplus-exit", "exit of a child that has no callback");
	if (c->exits++) mc_fail("exit-twice", "the exit callback is called twice");
	if (c->alive) mc_fail("exit-early", "the exit callback is called while the program runs");
	if (c->io && c->got != c->owed) mc_fail("lost", "%ld of %d bytes of output came before the exit callback", c->got, c->owed);
	if (c->sig ? sig != c->sig : (sig || code != c->code)) mc_fail("status", "exit callback with code %d and signal %d, the program ended with %d and %d", code, sig, c->code, c->sig);
}
static void out0(fds_t to, size_t n, char *d) { output(0, (int)to, n, d); }
static void out1(fds_t to, size_t n, char *d) { output(1, (int)to, n, d); }
static void out2(fds_t to, size_t n, char *d) { output(2, (int)to, n, d); }
static void end0(int c, int s) { ended(0, c, s); }
static void end1(int c, int s) { ended(1, c, s); }
static void end2(int c, int s) { ended(2, c, s); }
static const exec_io_cb OUT[] = {out0, out1, out2};
static const exit_cb END[] = {end0, end1, end2};

PLAIN static int descriptors(void) {
	int n = 0;
	for (int f = 0; f < 1024; f++) if (fcntl(f, F_GETFD) >= 0) n++;
	for (int i = 0; i < NC; i++) if (k[i].used) n--;     /* the harness's own */
	return n;
}
static int base_fd, base_desc, base_pseudo;
static int pseudos(void) { int n = 0; for (int p = 0; p < 256; p++) n += events_valid_fd(p); return n; }
static void turns(int n) { for (int i = 0; i < n; i++) { yield(); for (int j = 0; j < NC; j++) if (k[j].used && k[j].alive) follow(j); } }
/* what the child was given */
PLAIN static void given(int i, const char *cmd, const char *const *args, const char *const *env) {
	hello *h = &k[i].h;
	const char *p = h->text;
	int n = 0;
	while (args[n]) n++;
	if (h->argc != n + 1) mc_fail("arguments", "the program has %d arguments, not %d", h->argc - 1, n);
	for (int a = 0; a < h->argc; a++, p += strlen(p) + 1) { const char *want = a ? args[a - 1] : cmd; if (strcmp(p, want)) mc_fail("arguments", "argument %d is '%s', not '%s'", a, p, want); }
	for (n = 0; env[n]; n++) {}
	if (h->envc != n) mc_fail("environment", "the program has %d variables, not %d", h->envc, n);
	for (int a = 0; a < n; a++, p += strlen(p) + 1) if (strcmp(p, env[a])) mc_fail("environment", "variable %d is '%s', not '%s'", a, p, env[a]);
}
PLAIN static void small(int i, bool pipes) {
	hello *h = &k[i].h;
	for (int j = 0; j < h->nfds; j++) if (h->fds[j] > 2) mc_fail("inherited", "descriptor %d is open in the program", h->fds[j]);
	if (h->nfds != 3) mc_fail("inherited", "%d of three standard descriptors are open in the program", h->nfds);
	if (pipes && (h->nonblock[0] || h->nonblock[1])) mc_fail("non-blocking", "the standard %s of the program is non-blocking", h->nonblock[0] ? "input" : "output");
	if (h->sid) mc_fail("session", "the program runs in its own session");
}
static const char *NONE[] = {NULL};
/* mode: bit 0 output, bit 1 exit */
static void start_child(int i, const char *cmd, const char *args, const char *env, int mode) {
	before_spawn(i);
	kid *c = k + i;
	c->io = mode & 1; c->onexit = mode & 2; c->cgi = env;
	c->info = env ? spawn_cgi(cmd, args, env, c->io ? OUT[i] : NULL, c->onexit ? END[i] : NULL) : spawn(cmd, args, c->io ? OUT[i] : NULL, c->onexit ? END[i] : NULL);
	if (!c->info) mc_fail("spawn", "spawn failed");
	greet(i, (int)spawn_pid(c->info));
	if (spawn_is_finish(c->info)) mc_fail("finished", "finished while the program runs");
}
PLAIN static void drop(int i) { close(k[i].ctl); k[i].used = false; }
static void finish(int i) {
	kid *c = k + i;
	if (c->alive) {
		for (int n = 0; c->blocked && n < 40; n++) turns(1);
		if (c->blocked) mc_fail("stuck", "the output is not read, the program cannot go on");
		if (spawn_is_finish(c->info)) mc_fail("finished", "finished while the program runs");
		return;
	}
	for (int n = 0; n < 40 && !spawn_is_finish(c->info); n++) turns(1);
	if (!spawn_is_finish(c->info)) mc_fail("unfinished", "the program ended, spawn_is_finish tells that it runs");
	turns(1);
	if (c->onexit && !c->exits) mc_fail("no-exit", "the exit callback is never called");
	if (c->io && c->got != c->owed) mc_fail("lost", "%ld of %d bytes of output came through", c->got, c->owed);
	siginfo_t s = {0};
	if (!waitid(P_PID, c->pid, &s, WEXITED | WNOHANG | WNOWAIT)) mc_fail("zombie", "the process is not waited for");
}
static void after_all(void) {
	turns(3);
	if ((int)loop->active_descriptors != base_desc) mc_fail("interest", "%d descriptors stay registered", (int)loop->active_descriptors - base_desc);
	if (descriptors() != base_fd) mc_fail("leak", "%d descriptors stay open", descriptors() - base_fd);
	if (pseudos() != base_pseudo) mc_fail("number", "%d pseudo descriptors stay in use", pseudos() - base_pseudo);
}
enum { W5, W4096, W40000, W70000, IN, EOUT, ERR, STEPS };
static const int SIZES[] = {5, 4096, 40000, 70000};
static bool step(int i, int o) {
	kid *c = k + i;
	if (o <= W70000) { if (c->eof || !c->io) return false; for (int n = 0; c->blocked && n < 40; n++) turns(1); if (c->blocked) mc_fail("stuck", "the output is not read, the program cannot go on"); tell(i, 'w', SIZES[o]); return true; }
	if (c->blocked) return false;
	switch (o) {
	case IN: if (!c->io || write(exec_fdin(c->info), "xyz", 3) != 3) return false; tell(i, 'r', 3); return true;
	case EOUT: if (!c->io || c->eof) return false; tell(i, 'c', 0); return true;
	case ERR: if (!c->cgi) return false; tell(i, 'e', 90000); return true;
	}
	return false;
}
static const struct { char how; int n; } ENDS[] = {{'x', 0}, {'x', 3}, {'k', SIGTERM}, {'x', 255}, {'k', SIGKILL}, {'x', 128}, {'k', SIGSEGV}};
static void end_child(int i, int e) {
	for (int n = 0; k[i].blocked && n < 40; n++) turns(1);
	if (k[i].blocked) mc_fail("stuck", "the output is not read, the program cannot go on");
	tell(i, ENDS[e].how, ENDS[e].n);
}
typedef struct { int kind, n, steps, ends, pauses, kids; bool faults; } cfg;
static cfg *C;
enum { SCRIPT, TWO, GIVEN, EXEC, FAULTS, GROW, ADDENV };
static void nobody(fds_t fd, int ev, void *arg) { (void)fd; (void)ev; (void)arg; }
static int wait_at, waits, wait_end;
static int waiting = -1;
int __real_waitid(idtype_t, id_t, siginfo_t *, int);
PLAIN int __wrap_waitid(idtype_t t, id_t id, siginfo_t *s, int f) {
	if (waiting >= 0 && !(f & WNOWAIT)) {
		if (waits++ == wait_at || !(f & WNOHANG)) { int i = waiting; waiting = -1; tell(i, ENDS[wait_end].how, ENDS[wait_end].n); }
	}
	return __real_waitid(t, id, s, f);
}
PLAIN static int split(char *s, char sep, const char **to, bool last) {
	int n = 0;
	if (!s) { to[0] = NULL; return 0; }
	for (char *p = s;;) {
		char *q = strchr(p, sep);
		if (!q && !last && !*p) break;
		to[n++] = p;
		if (!q) break;
		*q = 0; p = q + 1;
	}
	to[n] = NULL;
	return n;
}
static const char *const ENVS[] = {NULL, "A=1;", "A=1;B=2;", "A=1;B=2", "A=1", "A==;B=;", "PATH=/x:/y;A=b c;"};
static void *main_task(param_t args) {
	(void)args;
	base_desc = (int)loop->active_descriptors;
	base_pseudo = pseudos();
	base_fd = descriptors();
	model = true;
	switch (C->kind) {
	case SCRIPT: {
		int mode = mc_pick(C->kids, "callbacks") ^ 3;
		bool cgi = mc_pick(2, "cgi");
		start_child(0, exe, "one,two", cgi ? str_dup_ex("A=1;B=2;") : NULL, mode);
		given(0, exe, (const char *[]){"one", "two", NULL}, cgi ? (const char *[]){"A=1", "B=2", NULL} : (const char *const *)environ);
		small(0, mode & 1);
		for (int i = 0; i < C->n; i++) {
			if (!step(0, mc_pick(C->steps, "step"))) mc_skip();
			turns(mc_pick(C->pauses, "turns"));
			finish(0);
		}
		end_child(0, mc_pick(C->ends, "end"));
		finish(0);
		mc_obs("%ld bytes", k[0].got);
		drop(0);
		break; }
	case TWO:
		for (int i = 0; i < C->kids; i++) { start_child(i, exe, NULL, NULL, 3); given(i, exe, NONE, (const char *const *)environ); small(i, true); turns(mc_pick(2, "turns")); }
		for (int i = 0, gone = 0; i < C->n; i++) {
			int who = mc_pick(C->kids, "child"), o = mc_pick(C->steps + 1, "step");
			if (gone >> who & 1) mc_skip();
			if (o == C->steps) { end_child(who, 1 + who); gone |= 1 << who; }
			else if (!step(who, o)) mc_skip();
			turns(mc_pick(C->pauses, "turns"));
		}
		for (int i = 0; i < C->kids; i++) if (k[i].alive) end_child(i, 2 - i);
		for (int i = 0; i < C->kids; i++) finish(i);
		mc_obs("%ld %ld bytes", k[0].got, k[1].got);
		for (int i = 0; i < C->kids; i++) drop(i);
		break;
	case GIVEN: {
		static const char *const L[] = {"a", ",", "=", " ", "-long"};
		char text[64] = "", copy[64], ecopy[64];
		const char *want[12], *ewant[12];
		int len = mc_pick(C->n + 1, "length");
		for (int i = 0; i < len; i++) strcat(text, L[mc_pick(5, "letter")]);
		int e = mc_pick(C->steps, "environment"), how = mc_pick(3, "how");
		bool comma = mc_pick(2, "command");
		strcpy(copy, text);
		const char *cmd = comma ? odd : exe;
		split(len ? copy : NULL, ',', want, true);
		if (ENVS[e]) { strcpy(ecopy, ENVS[e]); split(ecopy, ';', ewant, false); }
		if (how < 2) start_child(0, cmd, len ? text : NULL, ENVS[e] ? str_dup_ex(ENVS[e]) : NULL, how ? 3 : 2);
		else {
			before_spawn(0);
			process_t p = exec(cmd, len ? text : NULL, e ? k[0].info = exec_info(ENVS[e], false, inherit, inherit, inherit) : NULL);
			if (p <= 0) mc_fail("exec", "exec failed");
			/* the number of the process is only known to exec_wait here */
			DIR *d = opendir("/proc/self/task");
			char b[60];
			int pid = 0;
			if (d) closedir(d);
			snprintf(b, sizeof b, "/proc/self/task/%d/children", (int)gettid());
			int f = open(b, O_RDONLY | O_CLOEXEC);
			ssize_t n = f < 0 ? -1 : read(f, b, sizeof b - 1);
			if (f >= 0) close(f);
			if (n > 0) { b[n] = 0; pid = atoi(b); }
			greet(0, pid);
			given(0, cmd, want, ENVS[e] ? ewant : (const char *const *)environ);
			small(0, false);
			int code = -7;
			if (exec_wait(p, 0, &code) != -1 || os_geterror() != ETIMEDOUT) mc_fail("wait", "exec_wait does not tell that the time is up");
			tell(0, 'x', 9);
			if (exec_wait(p, 0, &code) || code != 9) mc_fail("wait", "exec_wait reports %d for exit code 9", code);
			drop(0);
			break;
		}
		given(0, cmd, want, ENVS[e] ? ewant : (const char *const *)environ);
		small(0, how == 1);
		end_child(0, 0);
		finish(0);
		drop(0);
		break; }
	case EXEC: {
		static const uint32_t T[] = {0, 1, 3, (uint32_t)-1};
		int p[2], redirect = mc_pick(3, "redirect"), t = mc_pick(4, "timeout"), nul = open("/dev/null", O_RDWR | O_CLOEXEC);
		bool want_code = mc_pick(2, "code");
		if (__real_pipe2(p, O_CLOEXEC)) mc_fail("init", "pipe");
		wait_end = mc_pick(C->ends, "end");
		wait_at = mc_pick(C->n, "ends at look");
		before_spawn(0);
		execinfo_t *info = redirect ? exec_info("A=1;", false, redirect == 1 ? nul : inherit, p[1], redirect == 2 ? p[1] : inherit) : NULL;
		process_t q = exec(exe, "x", info);
		if (q <= 0) mc_fail("exec", "exec failed");
		char b[60];
		snprintf(b, sizeof b, "/proc/self/task/%d/children", (int)gettid());
		int f = open(b, O_RDONLY | O_CLOEXEC);
		ssize_t n = read(f, b, sizeof b - 1);
		close(f);
		b[n > 0 ? n : 0] = 0;
		greet(0, atoi(b));
		small(0, false);
		if (redirect) {
			struct stat sp, sn, s2;
			fstat(p[1], &sp); fstat(nul, &sn); fstat(2, &s2);
			hello *h = &k[0].h;
			if (h->ino[1] != sp.st_ino || (redirect == 1 && (h->ino[0] != sn.st_ino || h->dev[0] != sn.st_dev)) || h->ino[2] != (redirect == 2 ? sp.st_ino : s2.st_ino)) mc_fail("redirect", "the standard descriptors are not the given ones");
		}
		waiting = 0; waits = 0;
		bool late = false;
		for (int r, tries = 0;; tries++) {
			int code = 77, w0 = waits;
			r = exec_wait(q, T[t], want_code ? &code : NULL);
			if (mc_verbose) mc_note("  exec_wait(%u) = %d, code %d, looked %d times\n", T[t], r, code, waits - w0);
			if (!r) {
				if (k[0].alive) mc_fail("wait", "exec_wait reports the end of a running program");
				int want = k[0].sig ? -k[0].sig : k[0].code;
				if (want_code && code != want) mc_fail("code", "exec_wait gives %d, not %d", code, want);
				break;
			}
			if (r != -1 || os_geterror() != ETIMEDOUT) mc_fail("wait", "exec_wait gives %d, error %s", r, strerror(os_geterror()));
			if (!k[0].alive) { if (late) mc_fail("wait", "exec_wait does not notice the end"); late = true; }
			if (T[t] == (uint32_t)-1) mc_fail("wait", "waiting without end tells that the time is up");
			if (code != 77) mc_fail("code", "a code without an end");
			if (tries > 12) { int i = waiting; if (i >= 0) { waiting = -1; tell(i, ENDS[wait_end].how, ENDS[wait_end].n); } }
			if (tries > 20) mc_fail("wait", "exec_wait does not end");
		}
		int code = 77;
		if (exec_wait(q, 0, &code) != -1 || os_geterror() == ETIMEDOUT) mc_fail("again", "a second wait for the same process reports code %d", code);
		mc_obs("exec %d", wait_end);
		close(p[0]); close(p[1]); close(nul);
		drop(0);
		break; }
	case FAULTS: {
		int kind = mc_pick(3, "which"), missing = mc_pick(2, "missing");
		before_spawn(0);
		kid *c = k;
		c->io = kind != 2; c->onexit = true;
		c->code = 255;
		faults = true;
		vfork_fails = mc_choose(2, "vfork");
		errno = 0;
		c->info = kind == 1 ? spawn_cgi(missing ? "/nonexistent/x" : exe, "a", str_dup_ex("A=1;"), out0, end0) : spawn(missing ? "/nonexistent/x" : exe, "a", c->io ? out0 : NULL, end0);
		faults = false; 
		mc_obs("%s", c->info ? "ok" : "fails");
		if (!c->info) {
			if (!mc_cost_left() && 0) {}
			turns(3);
			if (c->exits) mc_fail("status", "the exit callback of a program that was not started");
			struct timeval tv = {0, 1};
			setsockopt(c->ctl, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
			close(CTL);
			if (recv(c->ctl, &c->h, sizeof c->h, 0) > 0) mc_fail("started", "spawn failed, the program runs");
		} else {
			if (vfork_fails) mc_fail("started", "spawn succeeds without a process");
			if (missing) { close(CTL); siginfo_t s; c->pid = (int)spawn_pid(c->info); waitid(P_PID, c->pid, &s, WEXITED | WNOWAIT); }
			else { greet(0, (int)spawn_pid(c->info)); tell(0, 'x', 255); }
			finish(0);
		}
		vfork_fails = 0;
		drop(0);
		/* the next one works */
		start_child(1, exe, NULL, NULL, 3);
		tell(1, 'w', 5);
		end_child(1, 1);
		finish(1);
		drop(1);
		break; }
	case GROW: {
		int n = C->n, p[2], when = mc_pick(2, "when");
		if (__real_pipe2(p, O_CLOEXEC)) mc_fail("init", "pipe");
		start_child(0, exe, NULL, NULL, 3);
		tell(0, 'w', 5);
		if (when) turns(2);
		for (int i = 0; i < n; i++) { int f = fcntl(p[0], F_DUPFD_CLOEXEC, 100); if (f < 0 || events_add(loop, f, EVENTS_READ, 0, nobody, NULL)) mc_fail("init", "events_add"); }
		start_child(1, exe, NULL, NULL, 3);
		tell(1, 'w', 70000);
		tell(0, 'w', 40000);
		turns(mc_pick(3, "turns"));
		end_child(0, mc_pick(3, "end"));
		turns(mc_pick(2, "turns"));
		end_child(1, 1);
		finish(0); finish(1);
		drop(0); drop(1);
		for (int f = 100; f < 100 + n + 40; f++) if (events_is_registered(loop, f)) { events_del(f); close(f); }
		close(p[0]); close(p[1]);
		base_pseudo = pseudos();
		break; }
	case ADDENV: {
		static const char *const K[] = {"A", "LONGER_NAME", "B"}, *const V[] = {"", "1", "a=b", NULL};
		static char huge[5000];
		memset(huge, 'h', 4000);
		static char want[30000];
		int rounds = mc_pick(3, "rounds") ;
		size_t size = 0;
		char *env = NULL;
		for (int r = 0; r <= rounds; r++) {
			int n = mc_pick(3, "pairs"), v[2];
			for (int j = 0; j < n; j++) { v[j] = mc_pick(4, "value"); const char *x = V[v[j]] ? V[v[j]] : huge; sprintf(want + strlen(want), "%s=%s;", K[(r + j) % 3], x); }
			const char *x0 = n > 0 && V[v[0]] ? V[v[0]] : huge, *x1 = n > 1 && V[v[1]] ? V[v[1]] : huge;
			env = n == 0 ? exec_addenv(env, &size, 0) : n == 1 ? exec_addenv(env, &size, 1, K[r % 3], x0) : exec_addenv(env, &size, 2, K[r % 3], x0, K[(r + 1) % 3], x1);
			if (size != strlen(want)) mc_fail("size", "exec_addenv reports %zu bytes, not %zu", size, strlen(want));
			if (size && (!env || strcmp(env, want))) mc_fail("pairs", "exec_addenv builds another text");
		}
		if (env) events_free(env);
		mc_obs("%zu", size);
		break; }
	}
	after_all();
	mc_done();
	for (;;) yield();
	return 0;
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = 2;
	sched_real_poll = true;
	if (events_init(1000)) mc_fail("init", "events_init failed");
	loop = events_init_pool(1);
	ex_signal_default();
	signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL); signal(SIGPIPE, SIG_IGN);
	async_task((param_func_t)main_task, 0);
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I05");
	sched_plain = true;
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n <= 0) return 2;
	snprintf(dir, sizeof dir, "/tmp/i05.XXXXXX");
	if (!mkdtemp(dir)) return 2;
	snprintf(odd, sizeof odd, "%s/pro,gram", dir);
	if (symlink(exe, odd)) return 2;
	clearenv();
	setenv("FIRST", "of the parent", 1); setenv("SECOND", "", 1); setenv("THIRD", "a=b;c", 1);
	/* the same three descriptors everywhere */
	for (int i = 3; i < 1024; i++) { int f = fcntl(i, F_GETFD); if (f >= 0) fcntl(i, F_SETFD, f | FD_CLOEXEC); }
	for (int i = 0; i < 3; i++) if (fcntl(i, F_GETFD) < 0) open("/dev/null", O_RDWR);
	static struct { const char *n; cfg c; bool th; int bound; } S[] = {
		{"script-1", {SCRIPT, 1, STEPS, 7, 4, 4}, false, 0},
		{"script-2", {SCRIPT, 2, STEPS, 2, 3, 1}, false, 0},
		{"script-3", {SCRIPT, 3, STEPS, 2, 2, 1}, false, 0},
		{"two-2", {TWO, 2, 4, 0, 3, 2}, false, 0},
		{"two-3", {TWO, 3, 4, 0, 2, 2}, true, 0},
		{"three-2", {TWO, 2, 2, 0, 2, 3}, false, 0},
		{"given", {GIVEN, 2, 7}, false, 0},
		{"given-3", {GIVEN, 3, 3}, true, 0},
		{"exec-wait", {EXEC, 6, 0, 7}, false, 0},
		{"failures", {FAULTS}, false, 3},
		{"script-4", {SCRIPT, 4, STEPS, 2, 2, 1}, true, 0},
		{"growing-250", {GROW, 250}, false, 0},
		{"growing-300", {GROW, 300}, false, 0},
		{"addenv", {ADDENV}, false, 0},
	};
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
		if (S[i].th && !MC_THOROUGH) continue;
		mc_opt o = {.bound = S[i].bound, .timeout_s = 30};
		sched_explore(S[i].n, scn, &S[i].c, o);
	}
	unlink(odd); rmdir(dir);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
