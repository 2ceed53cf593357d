/* W01: directory watches on a stand-in for the kernel's inotify, which splits what it reports into
 * reads of every size and answers each watch call. Every handler call is compared with the changes
 * that were made, every count with the watches that should exist. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef inotify_init
#undef inotify_init1
#undef inotify_add_watch
#undef inotify_rm_watch
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { BASE = 40, NI = 4, NW = 24, NE = 64 };
/* the directories; "e" may vanish and come back */
static const char *const DIRS[] = {"d", "d/s", "d/s/t", "e", "d/u"};
enum { D, DS, DST, EE, DU, NDIR };
static bool exists[NDIR];
static const char *const FILES[] = {"d/f.txt", "d/s/g", "e/h"};
typedef struct { int inst, wd, dir, how, pseudo; bool kernel, live, top; } watch;     /* kernel: still known to the kernel; live: to the user */
static watch w[NW];
typedef struct { int inst, w, wd, len; uint32_t mask, kind; char name[40]; bool read, done, top; } ev;   /* kind: what the handler is to get, 0 nothing */
static ev e[NE];
static int nw, ne, calls, how_now, inside;
static struct { bool open, reg, edge; uint32_t ev; uint64_t data; int next; } in_[NI];
static bool model, faults;
static int first_wd = 1;
PLAIN static int at(int fd) { return model && fd >= BASE && fd < BASE + NI ? fd - BASE : -1; }
PLAIN static int pending(int i) { int n = 0; for (int k = 0; k < ne; k++) n += e[k].inst == i && !e[k].read; return n; }
static bool user_rm;
PLAIN static void emit(int wi, uint32_t mask, const char *name) {
	if (ne == NE) mc_fail("runaway", "more events than planned");
	ev *v = &e[ne++];
	memset(v, 0, sizeof *v);
	v->w = wi; v->inst = w[wi].inst; v->wd = w[wi].wd; v->mask = mask;
	snprintf(v->name, sizeof v->name, "%s", name);
	v->len = *name ? ((int)strlen(name) / 16 + 1) * 16 : 0;
	if (*name) v->kind = mask & (IN_CREATE | IN_MOVED_TO) ? WATCH_ADDED : mask & (IN_DELETE | IN_MOVED_FROM) ? WATCH_REMOVED : mask & (IN_MODIFY | IN_ATTRIB) ? WATCH_MODIFIED : 0;
	v->done = !v->kind;
	v->top = w[wi].top;
	in_[w[wi].inst].edge = true;
}
/* a change of an entry of a directory, reported to every watch of it */
PLAIN static void change(int dir, uint32_t mask, const char *name) { for (int i = 0; i < nw; i++) if (w[i].kernel && w[i].dir == dir) { if (mc_verbose) mc_note("  kernel: %#x %s in %s\n", mask, name, DIRS[dir]); emit(i, mask, name); } }
PLAIN static void vanish(int dir) {
	exists[dir] = false;
	for (int i = 0; i < nw; i++) if (w[i].kernel && w[i].dir == dir) { emit(i, IN_DELETE_SELF, ""); w[i].kernel = false; emit(i, IN_IGNORED, ""); }
}
int __real_close(int);
PLAIN int __wrap_close(int fd) {
	int i = at(fd);
	if (i < 0) return __real_close(fd);
	if (!in_[i].open) mc_fail("closed-twice", "the watch descriptor is closed twice");
	in_[i].open = in_[i].reg = false;
	for (int k = 0; k < nw; k++) if (w[k].inst == i) w[k].kernel = false;
	for (int k = 0; k < ne; k++) if (e[k].inst == i) { e[k].read = true; e[k].inst = -1; }
	for (int k = 0; k < nw; k++) if (w[k].inst == i) w[k].inst = -1;
	return __real_close(fd);
}
PLAIN int __wrap_inotify_init1(int fl) {
	if (faults && mc_choose(2, "inotify_init")) { errno = EMFILE; return -1; }
	int fd = open("/dev/null", O_RDWR), k = fcntl(fd, F_DUPFD, BASE);
	__real_close(fd);
	if (k >= BASE + NI) mc_fail("runaway", "more than four watch descriptors");
	if (fl & IN_NONBLOCK) fcntl(k, F_SETFL, O_NONBLOCK | O_RDWR);
	memset(&in_[k - BASE], 0, sizeof *in_);
	in_[k - BASE].open = true;
	in_[k - BASE].next = first_wd;
	return k;
}
PLAIN int __wrap_inotify_init(void) { return __wrap_inotify_init1(0); }
PLAIN int __wrap_inotify_add_watch(int fd, const char *name, uint32_t mask) {
	int i = at(fd), d = 0;
	while (d < NDIR && strcmp(name, DIRS[d])) d++;
	if (i < 0 || !in_[i].open) { errno = EBADF; return -1; }
	if (d == NDIR || !exists[d]) { errno = ENOENT; return -1; }
	if (faults && mc_choose(2, "inotify_add_watch")) { errno = ENOSPC; return -1; }
	if ((mask & (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVE)) != (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVE)) mc_fail("mask", "the watch asks for %#x only", mask);
	for (int k = 0; k < nw; k++) if (w[k].kernel && w[k].inst == i && w[k].dir == d) { w[k].how = how_now; return w[k].wd; }
	if (nw == NW) mc_fail("runaway", "more watches than planned");
	w[nw] = (watch){i, in_[i].next++, d, how_now, -1, true, true, false};
	if (mc_verbose) mc_note("  kernel: watch %d on %s\n", w[nw].wd, name);
	return w[nw++].wd;
}
PLAIN int __wrap_inotify_rm_watch(int fd, int wd) {
	int i = at(fd);
	for (int k = 0; i >= 0 && k < nw; k++) if (w[k].inst == i && w[k].wd == wd && w[k].kernel) { w[k].kernel = false; emit(k, IN_IGNORED, ""); return 0; }
	errno = i < 0 ? EBADF : EINVAL;
	return -1;
}
ssize_t __real_read(int, void *, size_t);
PLAIN ssize_t __wrap_read(int fd, void *b, size_t n) {
	int i = at(fd), have, give, k = 0, got = 0;
	if (i < 0) return __real_read(fd, b, n);
	if (!in_[i].open) { errno = EBADF; return -1; }
	if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) mc_fail("blocking", "a read of events that blocks the whole program");
	if (!(have = pending(i))) { errno = EAGAIN; return -1; }
	if (faults && mc_choose(2, "read")) { errno = EINTR; return -1; }
	give = have - mc_choose(have, "batch");
	for (; k < ne && give; k++) if (e[k].inst == i && !e[k].read) {
		struct inotify_event x = {.wd = e[k].wd, .mask = e[k].mask, .len = e[k].len};
		if (got + sizeof x + x.len > n) break;
		memcpy((char *)b + got, &x, sizeof x);
		memset((char *)b + got + sizeof x, 0, x.len);
		strncpy((char *)b + got + sizeof x, e[k].name, x.len);
		got += sizeof x + x.len;
		e[k].read = true;
		give--;
	}
	if (!got) { errno = EINVAL; return -1; }
	return got;
}
int __real_epoll_ctl(int, int, int, struct epoll_event *);
PLAIN int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *v) {
	int i = at(fd);
	if (i < 0) return __real_epoll_ctl(ep, op, fd, v);
	if (!in_[i].open) { errno = EBADF; return -1; }
	if (op == EPOLL_CTL_ADD ? in_[i].reg : !in_[i].reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
	in_[i].reg = op != EPOLL_CTL_DEL;
	if (in_[i].reg) { in_[i].ev = v->events; in_[i].data = v->data.u64; in_[i].edge = true; }
	return 0;
}
static int turns;
PLAIN static int poll_answer(struct epoll_event *v, int n, int timeout) {
	(void)timeout;
	int m = 0;
	turns++;
	if (!model) return 0;
	for (int i = 0; i < NI && m < n; i++) if (in_[i].open && in_[i].reg && pending(i) && in_[i].ev & EPOLLIN && (!(in_[i].ev & EPOLLET) || in_[i].edge)) {
		in_[i].edge = false;
		v[m].events = EPOLLIN;
		v[m++].data.u64 = in_[i].data;
	}
	return m;
}
/* the tree, for whoever looks for sub-directories */
typedef struct { int d, k; struct dirent e; } dirp;
PLAIN DIR *__wrap_opendir(const char *p) {
	int d = 0;
	while (d < NDIR && strcmp(p, DIRS[d])) d++;
	if (d == NDIR || !exists[d]) { errno = ENOENT; return NULL; }
	dirp *r = calloc(1, sizeof *r);
	r->d = d;
	r->k = -2;
	return (DIR *)r;
}
PLAIN struct dirent *__wrap_readdir(DIR *q) {
	dirp *r = (dirp *)q;
	const char *p = DIRS[r->d];
	size_t n = strlen(p);
	int k = r->k++;
	if (k < 0) { strcpy(r->e.d_name, k == -2 ? "." : ".."); r->e.d_type = DT_DIR; return &r->e; }
	for (; k < NDIR + 3; k = r->k++) {
		const char *s = k < NDIR ? DIRS[k] : FILES[k - NDIR];
		if (k < NDIR && !exists[k]) continue;
		if (strncmp(s, p, n) || s[n] != '/' || strchr(s + n + 1, '/')) continue;
		strcpy(r->e.d_name, s + n + 1);
		r->e.d_type = k < NDIR ? DT_DIR : DT_REG;
		return &r->e;
	}
	return NULL;
}
PLAIN int __wrap_closedir(DIR *q) { free(q); return 0; }

/* ---- the users' side */
enum { WATCH_D, WATCH_E, WATCH_X, WATCH_DS, REMOVE_OLD, REMOVE_NEW, CLOSE, CHANGE_D, CHANGE_SUB, RMDIR_E, TURN, MKDIR_E, BADREMOVE, NOP };
static const char *const ON[] = {"watch d", "watch e", "watch nothing", "watch d/s", "remove the oldest watch", "remove the newest watch", "end all watching", "a change in d", "changes below d and in e", "e is removed", "a turn", "e is created", "remove no watch"};
static events_t *loop;
static int fd_ = -1, base_desc, base_pseudo, serial, acting, act_at, act, slow, under_way = -1;
static char F[2];
PLAIN static int pseudos(void) { int n = 0; for (int p = 0; p < 256; p++) n += events_valid_fd(p); return n; }
PLAIN static int live(void) { int n = 0; for (int i = 0; i < nw; i++) n += w[i].live; return n; }
static bool gone(int i) { return !w[i].kernel; }
PLAIN static void drop(int i) { w[i].live = false; for (int k = 0; k < ne; k++) if (e[k].w == i) e[k].done = true; }
PLAIN static int number(int i) {
	if (w[i].pseudo >= 0) return w[i].pseudo;
	for (int p = 0; p < 256; p++) if (events_valid_fd(p) && (int)events_get_fd(p) == w[i].wd && p != fd_ && fs_events_path(p) && !strcmp(fs_events_path(p), DIRS[w[i].dir])) return w[i].pseudo = p;
	mc_fail("number", "no number belongs to the watch of %s", DIRS[w[i].dir]);
	return -1;
}
/* every query against the watches there should be; `late`: of directories that are gone but for the kernel's last word */
PLAIN static void look(const char *after, bool settled) {
	int n = live(), late = 0;
	for (int i = 0; i < nw; i++) late += w[i].live && gone(i);
	int c = fd_ >= 0 ? events_watch_count(fd_) : 0;
	if (settled && late) mc_fail("gone", "%s: a removed directory is still watched", after);
	if (c > n || c < n - late) mc_fail("count", "%s: %d watches, not %d", after, c, n);
	if (fd_ >= 0 && events_is_watching(fd_) != (c > 0)) mc_fail("watching", "%s: events_is_watching is %d with %d watches", after, c == 0, c);
	if (events_watch_count(-1) || events_is_watching(100000)) mc_fail("count", "a number that is no watch descriptor has watches");
	if (!inside && (int)loop->active_descriptors != base_desc + (c > 0)) mc_fail("accounting", "%s: the loop counts %d descriptors, not %d", after, (int)loop->active_descriptors - base_desc, c > 0);
	int opened = 0;
	for (int i = 0; i < NI; i++) opened += in_[i].open;
	if (opened > (fd_ >= 0)) mc_fail("leak", "%s: %d watch descriptors are open", after, opened);
	int p = pseudos() - base_pseudo;
	if (p != opened + c) mc_fail("leak", "%s: %d numbers in use for %d watches", after, p, c);
}
static void handler0(int wd, events_monitors mask, const char *name, void *filter);
static void handler1(int wd, events_monitors mask, const char *name, void *filter);
static void do_watch(int dir, int how) {
	how_now = how;
	under_way = dir;
	int n0 = nw, was = fd_, r;
	if (dir < 0) r = events_watch(loop, "x", handler0, F);
	else r = events_watch(loop, DIRS[dir], how ? handler1 : handler0, F + how);
	if (mc_verbose) mc_note("  events_watch(%s) = %d\n", dir < 0 ? "x" : DIRS[dir], r);
	if (dir < 0 || !exists[dir]) { if (r != -1) mc_fail("watched", "watching what does not exist gave %d", r); if (loop->inotify_fd >= 0) fd_ = loop->inotify_fd; return; }
	under_way = -1;
	bool known = false;
	int i = n0;
	for (int k = 0; k < n0; k++) if (w[k].kernel && w[k].dir == dir && w[k].live) { known = true; i = k; }
	if (r < 0) {
		if (!faults) mc_fail("refused", "events_watch(%s) gave %d", DIRS[dir], r);
		if (nw > n0 && !known) mc_fail("refused", "events_watch gave -1 and watches all the same");
		if (loop->inotify_fd >= 0) fd_ = loop->inotify_fd;
		return;
	}
	if (was >= 0 && r != was) mc_fail("descriptor", "events_watch returns %d, the loop's watch descriptor is %d", r, was);
	fd_ = r;
	if (!known && (nw == n0 || w[n0].dir != dir)) mc_fail("unwatched", "%s is not watched", DIRS[dir]);
	w[i].top = true;
	/* and every directory below it */
	for (int d = 0; d < NDIR && !faults; d++) if (exists[d] && !strncmp(DIRS[d], DIRS[dir], strlen(DIRS[dir])) && DIRS[d][strlen(DIRS[dir])] == '/') {
		bool found = false;
		for (int k = 0; k < nw; k++) found |= w[k].live && w[k].dir == d && w[k].kernel;
		if (!found) mc_fail("recursive", "%s below %s is not watched", DIRS[d], DIRS[dir]);
	}
}
static void do_remove(int i) {
	int p = number(i), r = 0;
	if (mc_verbose) mc_note("  events_remove(%d), the watch of %s\n", p, DIRS[w[i].dir]);
	drop(i);
	r = events_remove(p);
	if (w[i].kernel) mc_fail("unremoved", "the kernel still watches %s", DIRS[w[i].dir]);
	(void)r;
}
static void do_op(int o) {
	if (mc_verbose) mc_note("%s%s\n", inside ? "  (in the handler) " : "", ON[o]);
	switch (o) {
	case WATCH_D: do_watch(D, 0); break;
	case WATCH_E: do_watch(EE, 1); break;
	case WATCH_X: do_watch(-1, 0); break;
	case WATCH_DS: do_watch(DS, 1); break;
	case REMOVE_OLD: case REMOVE_NEW: {
		int k = -1;
		for (int i = 0; i < nw; i++) if (w[i].live && w[i].kernel && (k < 0 || o == REMOVE_NEW)) k = i;
		if (k < 0) break;
		do_remove(k);
		break; }
	case CLOSE: {
		int was = fd_;
		for (int i = 0; i < nw; i++) if (w[i].live) drop(i);
		fd_ = -1;
		int r = events_del_watch(loop);
		if (was >= 0 && r) mc_fail("close", "events_del_watch gave %d", r);
		if (was >= 0 && (events_is_watching(was) || events_valid_fd(was))) mc_fail("close", "the watch descriptor is alive after events_del_watch");
		break; }
	case CHANGE_D: { char s[40]; snprintf(s, sizeof s, "n%d", serial++); change(D, IN_CREATE, s); break; }
	case CHANGE_SUB: { char s[40]; snprintf(s, sizeof s, "%d-long-enough-for-more", serial++); change(DS, IN_MODIFY, s); change(EE, IN_DELETE | IN_ISDIR, "z"); break; }
	case RMDIR_E: change(EE, IN_DELETE, "last"); vanish(EE); break;
	case MKDIR_E: exists[EE] = true; break;
	case BADREMOVE: if (events_remove(-1) != -1 || events_remove(100000) != -1 || (fd_ >= 0 && events_remove(fd_) != -1)) { int r = events_remove(-1); if (r >= 0) mc_fail("remove", "removing no watch gave %d", r); } break;
	case TURN: for (int t = turns, k = 0; turns < t + 2 && k < 50; k++) yield(); break;
	}
}
static void called(int how, int wd, int mask, const char *name, const void *filter) {
	int k = 0;
	char want[80];
	if (mc_verbose) mc_note("  handler(%d, %#x, %s)\n", wd, mask, name);
	if (inside) mc_fail("nested", "a handler is called while another event's is under way");
	inside++;
	calls++;
	mc_step(1);
	while (k < ne && e[k].done) k++;
	if (k == ne) mc_fail("surplus", "the handler is called for %s, there is nothing to report", name);
	watch *x = &w[e[k].w];
	if (!e[k].read) mc_fail("order", "the handler is called for %s before the event was read", name);
	snprintf(want, sizeof want, "%s%s%s", x->top ? "" : DIRS[x->dir], x->top ? "" : "/", e[k].name);
	e[k].done = true;
	/* watched by itself since: the name may come either way */
	if (!e[k].top && (x->top || under_way == x->dir) && strcmp(name, want)) /* named within the directory, or */
		 snprintf(want, sizeof want, "%s%s%s", x->top ? DIRS[x->dir] : "", x->top ? "/" : "", e[k].name);
	if (strcmp(name, want)) mc_fail("event", "the handler gets '%s', the next event is '%s'", name, want);
	int all = WATCH_ADDED | WATCH_MODIFIED | WATCH_REMOVED | WATCH_MOVED;
	if ((mask & all) != (int)e[k].kind) mc_fail("kind", "the kind of '%s' is %#x, not %#x", name, mask & all, e[k].kind);
	if (x->pseudo < 0) { for (int i = 0; i < nw; i++) if (i != e[k].w && w[i].live && w[i].pseudo == wd) mc_fail("number", "watch %d is reported for two directories", wd); x->pseudo = wd; }
	if (wd != x->pseudo) mc_fail("number", "'%s' is reported for watch %d, not %d", name, wd, x->pseudo);
	if (!fs_events_path(wd) || strcmp(fs_events_path(wd), DIRS[x->dir])) mc_fail("path", "fs_events_path(%d) is '%s', not '%s'", wd, fs_events_path(wd), DIRS[x->dir]);
	if (how != x->how || filter != F + x->how) mc_fail("handler", "'%s' in %s went to the handler of another watch", name, DIRS[x->dir]);
	if (slow) yield();
	if (acting && calls == act_at) {
		if (act == NOP) do_remove((int)(x - w));
		else do_op(act);
	}
	inside--;
}
static void handler0(int wd, events_monitors mask, const char *name, void *filter) { called(0, wd, mask, name, filter); }
static void handler1(int wd, events_monitors mask, const char *name, void *filter) { called(1, wd, mask, name, filter); }
PLAIN static bool idle(void) { for (int i = 0; i < NI; i++) if (in_[i].open && in_[i].reg && pending(i)) return false; for (int k = 0; k < ne; k++) if (!e[k].done) return false; return !inside; }
/* what the kernel's last word about a watch means: it is no more */
PLAIN static void ignored(void) { for (int k = 0; k < ne; k++) if (e[k].mask & IN_IGNORED && e[k].read && w[e[k].w].live) drop(e[k].w); }
static void settle(void) {
	for (int k = 0; k < 60 && !idle(); k++) yield();
	for (int k = 0; k < 6; k++) yield();
	for (int k = 0; k < ne; k++) if (!e[k].done) mc_fail("lost", "'%s' in %s never reaches the handler", e[k].name, DIRS[w[e[k].w].dir]);
	ignored();
	look("in the end", true);
}
typedef struct { int kind, n, ops, slow, acts; uint32_t wide; } cfg;
static cfg *C;
enum { HISTORY, BATCH, ACTIONS, EVENTS, SYNC };
static const uint32_t MASKS[] = {IN_CREATE, IN_DELETE, IN_MODIFY, IN_MOVED_FROM, IN_MOVED_TO, IN_ATTRIB, IN_ACCESS, IN_CREATE | IN_ISDIR};
static const char *const NAMES[] = {"a", "fifteen-letters", "sixteen--letters", "a name with thirty-one letters.", "b"};
static void one_event(int i, int kinds) {
	int d = mc_pick(C->wide ? 4 : 3, "directory"), k = mc_pick(kinds, "kind");
	char s[40];
	snprintf(s, sizeof s, "%s%s", NAMES[i % 5], "");
	change(d == 0 ? D : d == 1 ? DS : d == 2 ? EE : DST, MASKS[k], s);
}
static void *main_task(param_t args) {
	(void)args;
	base_desc = (int)loop->active_descriptors;
	base_pseudo = pseudos();
	switch (C->kind) {
	case HISTORY: {
		for (int i = 0; i < C->n; i++) {
			do_op(mc_pick(C->ops, "operation"));
			look("after an operation", false);
		}
		settle();
		break; }
	case BATCH:
		do_watch(D, 0);
		do_watch(EE, 1);
		for (int i = 0; i < C->n; i++) {
			one_event(i, C->ops);
			if (mc_pick(2, "pause")) do_op(TURN);
		}
		settle();
		break;
	case ACTIONS: {
		static const int A[] = {NOP, REMOVE_OLD, REMOVE_NEW, CLOSE, WATCH_E, CHANGE_D, RMDIR_E, WATCH_DS, TURN};
		do_watch(D, 0);
		do_watch(EE, 1);
		acting = 1;
		act_at = 1 + mc_pick(2, "at");
		act = A[mc_pick(C->acts, "action")];
		for (int i = 0; i < C->n; i++) { one_event(i, C->ops); if (C->slow && mc_pick(2, "pause")) do_op(TURN); }
		settle();
		do_watch(D, 0);
		one_event(1, 1);
		settle();
		break; }
	}
	do_op(CLOSE);
	for (int k = 0; k < 6; k++) yield();
	look("after the end", true);
	if (pseudos() != base_pseudo) mc_fail("leak", "%d numbers stay in use", pseudos() - base_pseudo);
	mc_obs("end %d %d", calls, ne);
	mc_done();
	for (;;) yield();
	return 0;
}
static void scn(void *arg) {
	C = arg;
	slow = C->slow;
	first_wd = C->wide & 2 ? 1000000 : C->wide & 4 ? 3 : 1;
	faults = C->wide & 8;
	for (int d = 0; d < NDIR; d++) exists[d] = true;
	sched_start();
	sched_cpus = 2;
	if (events_init(64)) mc_fail("init", "events_init failed");
	loop = events_init_pool(1);
	ex_signal_default();
	sched_poll = poll_answer;
	model = true;
	async_task((param_func_t)main_task, 0);
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "W01");
	sched_plain = true;
	static struct { const char *n; cfg c; bool th; int bound; } S[] = {
		{"history-2", {HISTORY, 2, 13, 0, 0, 0}, false, 1},
		{"history-3", {HISTORY, 3, 13, 0, 0, 0}, false, 1},
		{"history-4", {HISTORY, 4, 11, 0, 0, 0}, false, 0},
		{"history-5", {HISTORY, 5, 11, 0, 0, 0}, true, 0},
		{"history-faults", {HISTORY, 3, 11, 0, 0, 8}, false, 2},
		{"history-high", {HISTORY, 3, 11, 0, 0, 2}, false, 0},
		{"batch-2", {BATCH, 2, 8, 0, 0, 1}, false, 2},
		{"batch-3", {BATCH, 3, 3, 0, 0, 0}, false, 2},
		{"batch-3-high", {BATCH, 3, 2, 0, 0, 2}, false, 2},
		{"batch-4", {BATCH, 4, 1, 0, 0, 4}, false, 2},
		{"batch-3-slow", {BATCH, 3, 2, 1, 0, 0}, false, 2},
		{"batch-4-wide", {BATCH, 4, 4, 1, 0, 0}, true, 2},
		{"actions-2", {ACTIONS, 2, 2, 0, 8, 0}, false, 2},
		{"actions-3", {ACTIONS, 3, 1, 0, 9, 0}, false, 2},
		{"actions-2-slow", {ACTIONS, 2, 1, 1, 9, 0}, false, 2},
		{"actions-3-slow", {ACTIONS, 3, 1, 1, 9, 0}, true, 1},
		{"actions-4", {ACTIONS, 4, 2, 1, 9, 0}, true, 1},
	};
	for (unsigned i = 0; i < sizeof S / sizeof *S; i++) {
		if (S[i].th && !MC_THOROUGH) continue;
		mc_opt o = {.bound = S[i].bound, .timeout_s = 20};
		sched_explore(S[i].n, scn, &S[i].c, o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
