/* I06: every short history of making, opening, using, closing and removing named pipes, together with
 * plain descriptors that have small numbers; real pipes in a scratch directory below /tmp. */
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#undef mkfifo

enum { NN = 2, NH = 2, NQ = 16 };
static char dir[32], rel[NN + 1][340], full[NN + 1][360];
typedef struct { int refs; char q[NQ]; int n; } pipe_t;
static pipe_t objs[8];
static int nobjs, named[NN], hfd[NH], hobj[NH], nh, bytes, last_made;
static int peer = 41, plain = 42;               /* number 1 is one end of a socket pair, `plain` keeps it */
static bool plain_open;
static void clean(void) {
	for (int i = 0; i <= NN; i++) unlink(full[i]);
	rmdir(dir);
}
#define FAIL(...) do { clean(); mc_fail(__VA_ARGS__); } while (0)
#define NOTE(...) do { if (mc_verbose) mc_note(__VA_ARGS__); } while (0)
static int descriptors(void) { int n = 0; for (int f = 0; f < 120; f++) n += fcntl(f, F_GETFD) >= 0; return n; }
static bool there(const char *p) { struct stat st; return !lstat(p, &st) && S_ISFIFO(st.st_mode); }

static void make(int k) {
	errno = 0;
	int r = os_mkfifo(rel[k], 0600), e = errno;
	NOTE("  mkfifo(%s) = %d\n", rel[k], r);
	if (named[k] >= 0) { if (r != -1 || e != EEXIST) FAIL("exists", "making pipe %d, which exists, gives %d, errno %d", k, r, e); }
	else {
		if (r) FAIL("make", "making pipe %d gives %d, errno %d", k, r, e);
		if (nobjs == 8) mc_skip();
		named[k] = nobjs;
		memset(&objs[nobjs++], 0, sizeof *objs);
	}
	if (!there(full[k])) FAIL("nowhere", "there is no pipe %s", full[k]);
	if (strcmp(mkfifo_name(), full[k])) FAIL("name", "mkfifo_name is %s, the pipe is %s", mkfifo_name(), full[k]);
	last_made = k;
}
static void open_end(int k, bool whole) {
	if (nh == NH) mc_skip();
	errno = 0;
	int f = os_open(whole ? full[k] : rel[k], O_RDWR | O_NONBLOCK, 0), e = errno;
	NOTE("  open(%s) = %d\n", whole ? full[k] : rel[k], f);
	if (named[k] < 0) { if (f != -1 || e != ENOENT) FAIL("opened", "opening pipe %d, which does not exist, gives %d, errno %d", k, f, e); return; }
	struct stat a, b;
	if (f < 0) FAIL("open", "opening pipe %d by its %s name gives errno %d", k, whole ? "full" : "short", e);
	if (fstat(f, &a) || stat(full[k], &b) || a.st_ino != b.st_ino || a.st_dev != b.st_dev) FAIL("other", "opening pipe %d gives something else", k);
	if (mkfifo_fd() != f) FAIL("handle", "mkfifo_fd is %d, the pipe was opened as %d", (int)mkfifo_fd(), f);
	for (int i = 0; i < nh; i++) if (hfd[i] == f) FAIL("number", "two open pipes have the number %d", f);
	hfd[nh] = f; hobj[nh++] = named[k];
	objs[named[k]].refs++;
}
static void put(int h) {
	if (h >= nh) mc_skip();
	pipe_t *o = &objs[hobj[h]];
	char c = 'a' + bytes++ % 26;
	int r = write(hfd[h], &c, 1);
	NOTE("  write(%d, %c) = %d\n", hfd[h], c, r);
	if (r != 1) FAIL("write", "writing to a pipe gives %d, errno %d", r, errno);
	o->q[o->n++] = c;
}
static void get(int h) {
	if (h >= nh) mc_skip();
	pipe_t *o = &objs[hobj[h]];
	char c[2] = {0, 0};
	errno = 0;
	int r = os_read(hfd[h], c, 1), e = errno;
	NOTE("  read(%d) = %d %c\n", hfd[h], r, c[0] ? c[0] : '-');
	if (!o->n) { if (r != -1 || e != EAGAIN) FAIL("invented", "reading from the empty pipe gives %d, errno %d", r, e); return; }
	if (r != 1 || c[0] != o->q[0]) FAIL("data", "reading gives %d, '%c', '%c' was written first", r, c[0], o->q[0]);
	memmove(o->q, o->q + 1, --o->n);
}
static void shut(int h) {
	if (h >= nh) mc_skip();
	int f = hfd[h], r = os_close(f);
	NOTE("  close(%d) = %d\n", f, r);
	if (r || fcntl(f, F_GETFD) >= 0) FAIL("close", "closing a pipe gives %d, descriptor %d is %s", r, f, fcntl(f, F_GETFD) >= 0 ? "open" : "closed");
	pipe_t *o = &objs[hobj[h]];
	if (!--o->refs) o->n = 0;
	nh--;
	memmove(hfd + h, hfd + h + 1, (nh - h) * sizeof *hfd);
	memmove(hobj + h, hobj + h + 1, (nh - h) * sizeof *hobj);
}
static void away(int k) {
	if (named[k] < 0) mc_skip();
	unlink(full[k]);
	NOTE("  unlink(%s)\n", full[k]);
	named[k] = -1;
}
static void plain_write(void) {
	char c = 'A' + bytes++ % 26, d = 0;
	int r = write(1, &c, 1);
	if (r != 1 || read(peer, &d, 1) != 1 || d != c) FAIL("plain-write", "writing to descriptor 1 gives %d, it got '%c'", r, d ? d : '-');
}
static void plain_read(void) {
	char c = 'A' + bytes++ % 26, d = 0;
	if (write(peer, &c, 1) != 1) FAIL("init", "write");
	int r = os_read(1, &d, 1);
	if (r != 1 || d != c) FAIL("plain-read", "reading from descriptor 1 gives %d, '%c'", r, d ? d : '-');
}
static void plain_close(void) {
	int r = os_close(1);
	NOTE("  close(1) = %d\n", r);
	if (r || fcntl(1, F_GETFD) >= 0) FAIL("plain-close", "closing descriptor 1 gives %d, it is %s", r, fcntl(1, F_GETFD) >= 0 ? "open" : "closed");
	dup2(plain, 1);
}
static void check(void) {
	for (int i = 0; i < nh; i++) if (fcntl(hfd[i], F_GETFD) < 0) FAIL("closed", "the descriptor %d of an open pipe is closed", hfd[i]);
	for (int k = 0; k < NN; k++) if (there(full[k]) != (named[k] >= 0)) FAIL("exist", "pipe %d %s", k, named[k] >= 0 ? "is gone" : "came into being");
}
enum { LETTERS = 4 * NN + 3 * NH + 3 };
static void step(int o) {
	if (o < NN) make(o);
	else if (o < 2 * NN) open_end(o - NN, false);
	else if (o < 3 * NN) open_end(o - 2 * NN, true);
	else if (o < 4 * NN) away(o - 3 * NN);
	else if ((o -= 4 * NN) < NH) put(o);
	else if (o < 2 * NH) get(o - NH);
	else if (o < 3 * NH) shut(o - 2 * NH);
	else if ((o -= 3 * NH) == 0) plain_write();
	else if (o == 1) plain_read();
	else plain_close();
}
/* which of them make sense where nothing exists yet: the rest would only repeat shorter histories */
static bool sense(const int *ops, int n) {
	int h = 0;
	bool on[NN] = {false};
	for (int i = 0; i < n; i++) {
		int o = ops[i];
		if (o < NN) on[o] = true;
		else if (o < 3 * NN) { if (h == NH) return false; h += on[(o - NN) % NN]; }
		else if (o < 4 * NN) { if (!on[o - 3 * NN]) return false; on[o - 3 * NN] = false; }
		else if ((o -= 4 * NN) < 3 * NH) { if (o % NH >= h) return false; if (o >= 2 * NH) h--; }
	}
	return true;
}
static bool up;
static void start(void) {
	if (up) return;
	sim_start(1024);
	up = true;
	strcpy(dir, "/tmp/i06.XXXXXX");
	if (!mkdtemp(dir)) mc_fail("init", "mkdtemp");
	for (int k = 0; k < NN; k++) { snprintf(rel[k], sizeof *rel, "%s/%c", dir + 5, 'a' + k); snprintf(full[k], sizeof *full, "%s/%c", dir, 'a' + k); }
	int p[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) mc_fail("init", "socketpair");
	dup2(p[0], plain); dup2(p[1], peer); close(p[0]); close(p[1]);
}
static void finish_case(int before) {
	while (nh) shut(0);
	for (int k = 0; k < NN; k++) if (named[k] >= 0) away(k);
	check();
	rmdir(dir);
	if (descriptors() != before) FAIL("leak", "%d descriptors are open, %d were before", descriptors(), before);
}
static void one(uint64_t idx, void *a) {
	int depth = *(int *)a, ops[10];
	for (int i = 0; i < depth; i++) ops[i] = take(&idx, LETTERS);
	if (!sense(ops, depth)) mc_skip();
	start();
	mkdir(dir, 0700);
	dup2(plain, 1);
	nobjs = nh = bytes = 0;
	for (int k = 0; k < NN; k++) named[k] = -1;
	int before = descriptors();
	for (int i = 0; i < depth; i++) { step(ops[i]); check(); mc_step(1); }
	finish_case(before);
}
/* more pipes than the table has room for, one after another; a == 0: always the same name */
static void many(uint64_t idx, void *a) {
	int other = idx % 2, n = 200 + 60 * (idx / 2);
	(void)a;
	start();
	mkdir(dir, 0700);
	dup2(plain, 1);
	for (int k = 0; k < NN; k++) named[k] = -1;
	int before = descriptors();
	for (int i = 0; i < n; i++) {
		if (other) { snprintf(rel[0], sizeof *rel, "%s/p%d", dir + 5, i); snprintf(full[0], sizeof *full, "%s/p%d", dir, i); }
		nobjs = 0;
		make(0); open_end(0, i & 1); put(0); get(0); shut(0); away(0);
		plain_write();
		mc_step(1);
	}
	/* there is still a number for others */
	int s = dup(plain), p = events_new_fd(FD_MONITOR_SYNC, s, -1);
	if (p < 0) FAIL("exhausted", "after %d pipes made and removed no pseudo descriptor is left", n);
	events_free_fd(p);
	close(s);
	finish_case(before);
}
/* names of every length: the pipe of exactly this name, or none */
static void length(uint64_t idx, void *a) {
	(void)a;
	start();
	mkdir(dir, 0700);
	dup2(plain, 1);
	for (int k = 0; k < NN; k++) named[k] = -1;
	int before = descriptors(), n = 1 + idx;
	int k = snprintf(rel[0], sizeof *rel, "%s/", dir + 5);
	memset(rel[0] + k, 'n', n);
	rel[0][k + n] = 0;
	snprintf(full[0], sizeof *full, "/tmp/%s", rel[0]);
	errno = 0;
	int r = os_mkfifo(rel[0], 0600), e = errno;
	if (r) {
		if (r != -1 || e != ENAMETOOLONG) FAIL("make", "making a pipe with a name of %d bytes gives %d, errno %d", n, r, e);
		if (there(full[0])) FAIL("exist", "a refused pipe exists");
		/* nothing else was made */
		if (rmdir(dir)) FAIL("made-other", "a pipe with a name of %d bytes was refused, the directory is not empty", n);
		mkdir(dir, 0700);
		if (n < 200) FAIL("refused", "a name of %d bytes is refused", n);
	} else {
		if (!there(full[0])) { char cmd[360]; for (int i = n; i > 0; i--) { snprintf(cmd, sizeof cmd, "%.*s", (int)strlen(dir) + 1 + i, full[0]); unlink(cmd); } FAIL("made-other", "a pipe with a name of %d bytes was made, but not with this name", n); }
		named[0] = 0; nobjs = 1; memset(objs, 0, sizeof *objs);
		if (strcmp(mkfifo_name(), full[0])) FAIL("name", "mkfifo_name is %s, the pipe is %s", mkfifo_name(), full[0]);
		open_end(0, false); put(0); open_end(0, true); get(1); shut(1); shut(0);
		/* one byte more names another */
		rel[0][k + n] = 'n'; rel[0][k + n + 1] = 0;
		int f = os_open(rel[0], O_RDWR | O_NONBLOCK, 0);
		if (f >= 0) FAIL("other", "opening a name of %d bytes opens the pipe whose name has %d", n + 1, n);
	}
	finish_case(before);
	snprintf(rel[0], sizeof *rel, "%s/a", dir + 5);
	mc_step(1);
}
/* started again: the pipes of the first time are forgotten */
static void again(uint64_t idx, void *a) {
	(void)a;
	start();
	mkdir(dir, 0700);
	dup2(plain, 1);
	for (int k = 0; k < NN; k++) named[k] = -1;
	nobjs = nh = bytes = 0;
	int before = descriptors(), op[4];
	for (int i = 0; i < 4; i++) op[i] = take(&idx, 3);
	static const int O[] = {0, NN, 3 * NN};
	int on = 0;
	for (int i = 0; i < 4; i++) { if (op[i] == 2 && !on) mc_skip(); if (op[i] == 0) on = 1; if (op[i] == 2) on = 0; }
	for (int i = 0; i < 4; i++) {
		if (i == 2) {
			while (nh) shut(0);
			events_destroy(sim_loop);
			events_deinit();
			sim_start(1024);
			if (named[0] >= 0) make(0);             /* refused, but known again */
		}
		step(O[op[i]]); check(); mc_step(1);
	}
	finish_case(before);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I06");
	bool th = MC_THOROUGH;
	static int D[] = {1, 2, 3, 4, 5, 6};
	mc_opt fresh = {.timeout_s = 20, .recycle = 1}, warm = {.timeout_s = 60, .recycle = 2000};
	uint64_t n = 1;
	for (int d = 1; d <= (th ? 6 : 5); d++) {
		char name[40];
		n *= LETTERS;
		if (d <= (th ? 4 : 3)) { snprintf(name, sizeof name, "fresh-%d", d); mc_enum(name, n, one, &D[d - 1], fresh); }
		if (d > 3) { snprintf(name, sizeof name, "histories-%d", d); mc_enum(name, n, one, &D[d - 1], warm); }
	}
	mc_enum("many", 6, many, NULL, fresh);
	mc_enum("lengths", 254, length, NULL, fresh);
	mc_enum("again", 81, again, NULL, fresh);
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
