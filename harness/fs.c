/* I03: the file operations that are handed to pool threads, on a modelled file system that answers
 * every system call with success, fewer bytes than asked, or an error; with threads switched by us. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#undef accept
#undef listen
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { FD0 = 200, NFD = 8, NFILE = 3, CAP = 24 };
static struct { bool there, dir; char b[CAP]; int n; } file[NFILE];
static struct { bool open; int f, pos; } fd_[NFD];
static bool model;
/* what was asked of the system on behalf of the operation under way, by name */
static struct { char what[96]; int thread, err; long ret; } sys_[40];
static int nsys;
static unsigned ticks;
static int busy;                       /* tasks that are neither through nor waiting for a thread */
static bool held;                      /* system calls wait until the others of the caller have run */
static const char *const NAME[NFILE] = {"/m/a", "/m/b", "/m/c"};
PLAIN static int named(const char *p) { if (!model || !p || strncmp(p, "/m/", 3)) return -2; for (int i = 0; i < NFILE; i++) if (!strcmp(p, NAME[i])) return i; return -1; }
PLAIN static int slot(int fd) { return model && fd >= FD0 && fd < FD0 + NFD ? fd - FD0 : -1; }
/* enters a system call: who, and the alternatives: natural result, then [fewer], then the errors */
PLAIN static int enter(int fewer, int nerr, const char *fmt, ...) {
	if (nsys == 40) mc_fail("runaway", "forty system calls for one program");
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sys_[nsys].what, sizeof sys_[nsys].what, fmt, ap);
	va_end(ap);
	sys_[nsys].thread = sched_self();
	sys_[nsys].err = 0;
	if (held && sched_self()) for (unsigned t = ticks, n = 0; ticks < t + 2; n++) { if (n > 3000) mc_fail("starved", "no other task of the caller ran during %s", sys_[nsys].what); sched_yield_point(); }
	nsys++;
	int c = mc_choose(1 + fewer + nerr, sys_[nsys - 1].what);
	mc_step(1);
	return c;
}
static const int ERR[] = {EIO, EACCES};
PLAIN static long gives(long v) { sys_[nsys - 1].ret = v; if (mc_verbose) mc_note("  thread %d: %s = %ld\n", sched_self(), sys_[nsys - 1].what, v); return v; }
PLAIN static long fails(int e) { sys_[nsys - 1].ret = -1; sys_[nsys - 1].err = e; if (mc_verbose) mc_note("  thread %d: %s fails: %s\n", sched_self(), sys_[nsys - 1].what, strerror(e)); errno = e; return -1; }
#define FAULT(fewer) if (c > (fewer)) return fails(ERR[c - (fewer) - 1])
PLAIN static int new_fd(int f, int pos) { for (int i = 0; i < NFD; i++) if (!fd_[i].open) { fd_[i].open = true; fd_[i].f = f; fd_[i].pos = pos; return FD0 + i; } mc_fail("mc-harness", "descriptors"); return -1; }
int __real_open(const char *, int, ...);
PLAIN static int m_open(const char *p, int fl, int mode) {
	int f = named(p), c = enter(0, 2, "open(%s, %x, %o)", p, fl, fl & O_CREAT ? mode : 0);
	FAULT(0);
	if (f < 0 || (!file[f].there && !(fl & O_CREAT))) return fails(ENOENT);
	if (file[f].there && fl & O_CREAT && fl & O_EXCL) return fails(EEXIST);
	if (file[f].dir && (fl & O_ACCMODE)) return fails(EISDIR);
	if (!file[f].there) { file[f].there = true; file[f].n = 0; file[f].dir = false; }
	if (fl & O_TRUNC) file[f].n = 0;
	return gives(new_fd(f, fl & O_APPEND ? file[f].n : 0));
}
int __wrap_open(const char *p, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int m = va_arg(ap, int);
	va_end(ap);
	return named(p) == -2 ? __real_open(p, fl, m) : m_open(p, fl, m);
}
int __real_creat(const char *, mode_t);
int __wrap_creat(const char *p, mode_t m) { return named(p) == -2 ? __real_creat(p, m) : m_open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int __real_close(int);
int __wrap_close(int fd) {
	int s = slot(fd);
	if (s < 0) return __real_close(fd);
	int c = enter(0, 1, "close(%d)", fd);
	if (!fd_[s].open) return fails(EBADF);
	fd_[s].open = false;
	FAULT(0);
	return gives(0);
}
ssize_t __real_read(int, void *, size_t);
PLAIN ssize_t __wrap_read(int fd, void *b, size_t n) {
	int s = slot(fd);
	if (s < 0) return __real_read(fd, b, n);
	if (!fd_[s].open) { enter(0, 0, "read(%d, %p, %zu)", fd, b, n); return fails(EBADF); }
	int left = file[fd_[s].f].n - fd_[s].pos, k = left < (int)n ? left : (int)n, few = k > 1 ? 1 : 0;
	if (k < 0) k = 0;
	int c = enter(few, 2, "read(%d, %p, %zu)", fd, b, n);
	FAULT(few);
	if (c) k /= 2;
	for (int i = 0; i < k; i++) ((char *)b)[i] = file[fd_[s].f].b[fd_[s].pos++];
	return gives(k);
}
ssize_t __real_write(int, const void *, size_t);
PLAIN static long put(int s, const char *b, int n) {
	if (file[fd_[s].f].n < fd_[s].pos + n) file[fd_[s].f].n = fd_[s].pos + n;
	if (file[fd_[s].f].n > CAP) mc_fail("invented", "a file grew beyond what was written");
	for (int i = 0; i < n; i++) file[fd_[s].f].b[fd_[s].pos++] = b[i];
	return n;
}
PLAIN ssize_t __wrap_write(int fd, const void *b, size_t n) {
	int s = slot(fd), few = n > 1;
	if (s < 0) return __real_write(fd, b, n);
	if (!fd_[s].open) { enter(0, 0, "write(%d, %p, %zu)", fd, b, n); return fails(EBADF); }
	int c = enter(few, 2, "write(%d, %p, %zu)", fd, b, n);
	FAULT(few);
	return gives(put(s, b, c ? n / 2 : n));
}
PLAIN ssize_t __wrap_sendfile(int out, int in_, off_t *off, size_t n) {
	int s = slot(in_), d = slot(out), pos, k, few, c;
	if (s < 0 || d < 0 || !fd_[s].open || !fd_[d].open) { enter(0, 0, "sendfile(%d, %d, %ld, %zu)", out, in_, off ? (long)*off : -1, n); return fails(EBADF); }
	pos = off ? (int)*off : fd_[s].pos;
	k = file[fd_[s].f].n - pos;
	if (k < 0) k = 0;
	if (k > 0 && (size_t)k > n) k = n;
	few = k > 1;
	c = enter(few, 2, "sendfile(%d, %d, %ld, %zu)", out, in_, off ? (long)*off : -1, n);
	FAULT(few);
	if (c) k = (k + 2) * 2 / 3 < k ? (k + 2) * 2 / 3 : k - 1;
	put(d, file[fd_[s].f].b + pos, k);
	if (off) *off += k; else fd_[s].pos += k;
	return gives(k);
}
PLAIN static int m_stat(const char *what, int f, struct stat *st, int c) {
	(void)what;
	FAULT(0);
	if (f < 0 || !file[f].there) return fails(ENOENT);
	memset(st, 0, sizeof *st);
	st->st_mode = file[f].dir ? S_IFDIR | 0700 : S_IFREG | 0600;
	st->st_size = file[f].n;
	st->st_ino = 1000 + f;
	return gives(0);
}
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *st) { return named(p) == -2 ? __real_stat(p, st) : m_stat(p, named(p), st, enter(0, 2, "stat(%s, %p)", p, (void *)st)); }
int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat *st) {
	int s = slot(fd);
	if (s < 0) return __real_fstat(fd, st);
	int c = enter(0, 2, "fstat(%d, %p)", fd, (void *)st);
	if (!fd_[s].open) return fails(EBADF);
	return m_stat("", fd_[s].f, st, c);
}
#define NAMED(name, params, real, fmt, ...) int __real_##name params; int __wrap_##name params { int f = named(p); if (f == -2) return __real_##name real; int c = enter(0, 2, fmt, __VA_ARGS__); FAULT(0); return m_##name(f, __VA_ARGS__); }
PLAIN static int m_access(int f, const char *p, int m) { (void)p; (void)m; return f < 0 || !file[f].there ? fails(ENOENT) : gives(0); }
PLAIN static int m_unlink(int f, const char *p) { (void)p; if (f < 0 || !file[f].there) return fails(ENOENT); if (file[f].dir) return fails(EISDIR); file[f].there = false; return gives(0); }
PLAIN static int m_rmdir(int f, const char *p) { (void)p; if (f < 0 || !file[f].there) return fails(ENOENT); if (!file[f].dir) return fails(ENOTDIR); file[f].there = false; return gives(0); }
PLAIN static int m_mkdir(int f, const char *p, unsigned m) { (void)p; (void)m; if (f < 0) return fails(ENOENT); if (file[f].there) return fails(EEXIST); file[f].there = file[f].dir = true; file[f].n = 0; return gives(0); }
PLAIN static int m_chmod(int f, const char *p, unsigned m) { (void)p; (void)m; return f < 0 || !file[f].there ? fails(ENOENT) : gives(0); }
PLAIN static int m_rename(int f, const char *p, const char *q) { (void)p; int g = named(q); if (f < 0 || g < 0 || !file[f].there) return fails(ENOENT); if (f != g) { file[g] = file[f]; file[f].there = false; } return gives(0); }
NAMED(access, (const char *p, int m), (p, m), "access(%s, %d)", p, m)
NAMED(unlink, (const char *p), (p), "unlink(%s)", p)
NAMED(rmdir, (const char *p), (p), "rmdir(%s)", p)
NAMED(mkdir, (const char *p, mode_t m), (p, m), "mkdir(%s, %o)", p, m)
NAMED(chmod, (const char *p, mode_t m), (p, m), "chmod(%s, %o)", p, m)
NAMED(rename, (const char *p, const char *q), (p, q), "rename(%s, %s)", p, q)
/* streams: one, which is only a name here */
static char stream[512];
PLAIN static int str(FILE *f) { return (char *)f == stream; }
FILE *__real_fopen(const char *, const char *);
/* streams over the modelled files, through the real stdio */
static bool streams;
PLAIN static ssize_t ck_read(void *k, char *b, size_t n) { return __wrap_read((int)(intptr_t)k, b, n); }
PLAIN static ssize_t ck_write(void *k, const char *b, size_t n) { size_t at = 0; while (at < n) { ssize_t r = __wrap_write((int)(intptr_t)k, b + at, n - at); if (r < 0) break; at += r; } return at; }
PLAIN static int ck_close(void *k) { return __wrap_close((int)(intptr_t)k); }
PLAIN static FILE *open_stream(const char *p, const char *m) {
	int fd = m_open(p, *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : *m == 'a' ? O_WRONLY | O_CREAT | O_APPEND : m[1] == '+' ? O_RDWR : O_RDONLY, 0666);
	return fd < 0 ? NULL : fopencookie((void *)(intptr_t)fd, m, (cookie_io_functions_t){ck_read, ck_write, NULL, ck_close});
}
FILE *__wrap_fopen(const char *p, const char *m) { if (named(p) == -2) return __real_fopen(p, m); if (streams) return open_stream(p, m); int c = enter(0, 2, "fopen(%s, %s)", p, m); if (c) { fails(ERR[c - 1]); return NULL; } gives(1); return (FILE *)stream; }
size_t __real_fread(void *, size_t, size_t, FILE *);
PLAIN size_t __wrap_fread(void *b, size_t z, size_t n, FILE *f) { if (!str(f)) return __real_fread(b, z, n, f); int c = enter(1, 0, "fread(%p, %zu, %zu)", b, z, n); n -= c; for (size_t i = 0; i < z * n; i++) ((char *)b)[i] = 'A' + i; return gives(n); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *b, size_t z, size_t n, FILE *f) { if (!str(f)) return __real_fwrite(b, z, n, f); int c = enter(1, 0, "fwrite(%p, %zu, %zu)", b, z, n); return gives(n - c); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { if (!str(f)) return __real_fclose(f); int c = enter(0, 1, "fclose()"); FAULT(0); return gives(0); }
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) { return str(f) ? 0 : __real_fflush(f); }
int __real_fgetc(FILE *);
int __wrap_fgetc(FILE *f) { if (!str(f)) return __real_fgetc(f); int c = enter(1, 1, "fgetc()"); FAULT(1); return gives(c ? 0 : 'q'); }
char *__real_fgets(char *, int, FILE *);
PLAIN char *__wrap_fgets(char *b, int n, FILE *f) { if (!str(f)) return __real_fgets(b, n, f); int c = enter(0, 1, "fgets(%p, %d)", (void *)b, n); if (c) { fails(EIO); return NULL; } memcpy(b, "line\n", 6); gives(1); return b; }

/* ---- one operation and what it has to amount to */
enum { OPEN, CREAT, READ, READ_ALL, WRITE, CLOSE, CLOSE_TWICE, SENDFILE, STAT, FSTAT, ACCESS, EXISTS, SIZE, UNLINK, RMDIR, MKDIR, CHMOD, RENAME, FOPEN, FREAD, FWRITE, FCLOSE, FGETC, FGETS,
	WRITEFILE, WRITE_EMPTY, WRITE_OVER, READFILE, READ_EMPTY, READ_NONE, TOUCH, TOUCH_FULL, COPY, COPY_OVER, COPY_NONE, REUSE, F_WRITE, F_APPEND, F_PRINT, F_NONE, P_READ, P_WRITE, P_NONE, NOP };
static const char *const OPN[] = {"open", "create", "read", "read-all", "write", "close", "close-twice", "sendfile", "stat", "fstat", "access", "exists", "filesize", "unlink", "rmdir", "mkdir", "chmod", "rename", "fopen", "fread", "fwrite", "fclose", "fgetc", "fgets",
	"writefile", "writefile-empty", "writefile-over", "readfile", "readfile-empty", "readfile-none", "touch", "touch-full", "copyfile", "copyfile-over", "copyfile-none", "descriptor-reuse", "async_fwrite", "async_fwrite-append", "async_fprintf", "async_fwrite-none", "promise-read", "promise-write", "promise-none"};
typedef struct { int op[2], n, threads; bool ticker, switches; } cfg;
static cfg *C;
PLAIN static bool same(int f, const char *b, int n) { return file[f].there && file[f].n == n && !memcmp(file[f].b, b, n); }
/* the plain call in the last entry of the log: who made it, what it gave */
PLAIN static void plain(int from, int op, long r, int e, long want_on_fail, const char *fmt, ...) {
	char w[96];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(w, sizeof w, fmt, ap);
	va_end(ap);
	if (C->n > 1) return;
	if (nsys != from + 1) mc_fail("calls", "fs_%s made %d system calls", OPN[op], nsys - from);
	if (strcmp(sys_[from].what, w)) mc_fail("args", "fs_%s made the call %s, not %s", OPN[op], sys_[from].what, w);
	if (!sys_[from].thread) mc_fail("thread", "fs_%s made its call on the caller's thread", OPN[op]);
	long want = sys_[from].err ? want_on_fail : sys_[from].ret;
	if (r != want) mc_fail("result", "fs_%s returned %ld, %s gave %ld", OPN[op], r, w, sys_[from].ret);
	if (sys_[from].err && e != sys_[from].err) mc_fail("errno", "fs_%s left errno %d (%s), %s left %d (%s)", OPN[op], e, strerror(e), w, sys_[from].err, strerror(sys_[from].err));
}
PLAIN static int got_err(int from) { for (int i = from; i < nsys; i++) if (sys_[i].err) return sys_[i].err; return 0; }
PLAIN static void elsewhere(int op, int from) { for (int i = from; i < nsys; i++) if (!sys_[i].thread) mc_fail("thread", "%s made its call %s on the caller's thread", OPN[op], sys_[i].what); }
PLAIN static int given(int f, int pos) { return new_fd(f, pos); }
PLAIN static bool leaked(void) { for (int i = 0; i < NFD; i++) if (fd_[i].open) return true; return false; }
PLAIN static void fill(int f, const char *b) { file[f].there = true; file[f].dir = false; file[f].n = strlen(b); memcpy(file[f].b, b, strlen(b)); }
PLAIN static void mkd(int f) { file[f].there = file[f].dir = true; }
PLAIN static void whole(int op, long r, bool good, bool ok, int from) {
	if (ok && !good) mc_fail("partial", "fs_%s reports success (%ld) though the file is not what it was to be", OPN[op], r);
	if (!ok && C->n == 1 && !got_err(from) && good) mc_fail("refused", "fs_%s reports failure (%ld) though nothing failed", OPN[op], r);
	if (C->n == 1 && leaked()) mc_fail("leak", "fs_%s left a descriptor open", OPN[op]);
}
static void run(int op, int a, int b) {
	char buf[16] = "0123456789abcde";
	struct stat st = {0};
	int from = nsys, e;
	long r;
	errno = 0;
#define DO(expr) r = (long)(expr); e = errno
	switch (op) {
	case OPEN: DO(fs_open(NAME[a], O_RDWR, 0)); plain(from, op, r, e, -1, "open(%s, %x, 0)", NAME[a], O_RDWR); break;
	case CREAT: DO(fs_open(NAME[a], O_WRONLY | O_CREAT | O_EXCL, 0640)); plain(from, op, r, e, -1, "open(%s, %x, 640)", NAME[a], O_WRONLY | O_CREAT | O_EXCL); break;
	case READ: { fill(a, "hello world"); int fd = given(a, 3); DO(fs_read(fd, buf, 5)); plain(from, op, r, e, -1, "read(%d, %p, 5)", fd, (void *)buf); if (r > 0 && (memcmp(buf, "lo world" , r) || memcmp(buf + r, "0123456789abcde" + r, 16 - r))) mc_fail("bytes", "fs_read left the wrong bytes"); break; }
	case READ_ALL: { fill(a, "hey"); int fd = given(a, 0); DO(fs_read(fd, buf, 15)); plain(from, op, r, e, -1, "read(%d, %p, 15)", fd, (void *)buf); if (r > 0 && memcmp(buf, "hey", r)) mc_fail("bytes", "fs_read left the wrong bytes"); break; }
	case WRITE: { fill(a, ""); int fd = given(a, 0); DO(fs_write(fd, buf, 4)); plain(from, op, r, e, -1, "write(%d, %p, 4)", fd, (void *)buf); break; }
	case CLOSE: { fill(a, ""); int fd = given(a, 0); DO(fs_close(fd)); plain(from, op, r, e, -1, "close(%d)", fd); break; }
	case CLOSE_TWICE: { fill(a, ""); int fd = given(a, 0); fs_close(fd); errno = 0; from = nsys; DO(fs_close(fd)); if (r != -1) mc_fail("result", "the second fs_close returned %ld", r); if (e != (nsys > from ? sys_[from].err : EBADF)) mc_fail("errno", "the second fs_close left errno %d", e); break; }
	case REUSE: {
		fill(a, "x");
		for (int i = 0; i < 3; i++) {
			int fd = given(a, 0);
			from = nsys;
			DO(fs_close(fd));
			plain(from, CLOSE, r, e, -1, "close(%d)", fd);
		}
		break; }
	case SENDFILE: { fill(a, "hello world"); fill(b, ""); int i = given(a, 0), o = given(b, 0); off_t off = 2; DO(fs_sendfile(o, i, &off, 6)); plain(from, op, r, e, -1, "sendfile(%d, %d, 2, 6)", o, i); if (C->n == 1 && off != 2 + (r > 0 ? r : 0)) mc_fail("offset", "fs_sendfile left offset %ld", (long)off); break; }
	case STAT: fill(a, "size"); DO(fs_stat(NAME[a], &st)); plain(from, op, r, e, -1, "stat(%s, %p)", NAME[a], (void *)&st); if (!r && (st.st_size != 4 || st.st_ino != 1000u + a)) mc_fail("bytes", "fs_stat left something else"); break;
	case FSTAT: { fill(a, "size5"); int fd = given(a, 0); DO(fs_fstat(fd, &st)); plain(from, op, r, e, -1, "fstat(%d, %p)", fd, (void *)&st); if (!r && st.st_size != 5) mc_fail("bytes", "fs_fstat left something else"); break; }
	case ACCESS: DO(fs_access(NAME[a], R_OK | W_OK)); plain(from, op, r, e, -1, "access(%s, %d)", NAME[a], R_OK | W_OK); break;
	case EXISTS: fill(a, ""); DO(fs_exists(NAME[a])); if (C->n == 1 && r != !got_err(from)) mc_fail("result", "fs_exists gave %ld", r); break;
	case SIZE: fill(a, "seven.."); DO(fs_filesize(NAME[a])); if (C->n == 1 && r != (got_err(from) ? 0 : 7)) mc_fail("result", "fs_filesize gave %ld", r); break;
	case UNLINK: fill(a, ""); DO(fs_unlink(NAME[a])); plain(from, op, r, e, -1, "unlink(%s)", NAME[a]); break;
	case RMDIR: mkd(a); DO(fs_rmdir(NAME[a])); plain(from, op, r, e, -1, "rmdir(%s)", NAME[a]); break;
	case MKDIR: DO(fs_mkdir(NAME[a], 0751)); plain(from, op, r, e, -1, "mkdir(%s, 751)", NAME[a]); break;
	case CHMOD: fill(a, ""); DO(fs_chmod(NAME[a], 0617)); plain(from, op, r, e, -1, "chmod(%s, 617)", NAME[a]); break;
	case RENAME: fill(a, ""); DO(fs_rename(NAME[a], NAME[b])); plain(from, op, r, e, -1, "rename(%s, %s)", NAME[a], NAME[b]); break;
	case FOPEN: { FILE *f; DO(f = fs_fopen(NAME[a], "r+")); plain(from, op, f == (FILE *)stream, e, 0, "fopen(%s, r+)", NAME[a]); break; }
	case FREAD: DO(fs_fread(buf, 2, 5, (FILE *)stream)); plain(from, op, r, e, -1, "fread(%p, 2, 5)", (void *)buf); break;
	case FWRITE: DO(fs_fwrite(buf, 3, 4, (FILE *)stream)); plain(from, op, r, e, -1, "fwrite(%p, 3, 4)", (void *)buf); break;
	case FCLOSE: DO(fs_fclose((FILE *)stream)); plain(from, op, r, e, -1, "fclose()"); break;
	case FGETC: DO(fs_fgetc((FILE *)stream)); plain(from, op, r, e, -1, "fgetc()"); break;
	case FGETS: { char *p; DO(p = fs_fgets(buf, 9, (FILE *)stream)); plain(from, op, p == buf, e, 0, "fgets(%p, 9)", (void *)buf); if (p && strcmp(buf, "line\n")) mc_fail("bytes", "fs_fgets left something else"); break; }
	case WRITEFILE: DO(fs_writefile(NAME[a], "contents")); whole(op, r, same(a, "contents", 8), r == 8, from); if (C->n == 1 && r >= 0 && r != 8) mc_fail("partial", "fs_writefile returned %ld", r); if (r < 0 && C->n == 1 && e != got_err(from)) mc_fail("errno", "fs_writefile left errno %d, not %d", e, got_err(from)); break;
	case WRITE_EMPTY: DO(fs_writefile(NAME[a], "")); whole(op, r, same(a, "", 0) && !got_err(from), r == 0, from); break;
	case WRITE_OVER: fill(a, "a longer text"); DO(fs_writefile(NAME[a], "contents")); whole(op, r, same(a, "contents", 8), r == 8, from); break;
	case READFILE: { fill(a, "0123456789"); char *t; DO(t = fs_readfile(NAME[a])); whole(op, r, t && !strcmp(t, "0123456789"), t != NULL, from); break; }
	case READ_EMPTY: { fill(a, ""); char *t; DO(t = fs_readfile(NAME[a])); whole(op, r, true, t == NULL || !*t, from); if (t && *t) mc_fail("invented", "fs_readfile of an empty file gave text"); break; }
	case READ_NONE: { char *t; DO(t = fs_readfile(NAME[a])); if (t) mc_fail("invented", "fs_readfile of no file gave text"); whole(op, r, false, false, from); break; }
	case TOUCH: DO(fs_touch(NAME[a])); whole(op, r, same(a, "", 0) && !got_err(from), r == 1, from); break;
	case TOUCH_FULL: fill(a, "kept"); DO(fs_touch(NAME[a])); whole(op, r, same(a, "kept", 4) && !got_err(from), r == 1, from); if (!same(a, "kept", 4)) mc_fail("lost", "fs_touch changed the contents"); break;
	case COPY: fill(a, "0123456789abcdef"); DO(fs_copyfile(NAME[a], NAME[b])); whole(op, r, same(b, "0123456789abcdef", 16), r == 0, from); if (r < 0 && C->n == 1 && e != got_err(from)) mc_fail("errno", "fs_copyfile left errno %d, not %d", e, got_err(from)); break;
	case COPY_OVER: fill(a, "0123456789"); fill(b, "something longer"); DO(fs_copyfile(NAME[a], NAME[b])); whole(op, r, same(b, "0123456789", 10), r == 0, from); break;
	case COPY_NONE: DO(fs_copyfile(NAME[a], NAME[b])); if (!r) mc_fail("invented", "fs_copyfile of no file succeeded"); whole(op, r, false, false, from); break;
	case F_WRITE: streams = true; DO(async_fwrite(NAME[a], "w", buf, 3, 4)); whole(op, r, same(a, buf, 12), r == 4, from); if (r && r != 4) mc_fail("partial", "async_fwrite returned %ld", r); elsewhere(op, from); break;
	case F_APPEND: streams = true; fill(a, "old "); DO(async_fwrite(NAME[a], "a", buf, 1, 5)); whole(op, r, same(a, "old 01234", 9), r == 5, from); if (r && r != 5) mc_fail("partial", "async_fwrite returned %ld", r); elsewhere(op, from); break;
	case F_PRINT: streams = true; DO(async_fprintf(NAME[a], "w", "printed %d\n")); whole(op, r, same(a, "printed %d\n", 11), r == 11, from); if (r && r != 11) mc_fail("partial", "async_fprintf returned %ld", r); elsewhere(op, from); break;
	case F_NONE: streams = true; DO(async_fwrite(NAME[a], "r+", buf, 1, 5)); whole(op, r, false, r != 0, from == nsys ? from : from); elsewhere(op, from); break;
	case P_READ: case P_NONE: {
		streams = true;
		if (op == P_READ) fill(a, "line one\nxyz");
		promise *p = promise_fopen(NAME[a], "r");
		FILE *f = (FILE *)promise_wait(p).object;
		e = errno;
		if (!f && e != got_err(from) && C->n == 1) mc_fail("errno", "promise_fopen left errno %d, not %d", e, got_err(from));
		if (f) {
			char *t = promise_fgets(p, buf, 16, f);
			bool clean = !got_err(from);
			if (C->n == 1 && (clean ? t != buf : t != NULL)) mc_fail("result", "promise_fgets gives %s (%d)", !t ? "nothing" : t == buf ? "text" : (void *)t == (void *)f ? "the stream" : "something else", !clean);
			if (t && strcmp(buf, "line one\n")) mc_fail("bytes", "promise_fgets gives %s", buf);
			int ch = promise_fgetc(p, f);
			if (C->n == 1 && clean && !got_err(from) && ch != 'x') mc_fail("bytes", "promise_fgetc gives %d", ch);
		}
		int now = nsys;
		DO(promise_fclose(p, f));
		if (!f ? r != -1 : C->n == 1 && r != (got_err(now) ? -1 : 0)) mc_fail("result", "promise_fclose gives %ld", r);
		if (C->n == 1 && leaked()) mc_fail("leak", "a descriptor stays open");
		elsewhere(op, from);
		break; }
	case P_WRITE: {
		streams = true;
		promise *p = promise_fopen(NAME[a], "w");
		FILE *f = (FILE *)promise_wait(p).object;
		long w = 0, x = 0;
		if (f) { w = promise_fwrite(p, buf, 1, 6, f); x = promise_fprintf(p, f, "+%s"); }
		DO(promise_fclose(p, f));
		whole(op, r, same(a, "012345+%s", 9), f && r == 0 && w == 6 && x == 3 && !got_err(from), from);
		elsewhere(op, from);
		break; }
	}
}
static int done_n;
static void *worker(param_t a) { int k = a[0].integer; run(C->op[k], k, 2); done_n++; return 0; }
static void *ticker(param_t a) { (void)a; while (done_n < C->n) { ticks++; errno = 71; yield(); } return 0; }
static void *main_task(param_t args) {
	(void)args;
	uint32_t t[2], k = 0;
	if (C->ticker) { held = true; async_task((param_func_t)ticker, 0); }
	if (C->n == 1) run(C->op[0], 0, 2), done_n++;
	else {
		for (int i = 0; i < C->n; i++) t[k++] = async_task((param_func_t)worker, 1, i);
		for (unsigned i = 0; i < k; i++) await_for(t[i]);
		if (done_n != C->n) mc_fail("lost", "%d of %d tasks done", done_n, C->n);
	}
	mc_obs("%s", C->n > 1 ? "two" : OPN[C->op[0]]);
	for (int i = 0; i < nsys; i++) mc_obs(" %ld/%d", sys_[i].ret > 1000 ? 1 : sys_[i].ret, sys_[i].err);
	mc_done();
	return 0;
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = C->threads + 1;
	sched_stall = 24;
	if (events_init(64)) mc_fail("init", "events_init failed");
	events_t *loop = events_init_pool(C->threads);
	ex_signal_default();
	model = true;
	async_task((param_func_t)main_task, 0);
	if (C->switches) sched_on();
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I03");
	static cfg c[2 * NOP + 40];
	int n = 0;
	char name[60];
	for (int m = 0; m < 2; m++) for (int op = 0; op < NOP; op++) {
		c[n] = (cfg){{op}, 1, 1, true, m};
		sched_plain = !m;
		/* every combination of answers up to three deviations; then one answer or one switch anywhere */
		mc_opt o = {.bound = m ? 1 + MC_THOROUGH : 3 + MC_THOROUGH, .timeout_s = 20};
		snprintf(name, sizeof name, "%s-%s", m ? "switched" : "answers", OPN[op]);
		sched_explore(name, scn, &c[n++], o);
	}
	static const int T[][2] = {{WRITEFILE, READFILE}, {OPEN, CLOSE}, {STAT, UNLINK}, {COPY, WRITE_OVER}, {FGETC, FGETS}, {CREAT, READ}};
	for (unsigned i = 0; i < sizeof T / sizeof *T; i++) for (int th = 1; th <= 2; th++) {
		sched_plain = false;
		c[n] = (cfg){{T[i][0], T[i][1]}, 2, th, false, true};
		mc_opt o = {.bound = MC_THOROUGH ? 2 : 1, .timeout_s = 20};
		snprintf(name, sizeof name, "two-%s-%s-threads-%d", OPN[T[i][0]], OPN[T[i][1]], th);
		sched_explore(name, scn, &c[n++], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
