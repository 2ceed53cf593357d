#define _GNU_SOURCE
#include <sched.h>
#include <sys/syscall.h>
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXCH 20000
#define OBSMAX 6000
#define NOTEMAX 60000
#define KNOWN_MAX 32
#define NSAMPLE 6
#define SETBITS 22

bool mc_thorough, mc_verbose;

typedef struct {
	volatile int status;               /* 0 running 1 ok 2 fail 3 skip */
	volatile int nch;                  /* choice points taken */
	volatile uint64_t steps;
	volatile uint64_t idx;
	volatile int in_case;
	int diverged;
	char key[64];
	char msg[3000];
	int nobs, nnote;
	char obs[OBSMAX];
	char note[NOTEMAX];
	struct { unsigned short n, c; unsigned char cost[8]; char nbig; } ch[MAXCH];
} slot_t;

typedef struct {
	volatile uint64_t execs, steps, skips, cpoints;
	volatile uint64_t nstates, nout;
	volatile uint64_t next;
	volatile int stop, capped, maxdepth;
	volatile int known_cnt[KNOWN_MAX];
	volatile int nsamples;
	char samples[NSAMPLE][1500];
	volatile int vlock, have_v;
	char vkey[64], vmsg[3000];
	uint64_t vfrom, vidx;
	int vn;
	unsigned short vch[MAXCH];
	volatile int confirming;
	volatile int nonrepro;
	char nonrepro_msg[500];
} shared_t;

void (*mc_extra_save)(FILE *), (*mc_extra_load)(FILE *);
static shared_t *sh;
static uint64_t *stateset, *outset;
static slot_t *cur;                    /* slot of this process */
static int prefix_n;
static unsigned short *prefix;
static int bound_now, cost_used;
static bool style2, replaying;
static jmp_buf enum_jmp;
static pid_t case_pid;
static int known_n;
static char known_key[KNOWN_MAX][64];
static const char *prop = "?", *replay_file, *only, *outdir = ".";
static char want_replay_scn[128];
static int workers = 8;
bool mc_pin;                        /* one processor per execution: its threads take turns anyway */
static int my_worker;
int mc_shard, mc_shards = 1;        /* this process explores every mc_shards-th program */
static void pin(void) {
	cpu_set_t c;
	if (!mc_pin || syscall(SYS_sched_getaffinity, 0, sizeof c, &c) < 0) return;
	int n = CPU_COUNT(&c), k = n ? (my_worker + mc_shard) % n : 0;
	for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &c) && k-- == 0) { CPU_ZERO(&c); CPU_SET(i, &c); syscall(SYS_sched_setaffinity, 0, sizeof c, &c); return; }
}
static char *result;
static size_t result_len;
static FILE *resf;
static int violations;
static double t_start, budget_s = 780;
static int nscn;

static double now_s(void) {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
	const unsigned char *s = p;
	h ^= 0xcbf29ce484222325ULL;
	while (n--) { h ^= *s++; h *= 0x100000001b3ULL; }
	h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
	return h;
}

static bool set_add(uint64_t *set, uint64_t h) {
	uint64_t mask = (1u << SETBITS) - 1, i = h & mask;
	int n = 0;
	if (!h) h = 1;
	for (;; i = (i + 1) & mask) {
		uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
		if (v == h) return false;
		if (v == 0) {
			if (__atomic_compare_exchange_n(&set[i], &v, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
			if (v == h) return false;
		}
		if (++n > 4096) return false;   /* table (nearly) full: counts become lower bounds */
	}
}

void mc_state(uint64_t h) {
	if (!h) h = 1;
	if (set_add(stateset, h)) __atomic_fetch_add(&sh->nstates, 1, __ATOMIC_RELAXED);
}
void mc_step(unsigned n) { cur->steps += n; }

void mc_obs(const char *fmt, ...) {
	va_list ap;
	if (cur->nobs > OBSMAX - 200) return;
	va_start(ap, fmt);
	int r = vsnprintf(cur->obs + cur->nobs, OBSMAX - cur->nobs, fmt, ap);
	va_end(ap);
	if (r > 0) { cur->nobs += r; if (cur->nobs >= OBSMAX) cur->nobs = OBSMAX - 1; }
}
void mc_note(const char *fmt, ...) {
	va_list ap;
	if (!mc_verbose || cur->nnote > NOTEMAX - 300) return;
	va_start(ap, fmt);
	int r = vsnprintf(cur->note + cur->nnote, NOTEMAX - cur->nnote, fmt, ap);
	va_end(ap);
	if (r > 0) { cur->nnote += r; if (cur->nnote >= NOTEMAX) cur->nnote = NOTEMAX - 1; }
}

static int known_index(const char *key) {
	for (int i = 0; i < known_n; i++)
		if (!strcmp(known_key[i], key)) return i;
	return -1;
}

void mc_done(void) { cur->status = 1; syscall(SYS_exit_group, 0); __builtin_unreachable(); }
void mc_skip(void) {
	if (style2) longjmp(enum_jmp, 2);
	cur->status = 3; syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void mc_fail(const char *key, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(cur->msg, sizeof cur->msg, fmt, ap);
	va_end(ap);
	snprintf(cur->key, sizeof cur->key, "%s", key);
	if (style2 && !replaying && !sh->confirming && known_index(key) >= 0 && getpid() == case_pid) {
		__atomic_fetch_add(&sh->known_cnt[known_index(key)], 1, __ATOMIC_RELAXED);
		longjmp(enum_jmp, 1);
	}
	cur->status = 2;
	syscall(SYS_exit_group, 7);
	__builtin_unreachable();
}

int mc_cost_left(void) { return bound_now - cost_used; }

static int choose(int n, const unsigned char *cost, int flat, const char *what) {
	int i = cur->nch, c = 0;
	if (n <= 1) return 0;
	if (i >= MAXCH) { mc_fail("mc-horizon", "more than %d choice points in one execution", MAXCH); }
	if (i < prefix_n) {
		c = prefix[i];
		if (c >= n) { cur->diverged = 1; mc_fail("mc-divergence", "replayed choice %d: %d of %d (%s)", i, c, n, what); }
	}
	cur->ch[i].n = n;
	cur->ch[i].c = c;
	cur->ch[i].nbig = cost == NULL || n > 8;
	if (cur->ch[i].nbig) cur->ch[i].cost[0] = flat;
	else memcpy(cur->ch[i].cost, cost, n);
	if (c) cost_used += cur->ch[i].nbig ? flat : cost[c];
	cur->nch = i + 1;
	if (mc_verbose) mc_note("  choice %d: %s = %d of %d\n", i, what, c, n);
	return c;
}
int mc_choose(int n, const char *what) { return choose(n, NULL, 1, what); }
int mc_choose_cost(int n, int cost, const char *what) { return choose(n, NULL, cost, what); }
int mc_choose_v(int n, const unsigned char *cost, const char *what) { return choose(n, cost, 1, what); }
int mc_pick(int n, const char *what) { return choose(n, NULL, 0, what); }

static void slot_reset(slot_t *s) {
	s->status = 0; s->nch = 0; s->steps = 0; s->key[0] = 0; s->msg[0] = 0;
	s->nobs = s->nnote = 0; s->obs[0] = 0; s->note[0] = 0; s->diverged = 0; s->in_case = 0;
}

static void quiet_fds(void) {
	int fd = open("/dev/null", O_RDWR);
	if (fd < 0) return;
	dup2(fd, 0);
	if (!getenv("MC_STDIO")) { dup2(fd, 1); dup2(fd, 2); }
	if (fd > 2) close(fd);
}

static pid_t ticking;
static void on_tick(int s) { (void)s; }
static void tick_off(void) {
	struct itimerval it = {{0, 0}, {0, 0}};
	setitimer(ITIMER_REAL, &it, NULL);
	signal(SIGALRM, SIG_DFL);
	ticking = 0;
}
/* one execution with the given prefix; 1 ok 2 fail 3 skip */
static int run_one(slot_t *s, mc_fn fn, void *arg, unsigned short *pre, int n, int bound, int timeout_s) {
	int st;
	slot_reset(s);
	pid_t pid = fork();
	if (pid < 0) { snprintf(s->msg, sizeof s->msg, "fork: %s", strerror(errno)); strcpy(s->key, "mc-fork"); return 2; }
	if (pid == 0) {
		struct rlimit rl = {0, 0};
		signal(SIGALRM, SIG_DFL);
		cur = s; prefix = pre; prefix_n = n; bound_now = bound; cost_used = 0;
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setrlimit(RLIMIT_CORE, &rl);
		setpgid(0, 0);
		quiet_fds();
		pin();
		fn(arg);
		mc_done();
	}
	/* timed wait: a periodic tick interrupts the blocking wait */
	if (ticking != getpid()) {
		struct sigaction sa = {0};
		struct itimerval it = {{0, 500000}, {0, 500000}};
		sa.sa_handler = on_tick;
		sigaction(SIGALRM, &sa, NULL);
		setitimer(ITIMER_REAL, &it, NULL);
		ticking = getpid();
	}
	double t0 = 0;
	for (;;) {
		pid_t r = waitpid(pid, &st, 0);
		if (r == pid) break;
		if (r < 0 && errno != EINTR) { st = 0; break; }
		if (t0 == 0) { t0 = now_s(); continue; }
		if (now_s() - t0 > timeout_s) {
			kill(pid, SIGKILL);
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
			kill(-pid, SIGKILL);
			s->status = 2;
			strcpy(s->key, "hang");
			snprintf(s->msg, sizeof s->msg, "execution did not end within %d s", timeout_s);
			return 2;
		}
	}
	kill(-pid, SIGKILL);   /* anything it left behind */
	if (s->status == 0) {
		s->status = 2;
		if (WIFSIGNALED(st)) {
			snprintf(s->key, sizeof s->key, "crash-%d", WTERMSIG(st));
			snprintf(s->msg, sizeof s->msg, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		} else {
			snprintf(s->key, sizeof s->key, "exit");
			snprintf(s->msg, sizeof s->msg, "process ended by itself with code %d before the scenario was complete", WEXITSTATUS(st));
		}
	}
	return s->status;
}

static int ch_cost(slot_t *s, int i, int c) {
	if (!c) return 0;
	return s->ch[i].nbig ? s->ch[i].cost[0] : s->ch[i].cost[c];
}

static void note_outcome(slot_t *s) {
	uint64_t h = mc_hash(s->obs, s->nobs, 17);
	if (set_add(outset, h ? h : 1)) {
		__atomic_fetch_add(&sh->nout, 1, __ATOMIC_RELAXED);
		int k = __atomic_fetch_add(&sh->nsamples, 1, __ATOMIC_RELAXED);
		if (k < NSAMPLE) snprintf(sh->samples[k], sizeof sh->samples[k], "%s", s->obs);
		else sh->nsamples = NSAMPLE;
	}
}

typedef struct { int n; unsigned short *c; } pre_t;
typedef struct { pre_t *v; size_t n, cap; } stack_t_;
static void push(stack_t_ *st, slot_t *s, int upto, int alt) {
	if (st->n == st->cap) { st->cap = st->cap ? st->cap * 2 : 256; st->v = realloc(st->v, st->cap * sizeof *st->v); }
	pre_t *p = &st->v[st->n++];
	p->n = upto + 1;
	p->c = malloc(sizeof(short) * (upto + 1));
	for (int i = 0; i < upto; i++) p->c[i] = s->ch[i].c;
	p->c[upto] = alt;
}

static void record_violation(slot_t *s, mc_fn fn, void *arg, int bound, int timeout_s) {
	while (__atomic_test_and_set(&sh->vlock, __ATOMIC_ACQUIRE)) sched_yield();
	if (!sh->have_v) {
		/* replay before report: the same schedule has to fail again */
		int n = s->nch, again = 0;
		unsigned short *c = malloc(sizeof(short) * (n + 1));
		for (int i = 0; i < n; i++) c[i] = s->ch[i].c;
		char key[64], msg[3000];
		strcpy(key, s->key); strcpy(msg, s->msg);
		for (int r = 0; r < 2; r++)
			if (run_one(s, fn, arg, c, n, bound, timeout_s * 3) == 2 && strncmp(s->key, "mc-", 3)) again++;
		if (!strncmp(key, "mc-divergence", 13)) again = 0;
		if (again == 2) {
			strcpy(sh->vkey, key); strcpy(sh->vmsg, msg);
			sh->vn = n;
			memcpy(sh->vch, c, sizeof(short) * n);
			sh->have_v = 1;
			sh->stop = 1;
		} else {
			__atomic_fetch_add(&sh->nonrepro, 1, __ATOMIC_RELAXED);
			snprintf(sh->nonrepro_msg, sizeof sh->nonrepro_msg, "%s: %.400s", key, msg);
		}
		free(c);
	}
	__atomic_clear(&sh->vlock, __ATOMIC_RELEASE);
}

static void expand(slot_t *s, int r, stack_t_ *st, int from, mc_fn fn, void *arg, mc_opt *o) {
	if (r == 3) __atomic_fetch_add(&sh->skips, 1, __ATOMIC_RELAXED);
	else __atomic_fetch_add(&sh->execs, 1, __ATOMIC_RELAXED);
	__atomic_fetch_add(&sh->steps, s->steps, __ATOMIC_RELAXED);
	if (s->nch > sh->maxdepth) sh->maxdepth = s->nch;
	if (r == 1) note_outcome(s);
	int cost = 0;
	size_t before = st->n;
	for (int i = 0; i < s->nch; i++) {
		if (i >= from) {
			__atomic_fetch_add(&sh->cpoints, 1, __ATOMIC_RELAXED);
			for (int alt = s->ch[i].n - 1; alt >= 1; alt--)
				if (cost + ch_cost(s, i, alt) <= o->bound) push(st, s, i, alt);
		}
		cost += ch_cost(s, i, s->ch[i].c);
	}
	(void)before;
	if (r == 2) {
		int k = known_index(s->key);
		if (k >= 0) __atomic_fetch_add(&sh->known_cnt[k], 1, __ATOMIC_RELAXED);
		else record_violation(s, fn, arg, o->bound, o->timeout_s);
	}
}

static void json_str(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static slot_t *new_slot(void) {
	slot_t *s = mmap(NULL, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (s == MAP_FAILED) { perror("mmap"); exit(3); }
	return s;
}

static void begin_scn(void) {
	memset(sh, 0, sizeof *sh);
	/* fresh sets per scenario; remapping drops the old pages */
	mmap(stateset, sizeof(uint64_t) << SETBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	mmap(outset, sizeof(uint64_t) << SETBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
}

static void end_scn(const char *name, const char *style, mc_opt *o, double t0, uint64_t space) {
	if (getenv("MC_PROGRESS")) fprintf(stderr, "%s b%d ex %lu skip %lu out %lu depth %d %s %.1fs %s %s %s\n", name, o->bound, sh->execs, sh->skips, sh->nout, sh->maxdepth, sh->capped || sh->stop ? "INCOMPLETE" : "", now_s() - t0, sh->nonrepro_msg, sh->have_v ? sh->vkey : "", sh->have_v ? sh->vmsg : "");
	fprintf(resf, "%s{\"scenario\":", nscn++ ? "," : "");
	json_str(resf, name);
	fprintf(resf, ",\"style\":\"%s\",\"bound\":%d,\"executions\":%lu,\"infeasible\":%lu,\"choice_points\":%lu,\"steps\":%lu,"
		"\"states\":%lu,\"outcomes\":%lu,\"max_depth\":%d,\"space\":%lu,\"complete\":%s,\"wall_s\":%.2f,\"nonreproduced\":%d,\"nonrepro_msg\":",
		style, o->bound, sh->execs, sh->skips, sh->cpoints, sh->steps, sh->nstates, sh->nout, sh->maxdepth,
		space, sh->capped || sh->stop ? "false" : "true", now_s() - t0, sh->nonrepro);
	json_str(resf, sh->nonrepro_msg);
	fprintf(resf, ",\"samples\":[");
	for (int i = 0, k = 0; i < NSAMPLE; i++)
		if (sh->samples[i][0]) { if (k++) fputc(',', resf); json_str(resf, sh->samples[i]); }
	fprintf(resf, "],\"known\":{");
	for (int i = 0, k = 0; i < known_n; i++)
		if (sh->known_cnt[i]) { if (k++) fputc(',', resf); json_str(resf, known_key[i]); fprintf(resf, ":%d", sh->known_cnt[i]); }
	fprintf(resf, "},\"violation\":");
	if (sh->have_v) {
		char path[600];
		snprintf(path, sizeof path, "%s/%s-%s.replay", outdir, prop, name);
		for (char *q = path + strlen(outdir) + 1; *q; q++) if (*q == '/' || *q == ' ') *q = '_';
		FILE *f = fopen(path, "w");
		if (f) {
			fprintf(f, "property %s\nscenario %s\nstyle %s\nbound %d\ntier %s\n", prop, name, style, o->bound, mc_thorough ? "thorough" : "quick");
			if (!strcmp(style, "enum")) fprintf(f, "from %lu\nindex %lu\n", sh->vfrom, sh->vidx);
			else { fprintf(f, "choices %d", sh->vn); for (int i = 0; i < sh->vn; i++) fprintf(f, " %d", sh->vch[i]); fputc('\n', f); }
			fprintf(f, "key %s\nmessage %s\n", sh->vkey, sh->vmsg);
			if (mc_extra_save) mc_extra_save(f);
			fclose(f);
		}
		fprintf(resf, "{\"key\":"); json_str(resf, sh->vkey);
		fprintf(resf, ",\"msg\":"); json_str(resf, sh->vmsg);
		fprintf(resf, ",\"replay\":"); json_str(resf, path);
		fprintf(resf, "}");
		violations++;
	} else fprintf(resf, "null");
	fprintf(resf, "}");
	fflush(resf);
}

bool mc_want(const char *name) {
	if (only && (strncmp(only, name, strlen(only)) || (name[strlen(only)] && name[strlen(only)] != ':'))) return false;
	return true;
}

void mc_stop(void) { sh->capped = 1; sh->stop = 1; }
bool mc_stopped(void) { return sh->stop; }
bool mc_replaying(void) { return replay_file != NULL; }
static int replay_now(const char *name, mc_fn fn, mc_case cfn, void *arg, mc_opt *o) {
	static unsigned short c[MAXCH];
	int n = 0;
	uint64_t idx = 0, from = ~0ul;
	char line[200];
	FILE *f = fopen(replay_file, "r");
	if (!f) { perror(replay_file); exit(3); }
	char word[64];
	while (fscanf(f, "%63s", word) == 1) {
		if (!strcmp(word, "choices")) {
			if (fscanf(f, "%d", &n) != 1) exit(3);
			for (int i = 0; i < n; i++) { int v; if (fscanf(f, "%d", &v) != 1) exit(3); c[i] = v; }
		} else if (!strcmp(word, "from")) { if (fscanf(f, "%lu", &from) != 1) exit(3);
		} else if (!strcmp(word, "index")) { if (fscanf(f, "%lu", &idx) != 1) exit(3); }
		else if (!strcmp(word, "key")) break;
		else if (!fgets(line, sizeof line, f)) break;
	}
	if (mc_extra_load) { rewind(f); mc_extra_load(f); }
	fclose(f);
	mc_verbose = replaying = true;
	slot_t *s = new_slot();
	int r;
	(void)name;
	if (fn) r = run_one(s, fn, arg, c, n, o->bound, 60);
	else {
		slot_reset(s);
		pid_t pid = fork();
		if (pid == 0) {
			cur = s; case_pid = getpid();
			for (volatile uint64_t x = from < idx ? from : idx; x <= idx; x++) { mc_verbose = x == idx; cur->in_case = 1; if (!setjmp(enum_jmp)) cfn(x, arg); }
			cur->status = 1; _exit(0);
		}
		int st; waitpid(pid, &st, 0);
		r = s->status == 1 ? 1 : 2;
		if (!s->status) snprintf(s->msg, sizeof s->msg, "status %x", st);
	}
	printf("replay of %s: %s\n%s\nobserved: %s\n", name, r == 2 ? "FAILS" : "passes", s->note, s->obs);
	if (r == 2) printf("%s: %s\n", s->key, s->msg);
	exit(r == 2 ? 1 : 0);
}

static void defaults(mc_opt *o) {
	if (!o->timeout_s) o->timeout_s = 20;
	double left = budget_s - (now_s() - t_start);
	if (left < 5) left = 5;
	if (o->max_s == 0 || o->max_s > left) o->max_s = left;
}

int mc_explore(const char *name, mc_fn fn, void *arg, mc_opt o) {
	if (!mc_want(name)) return 0;
	defaults(&o);
	if (replay_file) { if (!strcmp(want_replay_scn, name)) replay_now(name, fn, NULL, arg, &o); return 0; }
	style2 = false;
	begin_scn();
	double t0 = now_s();
	stack_t_ fr = {0};
	slot_t *s = new_slot();
	int r = run_one(s, fn, arg, NULL, 0, o.bound, o.timeout_s);
	expand(s, r, &fr, 0, fn, arg, &o);
	/* breadth first until there is enough to share out */
	size_t head = 0;
	while (head < fr.n && fr.n - head < (size_t)workers * 24 && !sh->stop) {
		pre_t p = fr.v[head++];
		r = run_one(s, fn, arg, p.c, p.n, o.bound, o.timeout_s);
		expand(s, r, &fr, p.n, fn, arg, &o);
		free(p.c);
		if (now_s() - t0 > o.max_s || (o.max_exec && sh->execs > o.max_exec)) { if (head < fr.n) sh->capped = 1; sh->stop |= sh->capped; }
	}
	tick_off();
	if (head < fr.n && !sh->stop) {
		sh->next = head;
		pid_t pids[64];
		for (int w = 0; w < workers; w++) {
			pids[w] = fork();
			if (pids[w] == 0) {
				my_worker = w;
				pin();
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				slot_t *ws = new_slot();
				stack_t_ st = {0};
				for (;;) {
					uint64_t k = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
					if (k >= fr.n) break;
					if (sh->stop) break;
					int rr = run_one(ws, fn, arg, fr.v[k].c, fr.v[k].n, o.bound, o.timeout_s);
					expand(ws, rr, &st, fr.v[k].n, fn, arg, &o);
					while (st.n && !sh->stop) {
						pre_t p = st.v[--st.n];
						rr = run_one(ws, fn, arg, p.c, p.n, o.bound, o.timeout_s);
						expand(ws, rr, &st, p.n, fn, arg, &o);
						free(p.c);
						if (now_s() - t0 > o.max_s || (o.max_exec && sh->execs > o.max_exec)) { sh->capped = 1; sh->stop = 1; }
					}
				}
				_exit(0);
			}
		}
		for (int w = 0; w < workers; w++) { int st; while (pids[w] > 0 && waitpid(pids[w], &st, 0) < 0 && errno == EINTR) ; }
	}
	for (; head < fr.n; head++) free(fr.v[head].c);
	free(fr.v);
	munmap(s, sizeof *s);
	if (!sh->nstates) sh->nstates = sh->cpoints + 1;
	end_scn(name, "explore", &o, t0, 0);
	return sh->have_v;
}

int mc_enum(const char *name, uint64_t n, mc_case fn, void *arg, mc_opt o) {
	if (!mc_want(name)) return 0;
	defaults(&o);
	if (replay_file) { if (!strcmp(want_replay_scn, name)) replay_now(name, NULL, fn, arg, &o); return 0; }
	begin_scn();
	style2 = true;
	double t0 = now_s();
	uint64_t chunk = n / (workers * 64);
	if (chunk < 1) chunk = 1;
	if (chunk > 4096) chunk = 4096;
	if (o.recycle) chunk = o.recycle;
	pid_t pids[64];
	slot_t *sl[64];
	uint64_t resume[64], resume_end[64], first[64];
	for (int w = 0; w < workers; w++) { sl[w] = new_slot(); pids[w] = 0; resume[w] = resume_end[w] = 0; }
	int live = 0;
#define SPAWN(w) do { \
	fflush(NULL); \
	pids[w] = fork(); \
	if (pids[w] == 0) { \
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); \
		prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); quiet_fds(); \
		cur = sl[w]; case_pid = getpid(); \
		uint64_t k = resume[w], e = resume_end[w]; bool fresh = true; \
		if (k < e) *(volatile uint64_t *)&cur->ch[4] = k; \
		for (;;) { \
			if (k >= e) { \
				if (o.recycle && !fresh) { cur->status = 3; syscall(SYS_exit_group, 0); } \
				k = __atomic_fetch_add(&sh->next, chunk, __ATOMIC_RELAXED); e = k + chunk; if (e > n) e = n; if (k >= n) break; \
				*(volatile uint64_t *)&cur->ch[4] = k; } \
			fresh = false; \
			if (sh->stop) break; \
			for (; k < e; k++) { \
				cur->idx = k; *(volatile uint64_t *)&cur->ch[0] = e; \
				cur->in_case = 1; cur->nobs = 0; cur->obs[0] = 0; cur->steps = 0; \
				alarm(o.timeout_s); \
				int j = setjmp(enum_jmp); \
				if (j == 0) fn(k, arg); \
				cur->in_case = 0; \
				if (j == 2) __atomic_fetch_add(&sh->skips, 1, __ATOMIC_RELAXED); \
				else { __atomic_fetch_add(&sh->execs, 1, __ATOMIC_RELAXED); \
					__atomic_fetch_add(&sh->steps, cur->steps, __ATOMIC_RELAXED); \
					if (cur->nobs) note_outcome(cur); } \
			} \
			if (now_s() - t0 > o.max_s) { sh->capped = 1; sh->stop = 1; } \
		} \
		cur->status = 1; syscall(SYS_exit_group, 0); \
	} \
	live++; \
} while (0)
	for (int w = 0; w < workers; w++) { slot_reset(sl[w]); SPAWN(w); }
	while (live > 0) {
		int st;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) { if (errno == EINTR) continue; break; }
		int w;
		for (w = 0; w < workers && pids[w] != p; w++) ;
		if (w == workers) continue;
		live--;
		kill(-p, SIGKILL);
		if (sl[w]->status == 1) continue;
		if (sl[w]->status == 3) {   /* a fresh process for the next share */
			resume[w] = resume_end[w] = 0;
			if (!sh->stop) { slot_reset(sl[w]); SPAWN(w); }
			continue;
		}
		/* failed or crashed in case idx */
		uint64_t idx = sl[w]->idx, e = *(volatile uint64_t *)&sl[w]->ch[0], blk = *(volatile uint64_t *)&sl[w]->ch[4];
		char key[64], msg[3000];
		if (sl[w]->status == 2) { strcpy(key, sl[w]->key); strcpy(msg, sl[w]->msg); }
		else {
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { strcpy(key, "hang"); snprintf(msg, sizeof msg, "case did not end within %d s", o.timeout_s); }
			else if (WIFSIGNALED(st)) { snprintf(key, sizeof key, "crash-%d", WTERMSIG(st)); snprintf(msg, sizeof msg, "killed by signal %d", WTERMSIG(st)); }
			else { snprintf(key, sizeof key, "abort"); snprintf(msg, sizeof msg, "process ended with code %d inside the case (memory checker report or exit)", WEXITSTATUS(st)); }
		}
		int k = known_index(key);
		if (k >= 0) __atomic_fetch_add(&sh->known_cnt[k], 1, __ATOMIC_RELAXED);
		else if (!sh->have_v) {
			int again = 0;
			uint64_t from = idx;
			for (int r = 0; r < 2; r++) {
				slot_t *cs = sl[w];
				slot_reset(cs);
				sh->confirming = 1;
				pid_t q = fork();
				if (q == 0) {
					quiet_fds(); setpgid(0, 0); cur = cs; case_pid = getpid(); alarm(o.timeout_s * 3);
					cur->in_case = 1;
					for (volatile uint64_t x = from; x <= idx; x++) {
						cur->idx = x; cur->nobs = 0; cur->obs[0] = 0;
						mc_verbose = x == idx;
						if (!setjmp(enum_jmp)) fn(x, arg);
					}
					cur->status = 1; syscall(SYS_exit_group, 0);
				}
				int st2; waitpid(q, &st2, 0);
				if (cs->status != 1) again++;
				if (cs->status == 2) { strcpy(key, cs->key); strcpy(msg, cs->msg); }
				if (r == 1 && again == 2 && cs->nnote && strlen(msg) < sizeof msg - 600)
					snprintf(msg + strlen(msg), 600, " [case: %.500s]", cs->note);
				if (r == 1 && again < 2 && o.recycle && from == idx && blk < idx) { from = blk; again = 0; r = -1; }
			}
			sh->confirming = 0;
			if (again == 2 && known_index(key) < 0) {
				strcpy(sh->vkey, key); strcpy(sh->vmsg, msg); sh->vidx = idx; sh->vfrom = from; sh->have_v = 1; sh->stop = 1;
			} else { sh->nonrepro++; snprintf(sh->nonrepro_msg, sizeof sh->nonrepro_msg, "%s at %lu: %.400s", key, idx, msg); }
		}
		resume[w] = idx + 1; resume_end[w] = e;
		if (!sh->stop) { slot_reset(sl[w]); SPAWN(w); }
	}
	for (int w = 0; w < workers; w++) munmap(sl[w], sizeof(slot_t));
	if (!sh->nstates) sh->nstates = sh->execs;
	if (!sh->steps) sh->steps = sh->execs;
	end_scn(name, "enum", &o, t0, n);
	return sh->have_v;
}

void mc_init(int argc, char **argv, const char *property) {
	prop = property;
	t_start = now_s();
	const char *w = getenv("MC_WORKERS");
	if (w) workers = atoi(w);
	if (workers < 1) workers = 1;
	if (workers > 32) workers = 32;
	if (getenv("MC_BUDGET")) budget_s = atof(getenv("MC_BUDGET"));
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--thorough")) mc_thorough = true;
		else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay_file = argv[++i];
		else if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[++i];
		else if (!strcmp(argv[i], "--property") && i + 1 < argc) prop = argv[++i];
		else if (!strcmp(argv[i], "--shard") && i + 1 < argc) sscanf(argv[++i], "%d/%d", &mc_shard, &mc_shards);
		else if (!strcmp(argv[i], "--out") && i + 1 < argc) outdir = argv[++i];
		else if (!strcmp(argv[i], "--known") && i + 1 < argc) {
			char *p = strdup(argv[++i]), *t;
			while ((t = strsep(&p, ",")) && known_n < KNOWN_MAX) if (*t) snprintf(known_key[known_n++], 64, "%s", t);
		}
	}
	if (replay_file) {
		char line[300];
		FILE *f = fopen(replay_file, "r");
		if (!f) { perror(replay_file); exit(3); }
		while (fgets(line, sizeof line, f)) {
			if (!strncmp(line, "scenario ", 9)) { line[strcspn(line, "\n")] = 0; snprintf(want_replay_scn, sizeof want_replay_scn, "%s", line + 9); }
			if (!strncmp(line, "tier thorough", 13)) mc_thorough = true;
		}
		fclose(f);
	}
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	stateset = mmap(NULL, sizeof(uint64_t) << SETBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	outset = mmap(NULL, sizeof(uint64_t) << SETBITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || stateset == MAP_FAILED || outset == MAP_FAILED) { perror("mmap"); exit(3); }
	resf = open_memstream(&result, &result_len);
	signal(SIGPIPE, SIG_IGN);
	setvbuf(stdout, NULL, _IOLBF, 0);
}

int mc_finish(void) {
	fclose(resf);
	printf("MCRESULT {\"scenarios\":[%s]}\n", result);
	fflush(stdout);
	return violations ? 1 : 0;
}
