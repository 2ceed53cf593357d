/* I07: name lookups that are handed to pool threads, of several tasks at a time, with a modelled resolver that
 * answers or fails and whose classic calls keep their answer in one place; with threads switched by us. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#undef accept
#undef listen
#include <errno.h>
#include <netdb.h>
#include <arpa/inet.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { HOST, HOST_TWICE, ADDR, NAMEINFO, PTON, PTON_SMALL, PARSE, NOP };
static const char *const OPN[] = {"gethostbyname", "gethostbyname-twice", "getaddrinfo", "getnameinfo", "inet_pton", "inet_pton-small", "parse_addr"};
enum { NT = 3, NLIST = 12 };
typedef struct { int op[NT], n, threads; bool ticker, switches; } cfg;
static cfg *C;
static bool model;
static const char *const NAME[NT * 2] = {"alpha.test", "beta.test", "gamma.test", "delta.test", "epsilon.test", "zeta.test"};
static unsigned ticks;
static bool held;
static struct { int calls, err, sys_err; const void *hints; } asked[NT * 2];
PLAIN static int known(const char *n) { for (int i = 0; n && i < NT * 2; i++) if (!strcmp(n, NAME[i])) return i; return -1; }
PLAIN static int enter(int k, int nerr, const char *what) {
	if (k < 0) mc_fail("args", "%s was asked for a name nobody gave", what);
	if (!sched_self()) mc_fail("thread", "%s runs on the caller's thread", what);
	if (held) for (unsigned t = ticks, n = 0; ticks < t + 2; n++) { if (n > 3000) mc_fail("starved", "no other task of the caller ran during %s", what); sched_yield_point(); }
	asked[k].calls++;
	int c = mc_choose(1 + nerr, what);
	mc_step(1);
	asked[k].err = c;
	if (mc_verbose) mc_note("  thread %d: %s(%s) %s\n", sched_self(), what, NAME[k], c ? "fails" : "answers");
	return c;
}
PLAIN static uint32_t address(int k) { return htonl(0x0a000001 + k); }
/* the classic call: one place for everybody */
static struct hostent one_he;
static char *one_list[2], one_name[32], one_addr[4], *no_alias[1];
struct hostent *__real_gethostbyname(const char *);
PLAIN struct hostent *__wrap_gethostbyname(const char *n) {
	if (!model) return __real_gethostbyname(n);
	int k = known(n);
	if (enter(k, 1, "gethostbyname")) { h_errno = HOST_NOT_FOUND; return NULL; }
	uint32_t a = address(k);
	memcpy(one_addr, &a, 4);
	strcpy(one_name, n);
	one_list[0] = one_addr;
	one_he = (struct hostent){one_name, no_alias, AF_INET, 4, one_list};
	sched_yield_point();
	return &one_he;
}
int __real_gethostbyname_r(const char *, struct hostent *, char *, size_t, struct hostent **, int *);
PLAIN int __wrap_gethostbyname_r(const char *n, struct hostent *he, char *buf, size_t size, struct hostent **res, int *err) {
	if (!model) return __real_gethostbyname_r(n, he, buf, size, res, err);
	int k = known(n), c = enter(k, 1, "gethostbyname_r");
	*res = NULL;
	if (c) { *err = HOST_NOT_FOUND; return 0; }
	size_t need = 4 * sizeof(char *) + 8 + strlen(n) + 1 + (k % NT == 2 ? 3000 : 0); /* some have a long answer */
	if (size < need) { asked[k].calls--; *err = NETDB_INTERNAL; return ERANGE; }
	char **l = (char **)(((uintptr_t)buf + 7) & ~7ull);
	uint32_t a = address(k);
	memcpy(l + 3, &a, 4);
	strcpy((char *)(l + 4), n);
	l[0] = (char *)(l + 3); l[1] = NULL; l[2] = NULL;
	*he = (struct hostent){(char *)(l + 4), l + 2, AF_INET, 4, l};
	*res = he;
	*err = 0;
	return 0;
}
static struct { struct addrinfo ai[2]; struct sockaddr_in sin; struct sockaddr_in6 sin6; bool used, freed; } lists[NLIST];
static int nlists;
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
PLAIN int __wrap_getaddrinfo(const char *n, const char *srv, const struct addrinfo *h, struct addrinfo **res) {
	if (!model) return __real_getaddrinfo(n, srv, h, res);
	int k = known(n), c = enter(k, 2, "getaddrinfo");
	asked[k].hints = h;
	if (srv && strcmp(srv, "80")) mc_fail("args", "getaddrinfo was asked for the service %s", srv);
	if (c == 1) return EAI_NONAME;
	if (c == 2) { errno = asked[k].sys_err = EMFILE; return EAI_SYSTEM; }
	if (nlists == NLIST) mc_fail("runaway", "too many lookups");
	int i = nlists++;
	lists[i].used = true;
	lists[i].sin = (struct sockaddr_in){.sin_family = AF_INET, .sin_port = htons(srv ? 80 : 0), .sin_addr = {address(k)}};
	lists[i].sin6 = (struct sockaddr_in6){.sin6_family = AF_INET6, .sin6_port = htons(srv ? 80 : 0)};
	lists[i].ai[0] = (struct addrinfo){.ai_family = AF_INET6, .ai_addrlen = sizeof lists[i].sin6, .ai_addr = (struct sockaddr *)&lists[i].sin6, .ai_next = &lists[i].ai[1]};
	lists[i].ai[1] = (struct addrinfo){.ai_family = AF_INET, .ai_addrlen = sizeof lists[i].sin, .ai_addr = (struct sockaddr *)&lists[i].sin};
	*res = lists[i].ai;
	return 0;
}
void __real_freeaddrinfo(struct addrinfo *);
PLAIN void __wrap_freeaddrinfo(struct addrinfo *a) {
	for (int i = 0; i < nlists; i++) if (a == lists[i].ai) { if (lists[i].freed) mc_fail("freed-twice", "a list of addresses is released twice"); lists[i].freed = true; return; }
	if (model) mc_fail("freed", "something else than a list of addresses is released");
	__real_freeaddrinfo(a);
}
int __real_getnameinfo(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
PLAIN int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int fl) {
	if (!model) return __real_getnameinfo(sa, l, h, hl, s, sl, fl);
	const struct sockaddr_in *to = (const struct sockaddr_in *)sa;
	int k = (int)(ntohl(to->sin_addr.s_addr) - 0x0a000001);
	if (k < 0 || k >= NT * 2 || l != sizeof *to || hl != 30 || sl != 10 || fl != NI_NUMERICSERV) mc_fail("args", "getnameinfo gets other arguments than given: length %d, %d, %d, flags %d", (int)l, (int)hl, (int)sl, fl);
	int c = enter(k, 2, "getnameinfo");
	if (c == 1) return EAI_NONAME;
	if (c == 2) { errno = asked[k].sys_err = ENOMEM; return EAI_SYSTEM; }
	strcpy(h, NAME[k]); strcpy(s, "443");
	return 0;
}
PLAIN static void once(int k, const char *op) { if (asked[k].calls != 1) mc_fail("calls", "%s asked the resolver %d times", op, asked[k].calls); asked[k].calls = 0; }
PLAIN static void look(const struct hostent *he, int k, const char *when) {
	uint32_t a = address(k);
	if (strcmp(he->h_name, NAME[k])) mc_fail("name", "%s: the answer for %s is named %s", when, NAME[k], he->h_name);
	if (he->h_addrtype != AF_INET || he->h_length != 4 || !he->h_addr_list[0] || memcmp(he->h_addr_list[0], &a, 4) || he->h_addr_list[1]) mc_fail("address", "%s: the answer for %s has another address", when, NAME[k]);
	if (he->h_aliases[0]) mc_fail("alias", "%s: the answer for %s has an alias", when, NAME[k]);
}
static void host(int k) {
	struct hostent *he = async_gethostbyname((char *)NAME[k]);
	once(k, "async_gethostbyname");
	if (!he != !!asked[k].err) mc_fail("result", "async_gethostbyname gives %s, the resolver %s", he ? "an answer" : "none", asked[k].err ? "failed" : "answered");
	if (!he) return;
	look(he, k, "at once");
	char t[20] = "";
	snprintf(t, sizeof t, "10.0.0.%d", k + 1);
	char *ip = gethostbyname_ip(he);
	if (!ip || strcmp(ip, t)) mc_fail("text", "gethostbyname_ip gives %s, not %s", ip ? ip : "nothing", t);
	for (int i = 0; i < 3; i++) { yield(); look(he, k, "after other tasks ran"); }
}
static void run(int op, int t) {
	int k = t, r, e;
	struct addrinfo hints = {.ai_family = AF_UNSPEC, .ai_socktype = SOCK_STREAM}, *res = (struct addrinfo *)&hints;
	struct sockaddr_in in_ = {.sin_family = AF_INET, .sin_addr = {address(k)}};
	errno = 0;
	switch (op) {
	case HOST_TWICE: host(k + NT); /* fall through */
	case HOST: host(k); break;
	case ADDR:
		r = async_getaddrinfo(NAME[k], "80", &hints, &res); e = errno;
		once(k, "async_getaddrinfo");
		if (asked[k].hints != &hints) mc_fail("args", "getaddrinfo gets other hints");
		if (r != (asked[k].err == 1 ? EAI_NONAME : asked[k].err ? EAI_SYSTEM : 0)) mc_fail("result", "async_getaddrinfo gives %d, the resolver's answer was number %d", r, asked[k].err);
		if (r == EAI_SYSTEM && e != asked[k].sys_err) mc_fail("errno", "async_getaddrinfo leaves errno %d, not %d", e, asked[k].sys_err);
		if (!r) {
			for (int i = 0; i < 2; i++) {
				if (!res->ai_next || ((struct sockaddr_in *)res->ai_next->ai_addr)->sin_addr.s_addr != address(k)) mc_fail("address", "async_getaddrinfo gives another's list");
				yield();
			}
			freeaddrinfo(res);
		}
		break;
	case NAMEINFO: {
		char h[30] = "", s[10] = "";
		r = async_getnameinfo((sockaddr_t *)&in_, sizeof in_, h, 30, s, 10, NI_NUMERICSERV); e = errno;
		once(k, "async_getnameinfo");
		if (r != (asked[k].err == 1 ? EAI_NONAME : asked[k].err ? EAI_SYSTEM : 0)) mc_fail("result", "async_getnameinfo gives %d, the resolver's answer was number %d", r, asked[k].err);
		if (r == EAI_SYSTEM && e != asked[k].sys_err) mc_fail("errno", "async_getnameinfo leaves errno %d, not %d", e, asked[k].sys_err);
		if (!r && (strcmp(h, NAME[k]) || strcmp(s, "443"))) mc_fail("name", "async_getnameinfo gives %s and %s", h, s);
		break; }
	case PTON: case PTON_SMALL: {
		struct { struct sockaddr_in a; char after[40]; } d;
		memset(&d, 0x5a, sizeof d);
		r = async_inet_pton(AF_INET, NAME[k], &d.a, op == PTON ? sizeof d.a : 8, 1);
		once(k, "async_inet_pton");
		if (r != (op == PTON && !asked[k].err)) mc_fail("result", "async_inet_pton gives %d", r);
		if (r && d.a.sin_addr.s_addr != address(k)) mc_fail("address", "async_inet_pton gives another's address");
		for (unsigned i = r ? sizeof d.a : 0; i < sizeof d; i++) if (((char *)&d)[i] != 0x5a) mc_fail("overrun", "async_inet_pton wrote byte %u", i);
		break; }
	case PARSE: {
		char text[40];
		u_saddr_t u;
		int v = 77;
		snprintf(text, sizeof text, "%s:8%d", NAME[k], k);
		r = async_parse_addr(text, &u, &v);
		if (asked[k].calls < 1 || asked[k].calls > 2) mc_fail("calls", "async_parse_addr asked the resolver %d times", asked[k].calls);
		/* the last answer decides: an IPv4 address, then an IPv6 one */
		if (r != !asked[k].err) mc_fail("result", "async_parse_addr gives %d", r);
		if (r && asked[k].calls == 1 && (v != 4 || u.sin.sin_addr.s_addr != address(k) || ntohs(u.sin.sin_port) != 80 + k)) mc_fail("address", "async_parse_addr gives version %d, port %d", v, ntohs(u.sin.sin_port));
		if (r && asked[k].calls == 2 && (v != 6 || ntohs(u.sin6.sin6_port) != 80 + k)) mc_fail("address", "async_parse_addr gives version %d, port %d", v, ntohs(u.sin6.sin6_port));
		break; }
	}
}
static int done_n;
static void *worker(param_t a) { int k = a[0].integer; run(C->op[k], k); done_n++; return 0; }
static void *ticker(param_t a) { (void)a; while (done_n < C->n) { ticks++; errno = 71; yield(); } return 0; }
static void *main_task(param_t args) {
	(void)args;
	uint32_t t[NT];
	if (C->ticker) { held = true; async_task((param_func_t)ticker, 0); }
	for (int i = 0; i < C->n; i++) t[i] = async_task((param_func_t)worker, 1, i);
	for (int i = 0; i < C->n; i++) await_for(t[i]);
	if (done_n != C->n) mc_fail("lost", "%d of %d tasks done", done_n, C->n);
	for (int i = 0; i < nlists; i++) if (!lists[i].freed) mc_fail("leak", "a list of addresses is not released");
	for (int i = 0; i < C->n; i++) mc_obs("%s %d ", OPN[C->op[i]], asked[i].err);
	mc_done();
	return 0;
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = C->threads + 1;
	sched_stall = 24;
	if (events_init(64)) mc_fail("init", "events_init failed");
	events_t *loop = events_init_pool(C->threads);
	ex_signal_default();
	model = true;
	async_task((param_func_t)main_task, 0);
	if (C->switches) sched_on();
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I07");
	static cfg c[80];
	int n = 0;
	char name[90];
	for (int m = 0; m < 2; m++) for (int op = 0; op < NOP; op++) {
		c[n] = (cfg){{op}, 1, 1, true, m};
		sched_plain = !m;
		mc_opt o = {.bound = m ? 1 + MC_THOROUGH : 3, .timeout_s = 20};
		snprintf(name, sizeof name, "%s-%s", m ? "switched" : "answers", OPN[op]);
		sched_explore(name, scn, &c[n++], o);
	}
	static const int T[][3] = {{HOST, HOST, -1}, {HOST_TWICE, HOST, -1}, {ADDR, HOST, -1}, {ADDR, ADDR, -1}, {NAMEINFO, NAMEINFO, -1}, {PARSE, PTON, -1}, {HOST, HOST, HOST}, {ADDR, NAMEINFO, HOST}};
	for (int m = 0; m < 2; m++) for (unsigned i = 0; i < sizeof T / sizeof *T; i++) for (int th = 1; th <= 2; th++) {
		sched_plain = !m;
		c[n] = (cfg){{T[i][0], T[i][1], T[i][2]}, T[i][2] < 0 ? 2 : 3, th, !m, m};
		mc_opt o = {.bound = m ? 1 + (MC_THOROUGH && T[i][2] < 0) : 2 + MC_THOROUGH, .timeout_s = 20};
		snprintf(name, sizeof name, "%s-%s-%s%s%s-threads-%d", m ? "switched" : "answers", OPN[T[i][0]], OPN[T[i][1]], T[i][2] < 0 ? "" : "-", T[i][2] < 0 ? "" : OPN[T[i][2]], th);
		sched_explore(name, scn, &c[n++], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
