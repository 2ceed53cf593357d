/* I02: binding, accepting, connecting and datagrams on a stand-in for the kernel's sockets, which
 * answers every call with success, would-block, progress later or an error, and decides in every
 * turn what has arrived and which of the ready sockets it reports. */
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#undef accept
#undef listen
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/un.h>
#include "msched.h"

#define PLAIN __attribute__((no_sanitize("thread"), noinline))
enum { BASE = 40, NF = 6, NDG = 6, NSENT = 8 };
enum { NEW, LISTENING, CONNECTING, REFUSED, CONNECTED, ODD };
typedef struct { struct sockaddr_storage a; socklen_t n; } addr;
typedef struct { int len, peer; } dgram;
static struct sk {
	bool open, reg, bound, waited[2];
	int fam, type, state, backlog, soerr, polls, coming, come, arrived;
	unsigned reported;
	uint32_t ev;
	uint64_t data;
	addr local, peer;
} sk[NF];
static struct { int f, len; addr to; bool connected; unsigned char b[8]; } sent[NSENT];
static int failed_r, failed_s, nsent, fatal, budget_wait, since, last_accepted = -1, polls_waited;
static bool model, spins_ok;               /* several tasks send */
/* who talks to us, in order, and the sizes of what they send */
static struct { int fam; const char *ip; int port; } PEER4[] = {{AF_INET, "10.1.2.3", 5001}, {AF_INET, "127.0.0.1", 60002}, {AF_INET, "192.168.100.200", 65535}, {AF_INET, "1.2.3.4", 1}},
	PEER6[] = {{AF_INET6, "::1", 5001}, {AF_INET6, "fe80::a:b", 60002}, {AF_INET6, "2001:db8:1:2:3:4:5:6", 65535}, {AF_INET6, "::", 1}};
static dgram *queue;
PLAIN static addr peer_addr(int fam, int i) {
	addr a;
	memset(&a, 0, sizeof a);
	if (fam == AF_INET6) { struct sockaddr_in6 *s = (void *)&a.a; s->sin6_family = fam; s->sin6_port = htons(PEER6[i].port); inet_pton(fam, PEER6[i].ip, &s->sin6_addr); a.n = sizeof *s; }
	else if (fam == AF_INET) { struct sockaddr_in *s = (void *)&a.a; s->sin_family = fam; s->sin_port = htons(PEER4[i].port); inet_pton(fam, PEER4[i].ip, &s->sin_addr); a.n = sizeof *s; }
	else { a.a.ss_family = AF_UNIX; a.n = 2; }
	return a;
}
static const char *text(const addr *a) {
	static char b[4][160];
	static int k;
	char *s = b[k = (k + 1) % 4], ip[64];
	if (a->a.ss_family == AF_INET) { struct sockaddr_in *i = (void *)&a->a; snprintf(s, 160, "%s:%d", inet_ntop(AF_INET, &i->sin_addr, ip, sizeof ip), ntohs(i->sin_port)); }
	else if (a->a.ss_family == AF_INET6) { struct sockaddr_in6 *i = (void *)&a->a; snprintf(s, 160, "[%s]:%d", inet_ntop(AF_INET6, &i->sin6_addr, ip, sizeof ip), ntohs(i->sin6_port)); }
	else snprintf(s, 160, "%.*s", (int)(a->n > 2 ? a->n - 2 : 0), ((struct sockaddr_un *)&a->a)->sun_path);
	return s;
}
PLAIN static int at(int fd) { return model && fd >= BASE && fd < BASE + NF ? fd - BASE : -1; }
PLAIN static int ask(int n, const char *w) { mc_step(1); return mc_choose(n, w); }
PLAIN static int fails(const char *what, int e, bool is_fatal) { if (is_fatal && !fatal) fatal = e; if (mc_verbose) mc_note("  %s fails: %s\n", what, strerror(e)); errno = e; return -1; }
/* the address handed over, the way the kernel reads it */
PLAIN static int take(int f, const void *p, socklen_t n, addr *to) {
	memset(to, 0, sizeof *to);
	if (n < 2 || n > sizeof to->a) return EINVAL;
	int fam = ((const struct sockaddr *)p)->sa_family;
	if (fam != sk[f].fam) return EAFNOSUPPORT;
	if (fam == AF_UNIX) { if (n > sizeof(struct sockaddr_un)) return EINVAL; }
	else { if (n < (fam == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))) return EINVAL; n = fam == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in); }
	memcpy(&to->a, p, n);
	to->n = n;
	if (fam == AF_UNIX) to->n = 2 + strnlen(((struct sockaddr_un *)&to->a)->sun_path, n - 2);
	return 0;
}
PLAIN static void give(const addr *a, void *p, socklen_t *n) { if (p && n) { memcpy(p, &a->a, *n < a->n ? *n : a->n); *n = a->n; } }
PLAIN static void unblocked(int f, const char *what) { if (!(fcntl(BASE + f, F_GETFL) & O_NONBLOCK)) mc_fail("blocking", "%s on a descriptor that blocks the whole program", what); }
PLAIN static void attempt(int f, int w, const char *what) {
	unblocked(f, what);
	if (sk[f].waited[w] && !spins_ok && !(sk[f].reported & (w ? 2 : 1))) mc_fail("spin", "%s again though the descriptor was not reported ready", what);
	sk[f].waited[w] = false;
	sk[f].reported &= w ? ~2u : ~1u;
	since = 0;
}
PLAIN static int wait_more(int f, int w, const char *what) { sk[f].waited[w] = true; return fails(what, EAGAIN, false); }
PLAIN static int fresh(int fam, int type) {
	int fd = open("/dev/null", O_RDWR), k = fcntl(fd, F_DUPFD, BASE);
	int __real_close(int);
	__real_close(fd);
	if (k >= BASE + NF) mc_fail("runaway", "more than six sockets");
	memset(&sk[k - BASE], 0, sizeof *sk);
	sk[k - BASE].open = true;
	sk[k - BASE].fam = fam;
	sk[k - BASE].type = type;
	return k;
}
int __real_close(int);
PLAIN int __wrap_close(int fd) {
	int f = at(fd);
	if (f >= 0) { if (!sk[f].open) mc_fail("closed-twice", "a socket is closed twice"); sk[f].open = sk[f].reg = false; int r = __real_close(fd); errno = EBADMSG; return r; }   /* close may leave anything in errno */
	return __real_close(fd);
}
int __real_socket(int, int, int);
PLAIN int __wrap_socket(int fam, int type, int proto) {
	if (!model) return __real_socket(fam, type, proto);
	int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
	if (proto && !(t == SOCK_DGRAM && proto == IPPROTO_UDP && fam != AF_UNIX) && !(t == SOCK_STREAM && proto == IPPROTO_TCP && fam != AF_UNIX)) return fails("socket", EPROTONOSUPPORT, true);
	if (ask(2, "socket")) return fails("socket", EMFILE, true);
	int fd = fresh(fam, t);
	if (type & SOCK_NONBLOCK) fcntl(fd, F_SETFL, O_NONBLOCK | O_RDWR);
	return fd;
}
int __real_setsockopt(int, int, int, const void *, socklen_t);
PLAIN int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
	int f = at(fd);
	if (f < 0) return __real_setsockopt(fd, l, o, v, n);
	return ask(2, "setsockopt") ? fails("setsockopt", ENOPROTOOPT, false) : 0;
}
int __real_getsockopt(int, int, int, void *, socklen_t *);
PLAIN int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
	int f = at(fd), x;
	if (f < 0) return __real_getsockopt(fd, l, o, v, n);
	x = o == SO_TYPE ? sk[f].type : o == SO_ERROR ? sk[f].soerr : 0;
	if (o == SO_ERROR) sk[f].soerr = 0;
	memcpy(v, &x, *n < sizeof x ? *n : sizeof x);
	if (*n > sizeof x) *n = sizeof x;
	return 0;
}
int __real_bind(int, const struct sockaddr *, socklen_t);
PLAIN int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
	int f = at(fd), e;
	if (f < 0) return __real_bind(fd, a, n);
	if ((e = take(f, a, n, &sk[f].local))) return fails("bind", e, true);
	if ((e = ask(3, "bind"))) return fails("bind", e == 1 ? EADDRINUSE : EACCES, true);
	sk[f].bound = true;
	return 0;
}
int __real_listen(int, int);
PLAIN int __wrap_listen(int fd, int backlog) {
	int f = at(fd);
	if (f < 0) return __real_listen(fd, backlog);
	if (sk[f].type != SOCK_STREAM) return fails("listen", EOPNOTSUPP, true);
	if (ask(2, "listen")) return fails("listen", EADDRINUSE, true);
	sk[f].state = LISTENING;
	sk[f].backlog = backlog;
	return 0;
}
int __real_accept(int, struct sockaddr *, socklen_t *);
PLAIN int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) {
	int f = at(fd), c, k;
	if (f < 0) return __real_accept(fd, a, n);
	attempt(f, 0, "accept");
	if (sk[f].state != LISTENING) return fails("accept", EINVAL, true);
	if (sk[f].arrived == sk[f].come) return wait_more(f, 0, "accept");
	c = ask(4, "accept");
	if (c == 1) { sk[f].come++; return wait_more(f, 0, "accept, the connection is gone, and"); }
	if (c > 1) return fails("accept", c == 2 ? EMFILE : ECONNABORTED, true);
	k = at(fresh(sk[f].fam, SOCK_STREAM));
	sk[k].state = CONNECTED;
	sk[k].peer = peer_addr(sk[f].fam, sk[f].come++ % 4);
	give(&sk[k].peer, a, n);
	last_accepted = k;
	return BASE + k;
}
int __real_connect(int, const struct sockaddr *, socklen_t);
PLAIN int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) {
	int f = at(fd), e, c;
	if (f < 0) return __real_connect(fd, a, n);
	if ((e = take(f, a, n, &sk[f].peer))) return fails("connect", e, true);
	if (sk[f].type == SOCK_DGRAM || sk[f].fam == AF_UNIX) {
		c = ask(sk[f].type == SOCK_DGRAM ? 2 : 3, "connect");
		if (c == 2) { sk[f].state = ODD; return fails("connect", EAGAIN, true); }
		if (c == 1) return fails("connect", sk[f].fam == AF_UNIX ? ENOENT : ENETUNREACH, true);
		sk[f].state = CONNECTED;
		return 0;
	}
	unblocked(f, "connect");
	c = ask(4, "connect");          /* under way, at once, refused at once, refused later */
	if (c == 2) return fails("connect", ECONNREFUSED, true);
	if (c == 1) { sk[f].state = CONNECTED; return 0; }
	sk[f].state = CONNECTING;
	sk[f].soerr = c == 3 ? ETIMEDOUT : 0;
	return fails("connect", EINPROGRESS, false);
}
int __real_getpeername(int, struct sockaddr *, socklen_t *);
PLAIN int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *n) {
	int f = at(fd);
	if (f < 0) return __real_getpeername(fd, a, n);
	if (sk[f].state != CONNECTED) return fails("getpeername", ENOTCONN, false);
	give(&sk[f].peer, a, n);
	return 0;
}
PLAIN static unsigned char byte(int i, int k) { return (unsigned char)(i * 31 + k * 7 + 1); }
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
PLAIN ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t an) {
	int f = at(fd), c, e;
	if (f < 0) return __real_sendto(fd, b, n, fl, a, an);
	attempt(f, 1, "sendto");
	c = ask(2 + (budget_wait > 0), "sendto");
	if (c == 2) { budget_wait--; return wait_more(f, 1, "sendto"); }
	if (c == 1) { failed_s++; return fails("sendto", EPERM, true); }
	if (nsent == NSENT) mc_fail("runaway", "more datagrams sent than asked for");
	if (a) { if ((e = take(f, a, an, &sent[nsent].to))) return fails("sendto", e, true); }
	else { if (sk[f].state != CONNECTED) return fails("sendto", EDESTADDRREQ, true); sent[nsent].to = sk[f].peer; }
	sent[nsent].f = f;
	sent[nsent].len = n;
	memcpy(sent[nsent].b, b, n < 8 ? n : 8);
	nsent++;
	return n;
}
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
PLAIN ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *an) {
	int f = at(fd), c;
	if (f < 0) return __real_recvfrom(fd, b, n, fl, a, an);
	attempt(f, 0, "recvfrom");
	if (sk[f].come == sk[f].arrived) return wait_more(f, 0, "recvfrom");
	c = ask(2 + (budget_wait > 0), "recvfrom");
	if (c == 2) { budget_wait--; return wait_more(f, 0, "recvfrom"); }
	if (c == 1) { failed_r++; return fails("recvfrom", ECONNREFUSED, true); }
	int i = sk[f].come++, m = queue[i].len < (int)n ? queue[i].len : (int)n;
	addr p = peer_addr(sk[f].fam, queue[i].peer);
	for (int k = 0; k < m; k++) ((unsigned char *)b)[k] = byte(i, k);
	give(&p, a, an);
	return fl & MSG_TRUNC ? queue[i].len : m;
}
int __real_getnameinfo(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
PLAIN int __wrap_getnameinfo(const struct sockaddr *a, socklen_t n, char *h, socklen_t hn, char *s, socklen_t sn, int fl) {
	char ip[64];
	if (!model) return __real_getnameinfo(a, n, h, hn, s, sn, fl);
	if (a->sa_family == AF_UNIX) snprintf(ip, sizeof ip, "localhost");
	else if (n < (a->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))) return EAI_FAMILY;
	else inet_ntop(a->sa_family, a->sa_family == AF_INET6 ? (void *)&((struct sockaddr_in6 *)a)->sin6_addr : (void *)&((struct sockaddr_in *)a)->sin_addr, ip, sizeof ip);
	if (strlen(ip) >= hn) return EAI_OVERFLOW;
	memcpy(h, ip, strlen(ip) + 1);
	return 0;
}
int __wrap_unlink(const char *p) { (void)p; return 0; }
int __real_epoll_ctl(int, int, int, struct epoll_event *);
PLAIN int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
	int f = at(fd);
	if (f < 0) return __real_epoll_ctl(ep, op, fd, e);
	if (!sk[f].open) { errno = EBADF; return -1; }
	if (op == EPOLL_CTL_ADD ? sk[f].reg : !sk[f].reg) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
	sk[f].reg = op != EPOLL_CTL_DEL;
	if (sk[f].reg) { sk[f].ev = e->events; sk[f].data = e->data.u64; }
	return 0;
}
PLAIN static uint32_t ready(int f) {
	uint32_t r = 0;
	if (sk[f].come < sk[f].arrived) r |= EPOLLIN;
	if (sk[f].type == SOCK_DGRAM || sk[f].state == CONNECTED) r |= EPOLLOUT;
	if (sk[f].state == REFUSED) r |= EPOLLOUT | EPOLLIN | EPOLLERR | EPOLLHUP;
	if (sk[f].state == ODD) r |= EPOLLOUT | EPOLLHUP;
	return r;
}
PLAIN static int poll_answer(struct epoll_event *ev, int n, int timeout) {
	(void)timeout;
	if (!model) return 0;
	int set[NF], k = 0, m = 0, any = 0;
	for (int f = 0; f < NF; f++) if (sk[f].open) {
		sk[f].polls++;
		if (sk[f].state == CONNECTING && sk[f].reg && sk[f].polls > 1) { sk[f].state = sk[f].soerr ? REFUSED : CONNECTED; if (sk[f].soerr) fatal = sk[f].soerr; }
		if (sk[f].reg && sk[f].coming && ask(2, "arrival") == 0) { sk[f].coming--; sk[f].arrived++; }
		any |= sk[f].reg;
	}
	if (any && ++since > 100) mc_fail("stuck", "a hundred turns without a call to a waiting socket");
	for (int f = 0; f < NF; f++) if (sk[f].open && sk[f].reg && ready(f) & (sk[f].ev | EPOLLERR | EPOLLHUP)) set[k++] = f;
	if (!k) return 0;
	int c = ask(k + 1, "poll");
	if (c == k) return 0;
	for (int i = 0; i < k && m < n; i++) {
		int f = set[(i + c) % k];
		uint32_t r = ready(f) & (sk[f].ev | EPOLLERR | EPOLLHUP);
		ev[m].events = r;
		ev[m++].data.u64 = sk[f].data;
		sk[f].reported |= (r & (EPOLLIN | EPOLLERR | EPOLLHUP) ? 1 : 0) | (r & (EPOLLOUT | EPOLLERR | EPOLLHUP) ? 2 : 0);
	}
	return m;
}

/* ---- the programs */
enum { BIND, SOCKET, CONNECT, ACCEPT, SERVER, CLIENT, TALK, UDS, REUSE, NKIND };
typedef struct { int kind, proto, fam; const char *host; int port; const char *want; int nd, late, cap; dgram d[NDG]; } cfg;
static cfg *C;
static int opened(void) { int k = 0; for (int f = 0; f < NF; f++) k += sk[f].open; return k; }
static size_t live0;
static int open0;
static void begin(void) { fatal = 0; errno = 0; open0 = opened(); live0 = sched_live_blocks(); }
PLAIN static void after(const char *op, int r, int e) {
	if (r >= 0) { if (fatal) mc_fail("unreported", "%s succeeds though a call failed: %s", op, strerror(fatal)); return; }
	if (!fatal && C->want) mc_fail("refused", "%s fails though nothing failed (errno %s)", op, strerror(e));
	if (fatal && e != fatal && fatal != EAGAIN) mc_fail("errno", "%s leaves errno %d (%s), the call that failed %d (%s)", op, e, strerror(e), fatal, strerror(fatal));
	if (opened() != open0) mc_fail("leak", "%s fails and leaves %d descriptors open", op, opened() - open0);
	if (C->kind <= CONNECT && C->want && C->fam != AF_INET6 && sched_live_blocks() != live0) mc_fail("leak-memory", "%s fails and leaves %zu blocks behind", op, sched_live_blocks() - live0);
}
static void over(void) { mc_obs("end %d %d", nsent, fatal); mc_done(); for (;;) yield(); }
PLAIN static void listens(const char *op, int fd) {
	int f = at(fd);
	if (f < 0 || !sk[f].open) mc_fail("descriptor", "%s returned %d", op, fd);
	if (!sk[f].bound || !C->want || strcmp(text(&sk[f].local), C->want)) mc_fail("endpoint", "%s bound to '%s', asked for '%s'", op, sk[f].bound ? text(&sk[f].local) : "nothing", C->want ? C->want : "what is no address");
	if (sk[f].type != (C->proto ? SOCK_STREAM : SOCK_DGRAM)) mc_fail("type", "%s made a socket of another type", op);
	if (C->proto && (sk[f].state != LISTENING || sk[f].backlog != 7)) mc_fail("backlog", "%s: backlog %d, asked for 7", op, sk[f].state == LISTENING ? sk[f].backlog : -1);
	unblocked(f, op);
}
PLAIN static void is_peer(const char *op, const u_saddr_t *a, const addr *p) { if (a->sa.sa_family != p->a.ss_family || (p->a.ss_family != AF_UNIX && memcmp(a, &p->a, p->n))) mc_fail("peer", "%s records the wrong peer, not %s", op, text(p)); }
/* a datagram as it was received */
PLAIN static void is_dgram(const char *op, int i, const char *b, long n, long cap) {
	long want = queue[i].len < cap ? queue[i].len : cap;
	if (n != want) mc_fail("length", "%s returned %ld bytes of datagram %d of %d bytes", op, n, i, queue[i].len);
	for (long k = 0; k < n; k++) if ((unsigned char)b[k] != byte(i, k)) mc_fail("content", "%s: byte %ld of datagram %d is not what was sent", op, k, i);
}
PLAIN static void is_sent(const char *op, int k, int f, const char *b, int n, const addr *to) {
	if (nsent <= k) mc_fail("unsent", "%s sent nothing", op);
	if (sent[k].f != f || sent[k].len != n || memcmp(sent[k].b, b, n)) mc_fail("content", "%s sent something else", op);
	if (strcmp(text(&sent[k].to), text(to))) mc_fail("addressee", "%s sent to %s, not to %s", op, text(&sent[k].to), text(to));
}
static int handled, received, gate, srv;
static void reply(udp_t c) {
	int i = handled++, f = srv - BASE, k;
	char ip[64], b[3] = {'r', (char)('0' + i), '.'};
	addr p = peer_addr(C->fam, queue[i].peer);
	if (data_type(c) != DATA_UDP) mc_fail("type", "what udp_recv returned is no datagram");
	if (udp_length(c) != queue[i].len) mc_fail("length", "udp_length is %ld, datagram %d has %d bytes", (long)udp_length(c), i, queue[i].len);
	inet_ntop(C->fam, C->fam == AF_INET6 ? (void *)&((struct sockaddr_in6 *)&p.a)->sin6_addr : (void *)&((struct sockaddr_in *)&p.a)->sin_addr, ip, sizeof ip);
	if (C->late & 1) while (received < C->nd) yield();
	if (strcmp(udp_ip(c), ip)) mc_fail("peer", "udp_ip is %s, datagram %d came from %s", udp_ip(c), i, ip);
	is_dgram("udp_message", i, udp_message(c), udp_length(c), 1 << 20);
	if (udp_message(c)[udp_length(c)]) mc_fail("unterminated", "udp_message is not terminated");
	k = nsent;
	int before = failed_s, r = udp_send(c, b, 3);
	if (r != 3) { if (failed_s == before) mc_fail("refused", "udp_send gave %d", r); if (errno != EPERM) mc_fail("errno", "udp_send leaves errno %d, not %d", errno, EPERM); }
	else for (; k <= nsent; k++) if (k == nsent) mc_fail("addressee", "the answer to datagram %d did not go to %s", i, text(&p)); else if (sent[k].b[1] == b[1]) { is_sent("udp_send", k, f, b, 3, &p); break; }
	gate++;
}
static void *main_task(param_t args) {
	(void)args;
	char name[64], host[128];
	int fd, e, port;
	snprintf(host, sizeof host, "%s", C->host ? C->host : "");
	begin();
	switch (C->kind) {
	case BIND: fd = async_bind(C->host ? host : NULL, C->port, 7, C->proto); e = errno; after("async_bind", fd, e); if (fd >= 0) listens("async_bind", fd); break;
	case SOCKET: {
		addr a = peer_addr(C->fam, C->port);
		fd = async_socket((struct sockaddr *)&a.a, host, 7, C->proto); e = errno; after("async_socket", fd, e); if (fd >= 0) listens("async_socket", fd);
		break; }
	case CONNECT:
		fd = async_connect(host, C->port, C->proto); e = errno; after("async_connect", fd, e);
		if (fd >= 0) {
			int f = at(fd);
			if (f < 0 || !sk[f].open) mc_fail("descriptor", "async_connect returned %d", fd);
			if (sk[f].state != CONNECTED) mc_fail("unconnected", "async_connect succeeds before the connection exists");
			if (!C->want || strcmp(text(&sk[f].peer), C->want)) mc_fail("endpoint", "async_connect connected to '%s', asked for '%s'", text(&sk[f].peer), C->want ? C->want : "what is no address");
			if (sk[f].type != (C->proto ? SOCK_STREAM : SOCK_DGRAM)) mc_fail("type", "async_connect made a socket of another type");
			unblocked(f, "async_connect");
		}
		break;
	case ACCEPT:
	case UDS: {
		int (*bnd)(char *, int) = uds_bind;
		fd = C->kind == UDS ? bnd(host, 7) : async_bind(host, C->port, 7, C->proto);
		if (fd < 0) break;
		int l = at(fd);
		if (C->kind == UDS && !socket_is_uds(fd)) mc_fail("type", "uds_bind returned what is no Unix-domain socket");
		if (C->kind == UDS) listens("uds_bind", fd);
		sk[l].coming = C->nd + 5;
		for (int i = 0; i < 2 + C->nd; i++) {
			memset(name, '#', sizeof name);
			port = -5;
			begin();
			last_accepted = -1;
			int c = C->kind == UDS ? uds_accept(fd, C->late ? name : NULL) : async_accept(fd, C->late ? name : NULL, C->late & 2 ? NULL : &port);
			e = errno;
			after("accept", c, e);
			if (c < 0) continue;
			if (at(c) != last_accepted || at(c) < 0) mc_fail("descriptor", "accept returned %d, not the connection's descriptor", c);
			const addr *p = &sk[at(c)].peer;
			unblocked(at(c), "accept");
			is_peer("accept", events_get_sockaddr(c), p);
			if (C->kind == UDS) { if (!socket_is_uds(c)) mc_fail("type", "the accepted connection is no Unix-domain socket"); }
			else {
				char want[64] = "";
				if (!(C->late & 2) && port != ntohs(((struct sockaddr_in *)&p->a)->sin_port)) mc_fail("peer", "accept reports port %d of %s", port, text(p));
				inet_ntop(p->a.ss_family, p->a.ss_family == AF_INET6 ? (void *)&((struct sockaddr_in6 *)&p->a)->sin6_addr : (void *)&((struct sockaddr_in *)&p->a)->sin_addr, want, sizeof want);
				if (C->late) { if (strlen(want) < 16 && strcmp(name, want)) mc_fail("peer", "accept reports '%.16s', the peer is %s", name, want); for (int k = 16; k < 64; k++) if (name[k] != '#') mc_fail("overrun", "accept writes beyond 16 bytes"); }
			}
			if (C->late & 4) { __wrap_close(c); }
		}
		break; }
	case REUSE: {
		/* numbers that were Unix-domain or datagram sockets before */
		int fd2 = -1, l;
		strcpy(name, "r.sock");
		if (C->late) { fd = udp_bind("127.0.0.1:9", 0); fd2 = udp_bind("127.0.0.1:10", 0); if (fd < 0 || fd2 < 0) break; }
		else { if ((fd = uds_bind(name, 7)) < 0) break; sk[at(fd)].coming = 6; if ((fd2 = uds_accept(fd, NULL)) < 0) break; }
		__wrap_close(fd2);
		__wrap_close(fd);
		if ((fd = async_bind(host, C->port, 7, 1)) < 0) break;
		l = at(fd);
		if (socket_is_udp(fd) || socket_is_uds(fd)) mc_fail("type", "a TCP listener passes for another kind of socket");
		sk[l].coming = 6;
		port = -5;
		if ((fd2 = async_accept(fd, NULL, &port)) < 0) break;
		if (port != PEER4[(sk[l].come - 1) % 4].port) mc_fail("peer", "accept reports port %d of %s", port, text(&sk[at(fd2)].peer));
		if (socket_is_udp(fd2) || socket_is_uds(fd2)) mc_fail("type", "an accepted TCP connection passes for another kind of socket");
		__wrap_close(fd2);
		if ((fd2 = async_connect(host, 99, 1)) < 0) break;
		if (socket_is_udp(fd2) || socket_is_uds(fd2)) mc_fail("type", "a TCP connection passes for another kind of socket");
		break; }
	case SERVER: {
		spins_ok = true;
		fd = srv = udp_bind(host, 0);
		e = errno;
		after("udp_bind", fd, e);
		if (fd < 0) break;
		if (!socket_is_udp(fd)) mc_fail("type", "udp_bind returned what is no datagram socket");
		listens("udp_bind", fd);
		sk[at(fd)].coming = C->nd;
		for (int i = 0; i < C->nd; i++) {
			int before = failed_r;
			udp_t c = udp_recv(fd);
			e = errno;
			if (!c) {
				if (failed_r == before) mc_fail("refused", "udp_recv gives nothing for datagram %d of %d bytes", i, queue[i].len);
				if (e != ECONNREFUSED) mc_fail("errno", "udp_recv leaves errno %d, not %d", e, ECONNREFUSED);
				i--;                                  /* an error of the socket, the datagram is still to come */
				continue;
			}
			received++;
			udp_handler(reply, c);
			if (C->late & 2) yield();
		}
		for (int k = 0; gate < C->nd; k++) { if (k > 500) mc_fail("stuck", "a handler never ends"); yield(); }
		for (int k = 0; k < 4; k++) yield();
		break; }
	case CLIENT:
	case TALK: {
		char b[64], dest[64];
		addr to = peer_addr(C->fam, 1), self;
		snprintf(dest, sizeof dest, "udp://%s", text(&to));
		fd = C->kind == CLIENT ? udp_bind(host, 0) : udp_connect(dest);
		e = errno;
		after("udp_bind", fd, e);
		if (fd < 0) break;
		if (!socket_is_udp(fd)) mc_fail("type", "udp_bind returned what is no datagram socket");
		if (C->kind == TALK && strcmp(text(&sk[at(fd)].peer), text(&to))) mc_fail("endpoint", "udp_connect connected to %s", text(&sk[at(fd)].peer));
		queue = C->d;
		sk[at(fd)].coming = C->nd;
		int got = 0;
		for (int i = 0; i < C->nd + 2; i++) {
			if (C->kind == CLIENT && !(i & 1)) { to = peer_addr(C->fam, (i >> 1) % 4); snprintf(dest, sizeof dest, "udp://%s", text(&to)); udp_to(fd, dest, 0); }
			begin();
			int k = nsent, r = async_sendto(fd, "ping!" , 4 + (i & 1));
			e = errno;
			if (r < 0) after("async_sendto", r, e);
			else { if (fatal) mc_fail("unreported", "async_sendto hides an error"); if (r != 4 + (i & 1)) mc_fail("length", "async_sendto gave %d", r); is_sent("async_sendto", k, at(fd), "ping!", r, &to); }
			if (got < C->nd) {
				memset(b, '#', sizeof b);
				begin();
				r = async_recvfrom(fd, b, C->cap, 0);
				e = errno;
				if (r < 0) { after("async_recvfrom", r, e); continue; }
				is_dgram("async_recvfrom", got++, b, r, C->cap);
				for (int x = r; x < 64; x++) if (b[x] != '#') mc_fail("overrun", "async_recvfrom writes beyond what it received");
			}
		}
		(void)self;
		break; }
	}
	over();
	return 0;
}
static void scn(void *arg) {
	C = arg;
	sched_start();
	sched_cpus = 2;
	queue = C->d;
	budget_wait = 2;
	if (events_init(64)) mc_fail("init", "events_init failed");
	events_t *loop = events_init_pool(1);
	ex_signal_default();
	sched_poll = poll_answer;
	model = true;
	async_task((param_func_t)main_task, 0);
	async_run(loop);
	mc_fail("end", "the scheduler ended before the program");
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "I02");
	sched_plain = true;
	static char L[5][120];
	static const int LEN[] = {1, 20, 106, 107, 108};
	for (int i = 0; i < 5; i++) { memset(L[i], 'p', LEN[i]); if (i) L[i][0] = '/'; }
	static cfg c[80] = {
		{BIND, 1, AF_INET, "127.0.0.1", 7777, "127.0.0.1:7777"}, {BIND, 0, AF_INET, "127.0.0.1", 7777, "127.0.0.1:7777"}, {BIND, 1, AF_INET6, "[::1]", 7777, "[::1]:7777"}, {BIND, 0, AF_INET6, "[fe80::a:b]", 65535, "[fe80::a:b]:65535"},
		{BIND, 1, AF_INET, "10.1.2.3:80", 0, "10.1.2.3:80"}, {BIND, 1, AF_INET, NULL, 7777, "0.0.0.0:7777"}, {BIND, 1, AF_INET, "1.2.3.400", 7777, NULL}, {BIND, 0, AF_INET, "1.2.3.4", 70000, NULL},
		{BIND, -1, AF_UNIX, L[0], 0, L[0]}, {BIND, -1, AF_UNIX, L[1], 0, L[1]}, {BIND, -1, AF_UNIX, L[2], 0, L[2]}, {BIND, -1, AF_UNIX, L[3], 0, L[3]}, {BIND, -1, AF_UNIX, L[4], 0, NULL},
		{SOCKET, 1, AF_INET, "", 1, "127.0.0.1:60002"}, {SOCKET, 0, AF_INET, "", 0, "10.1.2.3:5001"}, {SOCKET, 1, AF_INET6, "", 2, "[2001:db8:1:2:3:4:5:6]:65535"}, {SOCKET, 0, AF_INET6, "", 1, "[fe80::a:b]:60002"}, {SOCKET, -1, AF_UNIX, L[1], 0, L[1]}, {SOCKET, -1, AF_UNIX, L[3], 0, L[3]}, {SOCKET, -1, AF_UNIX, L[4], 0, NULL},
		{CONNECT, 1, AF_INET, "127.0.0.1", 7777, "127.0.0.1:7777"}, {CONNECT, 0, AF_INET, "127.0.0.1", 7777, "127.0.0.1:7777"}, {CONNECT, 1, AF_INET6, "[::1]", 7777, "[::1]:7777"}, {CONNECT, 0, AF_INET6, "[2001:db8:1:2:3:4:5:6]", 9, "[2001:db8:1:2:3:4:5:6]:9"}, {CONNECT, 1, AF_INET, "10.1.2.3:80", 0, "10.1.2.3:80"}, {CONNECT, 1, AF_INET, "1.2.3", 70000, NULL},
		{CONNECT, -1, AF_UNIX, L[0], 0, L[0]}, {CONNECT, -1, AF_UNIX, L[1], 0, L[1]}, {CONNECT, -1, AF_UNIX, L[3], 0, L[3]}, {CONNECT, -1, AF_UNIX, L[4], 0, NULL},
		{ACCEPT, 1, AF_INET, "127.0.0.1", 80, "x", 0, 0}, {ACCEPT, 1, AF_INET, "127.0.0.1", 80, "x", 1, 1}, {ACCEPT, 1, AF_INET, "127.0.0.1", 80, "x", 0, 3}, {ACCEPT, 1, AF_INET, "127.0.0.1", 80, "x", 2, 5}, {ACCEPT, 1, AF_INET6, "[::1]", 80, "x", 0, 0}, {ACCEPT, 1, AF_INET6, "[::1]", 80, "x", 0, 1}, {ACCEPT, 1, AF_INET6, "[::1]", 80, "x", 1, 5},
		{UDS, -1, AF_UNIX, "s.sock", 0, "s.sock", 0, 0}, {UDS, -1, AF_UNIX, "unix://s.sock", 0, "s.sock", 1, 0},
		{SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 1, 0, 0, {{5, 0}}}, {SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 2, 0, 0, {{5, 0}, {1, 1}}}, {SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 2, 1, 0, {{5, 0}, {9, 1}}}, {SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 3, 2, 0, {{1, 2}, {0, 1}, {3, 0}}}, {SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 3, 3, 0, {{1, 2}, {8, 1}, {3, 2}}},
		{SERVER, 0, AF_INET6, "[::1]:9999", 0, "[::1]:9999", 2, 1, 0, {{5, 0}, {9, 2}}}, {SERVER, 0, AF_INET6, "[::1]:9999", 0, "[::1]:9999", 2, 0, 0, {{2, 2}, {7, 1}}}, {SERVER, 0, AF_INET, "127.0.0.1:9999", 0, "127.0.0.1:9999", 2, 0, 0, {{65507, 1}, {49153, 0}}},
		{CLIENT, 0, AF_INET, "127.0.0.1:7777", 0, "127.0.0.1:7777", 2, 0, 8, {{5, 0}, {8, 1}}}, {CLIENT, 0, AF_INET, "127.0.0.1:7777", 0, "127.0.0.1:7777", 3, 0, 4, {{5, 0}, {0, 1}, {4, 2}}}, {CLIENT, 0, AF_INET6, "[::1]:7777", 0, "[::1]:7777", 2, 0, 8, {{5, 0}, {8, 1}}},
		{REUSE, 1, AF_INET, "127.0.0.1", 80, "x", 0, 0}, {REUSE, 1, AF_INET, "127.0.0.1", 80, "x", 0, 1},
		{TALK, 0, AF_INET, "", 0, "", 2, 0, 8, {{5, 1}, {9, 1}}}, {TALK, 0, AF_INET6, "", 0, "", 2, 0, 8, {{5, 1}, {9, 1}}},
	};
	static const char *const KN[] = {"bind", "socket", "connect", "accept", "server", "client", "talk", "uds", "reuse"};
	char name[60];
	for (int i = 0, k = 0, last = -1; i < 80 && (i == 0 || c[i].kind || c[i].host || c[i].port); i++) {
		k = c[i].kind == last ? k + 1 : 0;
		last = c[i].kind;
		mc_opt o = {.bound = (c[i].kind <= CONNECT ? 4 : 3) + MC_THOROUGH, .timeout_s = 20};
		snprintf(name, sizeof name, "%s-%d", KN[last], k);
		sched_explore(name, scn, &c[i], o);
	}
	int rc = mc_finish(); fflush(NULL); _exit(rc);
}
