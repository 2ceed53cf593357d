/* T05: network address text, parsed and printed. The resolver is a stand-in that knows
 * numeric text, "localhost" (127.0.0.1), "v6only" (::2) and nothing else. */
#include "events_internal.h"
#include "common.h"
#include "defers.h"
#undef connect
#undef open
#undef close
#undef read

int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *name, const char *svc, const struct addrinfo *h, struct addrinfo **r) {
	struct addrinfo q = *h;
	unsigned char t[16];
	if (!strcmp(name, "localhost")) name = "127.0.0.1";
	else if (!strcmp(name, "v6only")) name = "::2";
	if (inet_pton(AF_INET, name, t) != 1 && inet_pton(AF_INET6, name, t) != 1) return EAI_NONAME;
	q.ai_flags = AI_NUMERICHOST;
	return __real_getaddrinfo(name, svc, &q, r);
}
static int nameinfo_len;
int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t len, char *host, socklen_t hl, char *serv, socklen_t sl, int flags) {
	char b[64] = "";
	nameinfo_len = len;
	if (sa->sa_family == AF_INET) { if (len < sizeof(struct sockaddr_in)) return EAI_FAMILY; inet_ntop(AF_INET, &((struct sockaddr_in *)sa)->sin_addr, b, 64); }
	else if (sa->sa_family == AF_INET6) { if (len < sizeof(struct sockaddr_in6)) return EAI_FAMILY; inet_ntop(AF_INET6, &((struct sockaddr_in6 *)sa)->sin6_addr, b, 64); }
	else return EAI_FAMILY;
	if (!(flags & NI_NUMERICHOST)) strcpy(b, "some.host.name");
	if (strlen(b) + 1 > hl) return EAI_OVERFLOW;
	if (host && hl) strcpy(host, b);
	if (serv && sl) strcpy(serv, "0");
	return 0;
}
/* reference: kind 0 refused, 4, 6 */
typedef struct { int ver; unsigned char a[16]; int port; } ep_t;
static int num(const char **p, int max, int *v) {       /* decimal digits only */
	long n = 0;
	const char *s = *p;
	while (*s >= '0' && *s <= '9') { n = n * 10 + *s - '0'; if (n > 99999999) n = 99999999; s++; }
	if (s == *p || n > max) return 0;
	*p = s; *v = n;
	return 1;
}
static ep_t ref(const char *t) {
	ep_t e = {0};
	const char *p = t;
	int v, i;
	char host[256];
	if (*t == '[') {
		const char *q = strchr(t, ']');
		if (!q || q - t > 49) goto name;
		memcpy(host, t + 1, q - t - 1); host[q - t - 1] = 0;
		p = q + 2;
		if (inet_pton(AF_INET6, host, e.a) == 1 && !q[1]) { e.ver = 6; return e; }
		if (q[1] == ':' && inet_pton(AF_INET6, host, e.a) == 1 && num(&p, 65535, &v) && !*p) { e.ver = 6; e.port = v; return e; }
		memset(&e, 0, sizeof e);
		return e;
	}
	if (num(&p, 65535, &v) && !*p) { e.ver = 4; e.port = v; return e; }
	p = t;
	for (i = 0; i < 4; i++) {
		if (!num(&p, 255, &v)) break;
		e.a[i] = v;
		if (i < 3 && *p++ != '.') break;
	}
	if (i == 4 && !*p) { e.ver = 4; return e; }
	if (i == 4 && *p == ':' && p++ && num(&p, 65535, &v) && !*p) { e.ver = 4; e.port = v; return e; }
name:
	memset(&e, 0, sizeof e);
	p = strchr(t, ':');
	if (p && p - t < 200) {
		memcpy(host, t, p - t); host[p - t] = 0; p++;
		if (!num(&p, 65535, &v) || *p) return e;
		if (!strcmp(host, "localhost")) { e.ver = 4; e.a[0] = 127; e.a[3] = 1; e.port = v; }
		else if (!strcmp(host, "v6only")) { e.ver = 6; e.a[15] = 2; e.port = v; }
	}
	return e;
}
static void same(const char *t, const ep_t *w, int r, const u_saddr_t *u, int ver, const char *how) {
	if (!w->ver) { mc_check("junk", !r && ver == 0, "%s\"%s\" is no endpoint but was taken for one (version %d)", how, t, ver); return; }
	mc_check("refused", r == 1 && ver == w->ver, "%s\"%s\" was refused or taken for version %d", how, t, ver);
	if (w->ver == 4) {
		mc_check("family", u->sa.sa_family == AF_INET, "%s\"%s\": family %d", how, t, u->sa.sa_family);
		mc_check("addr", !memcmp(&u->sin.sin_addr, w->a, 4), "%s\"%s\": address %08x", how, t, ntohl(u->sin.sin_addr.s_addr));
		mc_check("port", ntohs(u->sin.sin_port) == w->port, "%s\"%s\": port %d", how, t, ntohs(u->sin.sin_port));
	} else {
		mc_check("family", u->sa.sa_family == AF_INET6, "%s\"%s\": family %d", how, t, u->sa.sa_family);
		mc_check("addr", !memcmp(&u->sin6.sin6_addr, w->a, 16), "%s\"%s\": wrong IPv6 address", how, t);
		mc_check("port", ntohs(u->sin6.sin6_port) == w->port, "%s\"%s\": port %d", how, t, ntohs(u->sin6.sin6_port));
	}
}
static const char *pre[] = {"", "udp://", "unix://"};
static void whole(const char *b) {
	if (b[0] == 'x' && !strchr(b, ':')) { mc_obs("unix"); return; }   /* x + path: a Unix-domain address */
	u_saddr_t u, u2;
	int ver = -5, r, port;
	uint32_t ip;
	ndfr = 0;
	mc_note("text \"%s\"", b);
	ep_t w = ref(b);
	char *s = hdup(b);
	memset(&u, 0x5a, sizeof u);
	r = async_parse_addr(s, &u, &ver);
	same(b, &w, r, &u, ver, "");
	mc_check("input", !strcmp(s, b), "async_parse_addr changed its text \"%s\"", b);
	free(s);
	if (w.ver) {                                         /* print, parse again */
		char out[64], again[80], small[16];
		memset(out, '#', sizeof out);
		async_sockaddr_str(out, sizeof out, &u);
		mc_check("print-end", memchr(out, 0, sizeof out) != NULL, "printed address of \"%s\" is not terminated", b);
		char want[64];
		inet_ntop(w.ver == 4 ? AF_INET : AF_INET6, w.a, want, sizeof want);
		mc_check("print", !strcmp(out, want), "\"%s\" is printed as \"%s\", not \"%s\"", b, out, want);
		for (int room = 1; room <= 16; room += 5) {
			char *d = malloc(room);
			(void)small;
			async_sockaddr_str(d, room, &u);
			mc_check("print-room", memchr(d, 0, room) != NULL && (!*d || !strcmp(d, want)), "\"%s\" printed into %d bytes", b, room);
			mc_check("print-fit", (int)strlen(want) >= room || !strcmp(d, want), "\"%s\" is not printed into %d bytes", b, room);
			free(d);
		}
		snprintf(again, sizeof again, w.ver == 4 ? "%s:%d" : "[%s]:%d", out, w.port);
		r = async_parse_addr(again, &u2, &ver);
		same(again, &w, r, &u2, ver, "printed form ");
	}
	/* the way the socket calls go: split off scheme and port, put together, parse */
	for (int k = 0; k < 6; k++) {
		char full[300], joined[320];
		snprintf(full, sizeof full, "%s%s", pre[k % 3], b);
		s = hdup(full);
		port = 0; ip = 0;
		char *h = str_parseip(s, &ip, &port, k < 3);
		mc_check("split", h != NULL, "splitting \"%s\" gives nothing", full);
		mc_check("split-input", !strcmp(s, full), "splitting changed the text \"%s\"", full);
		if (port) snprintf(joined, sizeof joined, "%s:%d", h, port); else snprintf(joined, sizeof joined, "%s", h);
		/* a host name needs its port, and port 0 counts as none there */
		if (!strstr(b, "//") && !(w.ver && !w.port && (b[0] == 'l' || b[0] == 'v'))) {
			r = async_parse_addr(joined, &u, &ver);
			same(b, &w, r, &u, ver, k < 3 ? "split and joined " : "copied, split and joined ");
			if (w.ver && ip && w.ver == 4 && inet_pton(AF_INET, h, &u.sin.sin_addr) == 1) mc_check("ip", !memcmp(&ip, w.a, 4), "\"%s\": split address %08x", full, ntohl(ip));
			if (inet_pton(AF_INET, h, &u.sin.sin_addr) == 1) mc_check("ip", ip == u.sin.sin_addr.s_addr, "\"%s\": split address %08x", full, ntohl(ip));
		}
		free(s);
		if (k >= 3) free(h);
	}
	mc_obs("%d%d", w.ver, w.port > 0);
	run_defers();
}
static void raw_case(uint64_t i, void *arg) { char b[16]; (void)arg; str_nth(i, "1.:[]6a", 7, b); if (!*b) { mc_obs("-"); return; } whole(b); }
static const char *oct[] = {"0", "1", "9", "10", "127", "192", "255", "256", "300"};
static const char *prt[] = {":80", ":1", ":65535", ":65536", ":99999", ":4294967376", ":80a", ":", "", ":0", ":070", "x"};
static void v4_case(uint64_t i, void *arg) {
	char b[64];
	(void)arg;
	int a = take(&i, 9), c = take(&i, 9), d = take(&i, 9), e = take(&i, 9), p = take(&i, 12), x = take(&i, 3);
	snprintf(b, sizeof b, "%s.%s.%s.%s%s%s", oct[a], oct[c], oct[d], oct[e], x == 1 ? ".7" : "", prt[p]);
	if (x == 2) memmove(b, strchr(b, '.') + 1, strlen(strchr(b, '.') + 1) + 1);
	whole(b);
}
static const char *grp[] = {"", "0", "1", "fe80", "ffff", "2001", "12345", "g"};
static void v6_case(uint64_t i, void *arg) {
	char b[128] = "";
	(void)arg;
	int style = take(&i, 6), p = take(&i, 12), n = 1 + take(&i, 4), g[4];
	for (int k = 0; k < 4; k++) g[k] = take(&i, 8);
	if (style != 1) strcat(b, "[");
	if (style == 2 || style == 3) strcat(b, "::");
	if (style == 4) strcat(b, "2001:db8:0:1:");
	for (int k = 0; k < n; k++) { strcat(b, grp[g[k]]); if (k + 1 < n) strcat(b, ":"); }
	if (style == 3) strcat(b, ":");
	if (style == 5) strcat(b, "::ffff:1.2.3.4");
	if (style != 1) strcat(b, "]");
	strcat(b, prt[p]);
	whole(b);
}
static const char *hosts[] = {"localhost", "v6only", "nohost", "a", "a.b.c", "local-host.example", "x", "xy", "host1", "-"};
static void name_case(uint64_t i, void *arg) {
	char b[128];
	(void)arg;
	int h = take(&i, 10), p = i;
	if (hosts[h][0] == 'x' && !strchr(prt[p], ':')) { mc_obs("unix"); return; }
	snprintf(b, sizeof b, "%s%s", hosts[h], prt[p]);
	whole(b);
}
static void port_case(uint64_t i, void *arg) { char b[32]; (void)arg; snprintf(b, sizeof b, "%s%d", i & 1 ? "10.1.2.3:" : "[::1]:", (int)(i / 2)); whole(b); }
static void byte_case(uint64_t i, void *arg) { char b[32]; int k = i % 4, v = i / 4, o[4] = {10, 20, 30, 40}; (void)arg; o[k] = v; snprintf(b, sizeof b, "%d.%d.%d.%d:8080", o[0], o[1], o[2], o[3]); whole(b); }

/* one stray character, at every place of an address (a bare number that starts with 0 might be octal or hexadecimal) */
static const char *base[] = {"1.2.3.4", "10.20.30.40:8080", "0.0.0.0:0", "[::1]:80", "[fe80::1]", "[::]:0", "80", "9", "localhost:80", "v6only:9", "localhost:0"};
static const char stray[] = " +-\t\n%/,#0";
static void stray_case(uint64_t i, void *arg) {
	char b[64];
	(void)arg;
	const char *t = base[take(&i, 11)];
	char c = stray[take(&i, 10)], two = stray[take(&i, 10)];
	int n = strlen(t), at = i;
	if (at > 2 * n + 1) { mc_obs("-"); return; }
	int d = at > n; at %= n + 1;                          /* one or two of them */
	snprintf(b, sizeof b, "%.*s%c%.*s%s", at, t, c, d, &two, t + at);
	if ((d && (c == '0' || two == '0')) || (*b == '0' && b[1] && strlen(b) < 8 && !strpbrk(b, ".:["))) { mc_obs("-"); return; }
	whole(b);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "T05");
	mc_opt o = {0};
	scope_init();
	events_set_allocator(malloc, realloc, calloc, free);
	mc_enum("raw", str_space(7, MC_THOROUGH ? 7 : 6), raw_case, NULL, o);
	mc_enum("v4", 9 * 9 * 9 * 9 * 12 * 3, v4_case, NULL, o);
	mc_enum("v6", 6 * 12 * 4 * 4096, v6_case, NULL, o);
	mc_enum("names", 120, name_case, NULL, o);
	mc_enum("ports", 2 * 70000, port_case, NULL, o);
	mc_enum("stray", 11 * 10 * 10 * 34, stray_case, NULL, o);
	mc_enum("octets", 4 * 300, byte_case, NULL, o);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
