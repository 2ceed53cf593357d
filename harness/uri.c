/* T04: URL splitting against a slice-based reference, and release of every component. */
#include "events_internal.h"
#include "common.h"
#include "defers.h"

/* counting allocator: how many blocks are live */
static int live;
static void *c_malloc(size_t n) { void *p = malloc(n); if (p) live++; return p; }
static void *c_calloc(size_t k, size_t n) { void *p = calloc(k, n); if (p) live++; return p; }
static void *c_realloc(void *o, size_t n) { void *p = realloc(o, n); if (p && !o) live++; return p; }
static void c_free(void *p) { if (p) live--; free(p); }

typedef struct { const char *p; int n; } sl;               /* p == NULL: absent */
typedef struct { sl scheme, user, pass, host, path, query, frag; int port; } parts;
static int isset_(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.'; }
static int dig(int c) { return c >= '0' && c <= '9'; }
static int find(const char *s, int a, int b, const char *set) { while (a < b && !strchr(set, s[a])) a++; return a; }
static int rfind(const char *s, int a, int b, int c) { while (b > a) if (s[--b] == c) return b; return -1; }
static sl cut(const char *s, int a, int b) { sl r = {s + a, b - a}; return r; }

static bool ref_parse(const char *s, int n, parts *o) {
	int c = find(s, 0, n, ":"), at = 0, dbl = n > 1 && s[0] == '/' && s[1] == '/', k;
	bool portform = false;
	memset(o, 0, sizeof *o);
	if (c >= n) {                                       /* no colon at all: only //host... has a host */
		if (!dbl) return false;
		at = 2;
	} else if (c == 0) portform = true;
	else {
		bool ok = true;
		for (k = 0; k < c; k++) if (!isset_((unsigned char)s[k])) ok = false;
		if (!ok) {
			if (c + 1 < n && c < find(s, 0, n, "?#")) portform = true;
			else if (dbl) at = 2;
			else return false;
		} else if (c + 1 == n) return false;            /* a scheme alone has no host */
		else if (s[c + 1] != '/') {
			for (k = c + 1; k < n && dig(s[k]); k++) ;
			if ((k == n || s[k] == '/') && k - c < 7) portform = true; else return false;
		} else {
			o->scheme = cut(s, 0, c);
			if (!(c + 2 < n && s[c + 2] == '/')) return false;
			at = c + 3;
			if (c == 4 && !strncasecmp(s, "file", 4) && at < n && s[at] == '/') return false;
		}
	}
	if (portform) {
		for (k = c + 1; k < n && k - c - 1 < 6 && dig(s[k]); k++) ;
		int len = k - c - 1;
		if (len > 0 && len < 6 && (k == n || s[k] == '/')) {
			o->port = atoi(s + c + 1);
			if (o->port > 65535) return false;
			at = dbl ? 2 : 0;
		} else if (len == 0 && c + 1 == n) return false;
		else if (dbl) at = 2;
		else return false;
	}
	int e = find(s, at, n, "/?#"), u = rfind(s, at, e, '@');
	if (u >= 0) {
		int q = find(s, at, u, ":");
		o->user = cut(s, at, q);
		if (q < u) o->pass = cut(s, q + 1, u);
		at = u + 1;
	}
	int p = -1;
	if (!(at < n && s[at] == '[' && s[e - 1] == ']')) p = rfind(s, at, e, ':');
	if (p >= 0) {
		int len = e - p - 1;
		if (!o->port && len > 0) {
			if (len > 5) return false;
			for (k = p + 1; k < e; k++) if (!dig(s[k])) return false;
			o->port = atoi(s + p + 1);
			if (o->port > 65535) return false;
		}
	} else p = e;
	if (p <= at) return false;
	o->host = cut(s, at, p);
	bool dot = false;
	for (k = at; k < p; k++) if (s[k] == '.') dot = true;
	if (!dot && !(p - at == 9 && !memcmp(s + at, "localhost", 9))) return false;
	if (e == n) return true;
	int end = n, h = find(s, e, n, "#");
	if (h < n) { if (h + 1 < n) o->frag = cut(s, h + 1, n); end = h; }
	int q = find(s, e, end, "?");
	if (q < end) { if (q + 1 < end) o->query = cut(s, q + 1, end); end = q; }
	if (e < end) o->path = cut(s, e, end);
	return true;
}
static void part(const char *what, const char *got, sl w, const char *fn, const char *url) {
	if (!w.p) { mc_check("absent", got == NULL, "%s(\"%s\") has a %s \"%s\" that is not in the text", fn, url, what, got); return; }
	mc_check("missing", got != NULL, "%s(\"%s\") lost the %s", fn, url, what);
	mc_check("length", (int)strlen(got) == w.n, "%s(\"%s\"): %s is \"%s\", not %d characters", fn, url, what, got, w.n);
	for (int i = 0; i < w.n; i++) {
		unsigned char c = w.p[i];
		if (c < 32 || c == 127) c = '_';
		mc_check("text", (unsigned char)got[i] == c, "%s(\"%s\"): %s is \"%s\", not \"%.*s\"", fn, url, what, got, w.n, w.p);
	}
}
static void check(uri_t *u, bool ok, parts *w, const char *fn, const char *url) {
	mc_check("accept", !!u == ok, "%s(\"%s\") %s", fn, url, u ? "accepted it, though no host can be delimited in it" : "rejected a well-formed URL");
	if (!u) return;
	part("scheme", u->scheme, w->scheme, fn, url); part("user", u->user, w->user, fn, url); part("password", u->pass, w->pass, fn, url);
	part("host", u->host, w->host, fn, url); part("path", u->path, w->path, fn, url); part("query", u->query, w->query, fn, url);
	part("fragment", u->fragment, w->frag, fn, url);
	mc_check("port", u->port == w->port, "%s(\"%s\"): port %d, not %d", fn, url, u->port, w->port);
	static const struct { const char *s; int t; } kind[] = {{"http", DATA_TCP}, {"tcp", DATA_TCP}, {"ws", DATA_TCP}, {"ftp", DATA_TCP}, {"https", DATA_TLS},
		{"tls", DATA_TLS}, {"ssl", DATA_TLS}, {"wss", DATA_TLS}, {"ftps", DATA_TLS}, {"file", DATA_PIPE}, {"unix", DATA_PIPE}, {"udp", DATA_UDP}};
	for (int i = 0; i < 12; i++) if (u->scheme && !strcmp(u->scheme, kind[i].s)) mc_check("kind", (int)u->type == kind[i].t, "%s(\"%s\"): kind %d for scheme %s", fn, url, u->type, kind[i].s);
}
static void both(const char *b) {
	parts w;
	int n = strlen(b);
	ndfr = 0; live = 0;
	char *s = hdup(b);
	bool ok = ref_parse(b, n, &w) && n > 0;
	uri_t *u = parse_uri_ex(s);
	check(u, ok, &w, "parse_uri_ex", b);
	mc_check("input", !strcmp(s, b), "parse_uri_ex changed its input \"%s\"", b);
	mc_check("manual", ndfr == 0, "parse_uri_ex(\"%s\") left its release to the scope", b);
	free(s);                                            /* the result must not refer to the text */
	if (u) { check(u, ok, &w, "parse_uri_ex", b); uri_free(u); }
	mc_check("leak", live == 0, "%d blocks are still allocated after parse_uri_ex(\"%s\")%s", live, b, u ? " and uri_free()" : " was refused");
	s = hdup(b);
	u = parse_uri(s);
	check(u, ok, &w, "parse_uri", b);
	free(s);
	check(u, ok, &w, "parse_uri", b);
	if (u) uri_free(u);                                 /* the scope owns it: no effect */
	check(u, ok, &w, "parse_uri", b);
	mc_check("owned", live == ndfr, "parse_uri(\"%s\") allocated %d blocks and handed %d to the scope", b, live, ndfr);
	mc_obs("%d%d%d%d%d%d", ok, !!w.user.p, w.port > 0, !!w.path.p, !!w.query.p, !!w.frag.p);
	run_defers();
}
static void raw_case(uint64_t i, void *arg) {
	char b[32];
	(void)arg;
	str_nth(i, "a.:/?#@[]1\x01", 11, b);
	mc_note("url \"%s\"", b);
	both(b);
}
static void raw2_case(uint64_t i, void *arg) {          /* after a fixed good start */
	static const char *pre[] = {"s://a.b", "//a.b", "a.b:", "s://", "file://", "a.b:80", "s://u@a.b", "//[a.b"};
	char b[64], t[32];
	(void)arg;
	int k = take(&i, 8);
	str_nth(i, "a.:/?#@]90 ", 11, t);
	snprintf(b, sizeof b, "%s%s", pre[k], t);
	mc_note("url \"%s\"", b);
	both(b);
}
static const char *T[8][14] = {
	{"", "http:", "file:", "x:", "1a+:", "u p:", "HTTPS:", "udp:", "unix:", "wss:"},
	{"", "/", "//", "///"},
	{"", "u@", "u:p@", "@", ":@", "u:p:q@", "u@v@", "\x02:\x7f@"},
	{"", "a.b", "localhost", "x", "[::1]", "[1.2]", "a.b]", "\x01.c", "a.b.c.d"},
	{"", ":", ":0", ":80", ":65535", ":65536", ":99999", ":123456", ":8a", ":a", ":+1", ": 1", ":-1"},
	{"", "/", "/p:q", "/a//b@c"}, {"", "?", "?a=b", "?a?b/:@"}, {"", "#", "#f", "#a#b?c"}};
static void built_case(uint64_t i, void *arg) {
	char b[128] = "";
	(void)arg;
	for (int k = 0; k < 8; k++) { int n = 0; while (n < 14 && T[k][n]) n++; strcat(b, T[k][take(&i, n)]); }
	mc_note("url \"%s\"", b);
	both(b);
}
/* one component of every length up to 600 and around the sizes at which buffers end */
static void long_case(uint64_t i, void *arg) {
	static const char *fix[7] = {"http", "user", "pw", "a.b", "/path", "q=1", "frag"};
	static char b[5000], c[7][4200];
	(void)arg;
	int which = take(&i, 7), fill = take(&i, 2), n = i < 600 ? 1 + (int)i : i < 640 ? 1004 + (int)i - 600 : 4080 + (int)i - 640;
	for (int k = 0; k < 7; k++) strcpy(c[k], fix[k]);
	for (int k = 0; k < n; k++) c[which][k] = fill ? 'a' + k % 26 : 'x';
	c[which][n] = 0;
	if (which == 3) { if (n < 3) mc_skip(); c[3][n / 2] = '.'; }
	if (which == 4) c[4][0] = '/';
	snprintf(b, sizeof b, "%s://%s:%s@%s:80%s?%s#%s", c[0], c[1], c[2], c[3], c[4], c[5], c[6]);
	mc_note("component %d of length %d", which, n);
	both(b);
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "T04");
	mc_opt o = {0};
	scope_init();
	events_set_allocator(c_malloc, c_realloc, c_calloc, c_free);
	uint64_t n = 1;
	for (int k = 0; k < 8; k++) { int c = 0; while (c < 14 && T[k][c]) c++; n *= c; }
	mc_enum("raw", str_space(11, MC_THOROUGH ? 7 : 6), raw_case, NULL, o);
	mc_enum("tails", 8 * str_space(11, MC_THOROUGH ? 6 : 5), raw2_case, NULL, o);
	mc_enum("built", n, built_case, NULL, o);
	mc_enum("long", 7 * 2 * 680, long_case, NULL, o);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
