/* T01, T02, T03: text functions against naive definitions, exhaustively over small inputs. */
#include "events_internal.h"
#include "common.h"
#include "defers.h"
#include <libgen.h>

static const char AB[] = "ab,";
#define CASE_BEGIN() (ndfr = 0)
#define CASE_END() run_defers()

/* ---------------------------------------------------------------- T01 */
static int n_sub, n_pat;
static int ref_pos(const char *s, int n, const char *p, int m) {
	for (int i = 0; i + m <= n; i++) { int k = 0; while (k < m && s[i + k] == p[k]) k++; if (k == m) return i; }
	return -1;
}
static int ref_count(const char *s, int n, const char *p, int m) {
	int c = 0, i = 0, r;
	while (m && (r = ref_pos(s + i, n - i, p, m)) >= 0) { c++; i += r + m; }
	return c;
}
static void search_core(const char *sb, int n, const char *pb, int m) {
	CASE_BEGIN();
	mc_note("subject \"%.60s\" pattern \"%.60s\"\n", sb, pb);
	char *s = hdup(sb), *p = hdup(pb);
	unsigned char *ms = hmem(sb, n), *mp = hmem(pb, m);
	int want = ref_pos(sb, n, pb, m), cnt = ref_count(sb, n, pb, m);
	mc_check("pos", str_pos(s, p) == want, "str_pos(\"%.60s\",\"%.60s\") = %d, first occurrence is %d", sb, pb, str_pos(s, p), want);
	mc_check("has", str_has(s, p) == (want >= 0), "str_has(\"%.60s\",\"%.60s\") = %d", sb, pb, str_has(s, p));
	mc_check("mempos", mempos(ms, n, mp, m) == want, "mempos(\"%.60s\",\"%.60s\") = %d, want %d", sb, pb, mempos(ms, n, mp, m), want);
	mc_check("mempos_str", mempos_str((char *)ms, n, p) == want, "mempos_str(\"%.60s\",\"%.60s\") = %d, want %d", sb, pb, mempos_str((char *)ms, n, p), want);
	mc_check("subcount", str_subcount(s, p) == cnt, "str_subcount(\"%.60s\",\"%.60s\") = %d, want %d", sb, pb, str_subcount(s, p), cnt);
	mc_check("mem_subcount", mem_subcount(ms, n, p) == cnt, "mem_subcount(\"%.60s\",\"%.60s\") = %d, want %d", sb, pb, mem_subcount(ms, n, p), cnt);
	mc_check("input-changed", !strcmp(s, sb) && !strcmp(p, pb) && !memcmp(ms, sb, n) && !memcmp(mp, pb, m), "an input was modified by a search (\"%.60s\",\"%.60s\")", sb, pb);
	mc_obs("pos=%d count=%d", want, cnt);
	free(s); free(p); free(ms); free(mp);
	CASE_END();
}
static void search_case(uint64_t i, void *arg) {
	char sb[32], pb[32];
	(void)arg;
	int n = str_nth(take(&i, n_sub), AB, 3, sb), m = str_nth(i, AB, 3, pb);
	search_core(sb, n, pb, m);
}
/* reference split: pieces between non-overlapping occurrences */
#define MAXPC 9000
static char *pcs[MAXPC]; static int pl[MAXPC];
static int ref_split(const char *s, int n, const char *d, int m, char *out[], int len[]) {
	int k = 0, i = 0, r;
	while (m && (r = ref_pos(s + i, n - i, d, m)) >= 0) { out[k] = strndup(s + i, r); len[k++] = r; i += r + m; }
	out[k] = strndup(s + i, n - i); len[k++] = n - i;
	return k;
}
static void split_core(const char *sb, int n, const char *db, int m) {
	char **pc = pcs;
	int cnt = -77;
	CASE_BEGIN();
	mc_note("split \"%.60s\" by \"%.60s\"\n", sb, db);
	char *s = hdup(sb), *d = hdup(db);
	int k = ref_split(sb, n, db, m, pc, pl);
	char **r = str_split_ex(s, d, &cnt);
	if (!n) mc_check("split-empty", r == NULL, "splitting the empty string gave pieces");
	else {
		mc_check("split-null", r != NULL && cnt == k, "str_split_ex(\"%.60s\",\"%.60s\"): %d pieces, want %d", sb, db, cnt, k);
		for (int j = 0; j < k; j++) mc_check("split", !strcmp(r[j], pc[j]), "str_split_ex(\"%.60s\",\"%.60s\")[%d] = \"%.60s\", want \"%.60s\"", sb, db, j, r[j], pc[j]);
		mc_check("split-end", r[k] == NULL, "str_split_ex(\"%.60s\",\"%.60s\") is not NULL terminated", sb, db);
		free(r);
		r = str_split_ex(s, d, NULL);
		mc_check("split-nocount", r && !strcmp(r[k - 1], pc[k - 1]), "str_split_ex without count differs");
		free(r);
	}
	unsigned char *ms = hmem(sb, n);
	cnt = -77;
	r = (char **)mem_split_ex(ms, n, d, &cnt);
	if (!n) mc_check("msplit-empty", r == NULL, "mem_split_ex of nothing gave pieces");
	else {
		mc_check("msplit-null", r != NULL && cnt == k, "mem_split_ex(\"%.60s\",\"%.60s\"): %d pieces, want %d", sb, db, cnt, k);
		for (int j = 0; j < k; j++) mc_check("msplit", !strcmp(r[j], pc[j]), "mem_split_ex(\"%.60s\",\"%.60s\")[%d] = \"%.60s\", want \"%.60s\"", sb, db, j, r[j], pc[j]);
		mc_check("msplit-end", r[k] == NULL, "mem_split_ex(\"%.60s\",\"%.60s\") is not NULL terminated", sb, db);
		free(r);
	}
	array_t e = str_explode(s, d);
	if (!n) mc_check("explode-empty", e == NULL, "exploding the empty string gave an array");
	else {
		mc_check("explode-count", e != NULL && (int)$size(e) == k, "str_explode(\"%.60s\",\"%.60s\") has %d pieces, want %d", sb, db, e ? (int)$size(e) : -1, k);
		for (int j = 0; j < k; j++) mc_check("explode", !strcmp(e[j].char_ptr, pc[j]), "str_explode(\"%.60s\",\"%.60s\")[%d] = \"%.60s\", want \"%.60s\"", sb, db, j, e[j].char_ptr, pc[j]);
		$delete(e);
	}
	mc_check("split-input", !strcmp(s, sb) && !memcmp(ms, sb, n), "an input was modified by a split");
	mc_obs("pieces=%d first=%d", k, pl[0]);
	free(s); free(d); free(ms);
	for (int j = 0; j < k; j++) free(pc[j]);
	CASE_END();
}
static void split_case(uint64_t i, void *arg) {
	char sb[40], db[40];
	(void)arg;
	int n = str_nth(take(&i, n_sub), AB, 3, sb), m = str_nth(i, AB, 3, db);
	split_core(sb, n, db, m);
}
static void split_big_case(uint64_t i, void *arg) {
	int k = i / 2 + 1, long_piece = i % 2;
	(void)arg;
	CASE_BEGIN();
	char *b = calloc(1, k * 16 + 16);
	for (int j = 0; j < k; j++) sprintf(b + strlen(b), "%s%s%d", j ? "--" : "", long_piece ? "piece-" : "", j);
	char *s = hdup(b);
	array_t e = str_explode(s, "--");
	mc_check("explode-big", e && (int)$size(e) == k, "str_explode of %d pieces gave %d", k, e ? (int)$size(e) : -1);
	for (int j = 0; j < k; j++) { char w[24]; sprintf(w, "%s%d", long_piece ? "piece-" : "", j); mc_check("explode-big", !strcmp(e[j].char_ptr, w), "str_explode piece %d of %d wrong", j, k); }
	int c; char **r = str_split_ex(s, "--", &c);
	mc_check("split-big", c == k, "str_split_ex of %d pieces gave %d", k, c);
	for (int j = 0; j < k; j++) { char w[24]; sprintf(w, "%s%d", long_piece ? "piece-" : "", j); mc_check("split-big", !strcmp(r[j], w), "str_split_ex piece %d of %d wrong", j, k); }
	free(r); free(b); free(s);
	$delete(e);
	CASE_END();
}
static const char *swaps[] = {"", "a", "x", "ab", "xyz", "aa,", "bbbb"};
static void swap_core(const char *hb, int n, const char *nb, int m, const char *sw) {
	char *want = malloc((size_t)(n + 1) * (strlen(sw) + 1) + 1);
	CASE_BEGIN();
	char *h = hdup(hb), *nd = hdup(nb), *w = hdup(sw);
	mc_note("replace \"%.60s\" in \"%.60s\" by \"%.60s\"\n", nb, hb, sw);
	int k = 0, c = 0, o = 0;
	while (k < n) {
		if (m && ref_pos(hb + k, n - k, nb, m) == 0) { strcpy(want + o, sw); o += strlen(sw); k += m; c++; }
		else want[o++] = hb[k++];
	}
	want[o] = 0;
	char *r = str_swap_ex(h, nd, w);
	if (!c) mc_check("swap-none", r == NULL || !strcmp(r, hb), "str_swap_ex(\"%.60s\",\"%.60s\",\"%.60s\") = \"%.60s\" without an occurrence", hb, nb, sw, r);
	else mc_check("swap", r && !strcmp(r, want), "str_swap_ex(\"%.60s\",\"%.60s\",\"%.60s\") = \"%.60s\", want \"%.60s\"", hb, nb, sw, r ? r : "(null)", want);
	mc_obs("%d swapped, %d long", c, o);
	free(r); free(h); free(nd); free(w); free(want);
	CASE_END();
}
static void swap_case(uint64_t i, void *arg) {
	char hb[32], nb[32];
	(void)arg;
	const char *sw = swaps[take(&i, 7)];
	int n = str_nth(take(&i, n_sub), AB, 3, hb), m = str_nth(i, AB, 3, nb);
	swap_core(hb, n, nb, m, sw);
}
/* longer patterns over two letters */
static int two_s, two_p;
static void search_two_case(uint64_t i, void *arg) {
	char sb[32], pb[32];
	int n = str_nth(take(&i, str_space(2, two_s)), AB, 2, sb), m = str_nth(i, AB, 2, pb);
	if (m > n) mc_skip();
	if (!arg) search_core(sb, n, pb, m);
	else { split_core(sb, n, pb, m); swap_core(sb, n, pb, m, "xyz"); }
}
/* every length over the sizes at which buffers grow: the pattern nowhere, at the ends, in the middle, again and again */
static int scale_len(int i) {
	static const int from[] = {0, 120, 250, 505, 1018, 2040, 4088}, cnt[] = {72, 16, 14, 16, 16, 16, 16};
	for (int k = 0; k < 7; k++) { if (i < cnt[k]) return from[k] + i; i -= cnt[k]; }
	return -1;
}
enum { NSCALE = 166 };
static void scale_case(uint64_t i, void *arg) {
	static const char *pat[] = {"b", "ab", "aab", "--=--", "abababac", "a longer pattern of a"};
	static char sb[9000];
	(void)arg;
	const char *p = pat[take(&i, 6)], *sw = swaps[take(&i, 7)];
	int where = take(&i, 7), fill = take(&i, 2) ? p[0] : 'x', N = scale_len(i), m = strlen(p), n = 0;
	if (N > 300 && sw != swaps[0] && sw != swaps[6]) mc_skip();       /* shorter and longer than the pattern */
	if (N > 300 && m == 1 && fill == p[0] && N % 8) mc_skip();
#define FILL(k) do { memset(sb + n, fill, k); n += k; } while (0)
#define PAT() do { memcpy(sb + n, p, m); n += m; } while (0)
	switch (where) {
	case 0: FILL(N); break;
	case 1: PAT(); FILL(N); break;
	case 2: FILL(N); PAT(); break;
	case 3: PAT(); FILL(N); PAT(); break;
	case 4: FILL(N / 2); PAT(); FILL(N - N / 2); break;
	case 5: while (n + m + 3 <= N) { PAT(); FILL(3); } break;
	case 6: FILL(N); memcpy(sb + n, p, m - 1); n += m - 1; break;     /* all but the last letter */
	}
	sb[n] = 0;
	if (sw == swaps[0]) { search_core(sb, n, p, m); split_core(sb, n, p, m); }
	swap_core(sb, n, p, m, sw);
}
static void cat_long_case(uint64_t i, void *arg) {
	(void)arg;
	CASE_BEGIN();
	int a = scale_len(take(&i, NSCALE)), b = i < 3 ? (int)i : scale_len(NSCALE - 1 - (i - 3) * 7);
	char *x = malloc(a + 1), *y = malloc(b + 1), *want = malloc(2 * a + b + 1);
	for (int k = 0; k < a; k++) x[k] = 'a' + k % 26; x[a] = 0;
	for (int k = 0; k < b; k++) y[k] = 'A' + k % 26; y[b] = 0;
	sprintf(want, "%s%s%s", x, y, x);
	char *r = str_cat_ex(3, x, y, x);
	mc_check("cat-long", r && !strcmp(r, want), "str_cat_ex of %d, %d and %d letters differs", a, b, a);
	char *d = str_dup(x), *dx = str_dup_ex(x);
	mc_check("dup-long", !strcmp(d, x) && !strcmp(dx, x), "str_dup of %d letters differs", a);
	mc_obs("%d", a);
	free(dx); free(r); free(x); free(y); free(want);
	CASE_END();
}
static const char *words[] = {"", "a", "bc", "def", "gh ij"};
static void cat_case(uint64_t i, void *arg) {
	(void)arg;
	CASE_BEGIN();
	int n = take(&i, 5);
	char *a[4], want[64] = "";
	for (int k = 0; k < 4; k++) { a[k] = hdup(words[take(&i, 5)]); if (k < n) strcat(want, a[k]); }
	char *r = n == 0 ? str_cat_ex(0) : n == 1 ? str_cat_ex(1, a[0]) : n == 2 ? str_cat_ex(2, a[0], a[1]) : n == 3 ? str_cat_ex(3, a[0], a[1], a[2]) : str_cat_ex(4, a[0], a[1], a[2], a[3]);
	if (n) mc_check("cat", r && !strcmp(r, want), "str_cat_ex of %d = \"%s\", want \"%s\"", n, r ? r : "(null)", want);
	mc_obs("%d", (int)strlen(want));
	free(r);
	for (int k = 0; k < 4; k++) free(a[k]);
	CASE_END();
}
/* joining argument vectors: every history of two calls */
static const char *jw[] = {"a", "bc", "--x=1"};
static void join_ref(char *out, char **v, int from, int to, char d) {
	out[0] = 0;
	for (int i = from; i < to; i++) { size_t l = strlen(out); if (i > from) { out[l++] = d; out[l] = 0; } strcat(out, v[i]); }
}
static void join_case(uint64_t i, void *arg) {
	(void)arg;
	CASE_BEGIN();
	for (int call = 0; call < 3; call++) {
		char *v[4], want[64];
		int argc = 1 + take(&i, 4), start = take(&i, 3);
		uint64_t ws = take(&i, 3);
		if (start >= argc) start = argc - 1;
		for (int k = 0; k < argc; k++) v[k] = (char *)jw[(ws + k) % 3];
		join_ref(want, v, start, argc, call & 1 ? ' ' : ',');
		char *r = str_cat_argv(argc, v, start, call & 1 ? " " : ",");
		mc_check("join", r && !strcmp(r, want), "str_cat_argv call %d (argc %d, start %d) = \"%s\", want \"%s\"", call + 1, argc, start, r ? r : "(null)", want);
		mc_obs("[%s]", want);
	}
	CASE_END();
}
static void either_case(uint64_t i, void *arg) {
	char sb[32], m1[32], m2[32];
	(void)arg;
	int n = str_nth(take(&i, str_space(3, 5)), AB, 3, sb);
	int len = 1 + take(&i, 3), k, c, ok = 0;
	uint64_t q = 1; for (k = 0; k < len; k++) q *= 3;
	uint64_t x = take(&i, 27) % q, y = i % q;
	for (k = 0; k < len; k++) { m1[k] = AB[x % 3]; m2[k] = AB[y % 3]; x /= 3; y /= 3; }
	m1[len] = m2[len] = 0;
	for (c = 0; c + len <= n && !ok; c++) { for (k = 0; k < len && (sb[c + k] == m1[k] || sb[c + k] == m2[k]); k++) ; ok = k == len; }
	char *s = hdup(sb), *a = hdup(m1), *b = hdup(m2);
	mc_check("either", str_has_either(s, a, b) == ok, "str_has_either(\"%s\",\"%s\",\"%s\") is %d", sb, m1, m2, !ok);
	mc_obs("%d", ok);
	free(s); free(a); free(b);
}

/* ---------------------------------------------------------------- T02 */
static const char WS[] = " \tab";
static int isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void trim_case(uint64_t i, void *arg) {
	char sb[32], want[32];
	(void)arg;
	int n = str_nth(i, WS, 4, sb), a = 0, b = n;
	while (a < n && isws(sb[a])) a++;
	while (b > a && isws(sb[b - 1])) b--;
	memcpy(want, sb + a, b - a); want[b - a] = 0;
	mc_note("trim \"%s\"\n", sb);
	char *s = hdup(sb), *r = trim(s);
	mc_check("trim", !strcmp(r, want) && r >= s && r <= s + n, "trim(\"%s\") = \"%s\", want \"%s\"", sb, r, want);
	mc_obs("%d>%d", n, b - a);
	free(s);
}
static void trimchars_case(uint64_t i, void *arg) {   /* every byte as the outer character */
	char sb[8];
	(void)arg;
	int c = i + 1, pos = 0;
	sb[0] = c; sb[1] = 'x'; sb[2] = c; sb[3] = 0;
	(void)pos;
	char *s = hdup(sb), *r = trim(s);
	if (c < 128 && isws(c)) mc_check("trim-space", !strcmp(r, "x"), "byte %d is white space but was kept", c);
	else if (c < 128) mc_check("trim-keep", !strcmp(r, sb), "byte %d is not white space but was trimmed", c);
	free(s);
}
static void copy_case(uint64_t i, void *arg) {   /* str_trim, str_trim_at, str_dup, str_lcpy, str_cpy, compares */
	char sb[16];
	(void)arg;
	CASE_BEGIN();
	int n = str_nth(take(&i, str_space(2, 5)), "aB", 2, sb);
	int at = take(&i, 6), len = i % 8;
	char *s = hdup(sb);
	if (at <= n && at + len <= n) {
		char *r = str_trim_at(s, at, len);
		mc_check("trim_at", r && (int)strlen(r) == len && !memcmp(r, sb + at, len), "str_trim_at(\"%s\",%d,%d) = \"%s\"", sb, at, len, r);
	}
	if (len <= n) {
		char *r = str_trim(s, len);
		mc_check("str_trim", r && (int)strlen(r) == len && !memcmp(r, sb, len), "str_trim(\"%s\",%d) = \"%s\"", sb, len, r);
	}
	char *d = str_dup(s), *dx = str_dup_ex(s);
	mc_check("dup", d && dx && d != s && dx != s && !strcmp(d, sb) && !strcmp(dx, sb), "str_dup of \"%s\" differs", sb);
	free(dx);
	if (len > 0) {
		char *b = malloc(len);
		memset(b, '#', len);
		str_lcpy(b, s, len);
		int w = n < len - 1 ? n : len - 1;
		mc_check("lcpy", (int)strlen(b) == w && !memcmp(b, sb, w), "str_lcpy(\"%s\", %d) = \"%s\"", sb, len, b);
		for (int k = w + 1; k < len; k++) mc_check("lcpy-tail", b[k] == '#', "str_lcpy wrote behind its terminator");
		free(b);
		if (len <= n) {
			char *c = malloc(len);
			mc_check("cpy", str_cpy(c, s, len) == c && !memcmp(c, sb, len), "str_cpy(\"%s\",%d) differs", sb, len);
			free(c);
		}
	}
	if (n) { char *c = malloc(n); str_cpy(c, s, 0); mc_check("cpy0", !memcmp(c, sb, n), "str_cpy of the whole \"%s\" differs", sb); free(c); }
	mc_check("is_empty", str_is_empty(s) == (n == 0), "str_is_empty(\"%s\")", sb);
	free(s);
	CASE_END();
}
static void compare_case(uint64_t i, void *arg) {
	static const char AL[] = "aAb@[\xe0\xc0";
	char x[8], y[8];
	(void)arg;
	uint64_t sp = str_space(7, 3);
	int n = str_nth(take(&i, sp), AL, 7, x), m = str_nth(take(&i, sp), AL, 7, y), len = i % 5;
	char *a = hdup(x), *b = hdup(y);
	int eq = n == m && !memcmp(x, y, n), ceq, k;
#define LOW(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
	for (k = 0; k < n && k < m && LOW(x[k]) == LOW(y[k]); k++) ;
	ceq = k == n && k == m;
	mc_check("str_is", str_is(a, b) == eq, "str_is(\"%s\",\"%s\") = %d", x, y, !eq);
	mc_check("str_is_case", str_is_case(a, b) == ceq, "str_is_case(\"%s\",\"%s\") = %d", x, y, !ceq);
	int want = len > 0;
	for (k = 0; k < len && want; k++) { char p = k <= n ? x[k] : 0, q = k <= m ? y[k] : 0; if (LOW(p) != LOW(q)) want = 0; if (!p && !q) break; }
	mc_check("case_equal", str_case_equal(a, b, len) == want, "str_case_equal(\"%s\",\"%s\",%d) = %d", x, y, len, !want);
	mc_obs("%d%d%d", eq, ceq, want);
	free(a); free(b);
}
static void case_case(uint64_t i, void *arg) {
	(void)arg;
	unsigned char c = i % 255 + 1;
	int n = i / 255 + 1;
	char b[8] = {0}, up[8] = {0}, lo[8] = {0};
	for (int k = 0; k < n; k++) { unsigned char x = k == n - 1 ? c : "mQ7z"[k]; b[k] = x; up[k] = x >= 'a' && x <= 'z' ? x - 32 : x; lo[k] = x >= 'A' && x <= 'Z' ? x + 32 : x; }
	char *s = hdup(b), *t = hdup(b);
	mc_check("upper", str_toupper(s) == s && !strcmp(s, up), "str_toupper of byte %d", c);
	mc_check("lower", str_tolower(t) == t && !strcmp(t, lo), "str_tolower of byte %d", c);
	free(s); free(t);
}
static void repeat_case(uint64_t i, void *arg) {
	char sb[16];
	(void)arg;
	CASE_BEGIN();
	int mult = take(&i, 40), n = str_nth(i, "ab", 2, sb);
	char *s = hdup(sb), *r = str_repeat(s, mult);
	mc_check("repeat-len", r && strlen(r) == (size_t)n * mult, "str_repeat(\"%s\",%d) is %d long", sb, mult, r ? (int)strlen(r) : -1);
	for (int k = 0; k < n * mult; k++) mc_check("repeat", r[k] == sb[k % n], "str_repeat(\"%s\",%d) wrong at %d", sb, mult, k);
	mc_obs("%d", n * mult);
	free(s);
	CASE_END();
}
static const char *pads[] = {" ", "-=", "xyz", NULL, "0123"};
static void pad_case(uint64_t i, void *arg) {
	char sb[16], want[64];
	(void)arg;
	CASE_BEGIN();
	int type = take(&i, 4), len = (int)take(&i, 26) - 1;
	const char *pd = pads[take(&i, 5)], *p = pd ? pd : " ";
	int n = str_nth(i, "ab", 2, sb), l = 0, r = 0, o = 0, pl = strlen(p);
	int t[4] = {0, STR_PAD_LEFT, STR_PAD_RIGHT, STR_PAD_BOTH};
	if (len > n) {
		int x = len - n;
		if (type == 1) l = x; else if (type == 3) { l = x / 2; r = x - l; } else r = x;
	}
	for (int k = 0; k < l; k++) want[o++] = p[k % pl];
	memcpy(want + o, sb, n); o += n;
	for (int k = 0; k < r; k++) want[o++] = p[k % pl];
	want[o] = 0;
	char *s = hdup(sb), *q = str_pad(s, len, (char *)pd, t[type]);
	mc_check("pad", q && !strcmp(q, want), "str_pad(\"%s\",%d,\"%s\",%d) = \"%s\", want \"%s\"", sb, len, p, type, q ? q : "(null)", want);
	mc_obs("%d", o);
	free(s);
	CASE_END();
}
static void scale2_case(uint64_t i, void *arg) {   /* trim, case, pad, repeat, printf at the sizes at which buffers grow */
	(void)arg;
	CASE_BEGIN();
	int N = scale_len(take(&i, NSCALE)), k = i, o = 0, n;
	static char b[20000], w[20000];
	for (int j = 0; j < k; j++) b[o++] = " \t\n"[j % 3];
	for (int j = 0; j < N; j++) b[o++] = j && j < N - 1 && j % 5 == 0 ? ' ' : "aZq7M"[j % 5];
	for (int j = 0; j < k; j++) b[o++] = " \r\t"[j % 3];
	b[o] = 0;
	char *s = hdup(b), *r = trim(s);
	n = strlen(r);
	mc_check("trim-long", n == N && !memcmp(r, b + k, N), "trim of %d letters in %d blanks gave %d", N, k, n);
	free(s);
	s = hdup(b); str_toupper(s); for (int j = 0; j <= o; j++) w[j] = b[j] >= 'a' && b[j] <= 'z' ? b[j] - 32 : b[j];
	mc_check("upper-long", !strcmp(s, w), "str_toupper of %d letters", o);
	free(s);
	s = hdup(b); str_tolower(s); for (int j = 0; j <= o; j++) w[j] = b[j] >= 'A' && b[j] <= 'Z' ? b[j] + 32 : b[j];
	mc_check("lower-long", !strcmp(s, w), "str_tolower of %d letters", o);
	r = str_dup(s); mc_check("dup-long", !strcmp(r, s), "str_dup of %d letters", o);
	if (o > 2) { r = str_trim_at(s, 1, o - 2); mc_check("trim_at-long", (int)strlen(r) == o - 2 && !memcmp(r, s + 1, o - 2), "str_trim_at of %d letters", o); }
	free(s);
	/* a short text padded to N, on either side and on both */
	static const int ty[] = {STR_PAD_LEFT, STR_PAD_RIGHT, STR_PAD_BOTH};
	if (N > 5) for (int t = 0; t < 3; t++) {
		int x = N - 5, l = t == 0 ? x : t == 1 ? 0 : x / 2, q = 0;
		for (int j = 0; j < l; j++) w[q++] = "-=+"[j % 3];
		memcpy(w + q, "hello", 5); q += 5;
		for (int j = 0; j < x - l; j++) w[q++] = "-=+"[j % 3];
		w[q] = 0;
		char *h = hdup("hello"); r = str_pad(h, N, "-=+", ty[t]);
		mc_check("pad-long", r && !strcmp(r, w), "str_pad to %d letters, kind %d", N, t);
		free(h);
	}
	static char unit[][4] = {"x", "ab", "xyz"};
	int ul = k % 3 + 1;
	r = str_repeat(unit[ul - 1], N);
	mc_check("repeat-long", r && (int)strlen(r) == N * ul, "str_repeat of %d letters %d times", ul, N);
	for (int j = 0; j < N * ul; j++) mc_check("repeat-long", r[j] == unit[ul - 1][j % ul], "str_repeat of %d letters %d times wrong at %d", ul, N, j);
	mc_obs("%d", N);
	CASE_END();
}
static int64_t itoa_value(uint64_t i) {
	if (i < 40001) return (int64_t)i - 20000;
	i -= 40001;
	int d = (int)(i % 5) - 2, neg = (i / 5) % 2;
	i /= 10;
	uint64_t v = 1;
	if (i < 19) { while (i--) v *= 10; } else { i -= 19; v = (uint64_t)1 << i; }
	v += d;
	if (v > (uint64_t)INT64_MAX) v = INT64_MAX;
	return neg ? -(int64_t)v : (int64_t)v;
}
static void itoa_case(uint64_t i, void *arg) {
	(void)arg;
	char want[32];
	int64_t v = itoa_value(i);
	sprintf(want, "%lld", (long long)v);
	char *r = str_itoa(v);
	mc_check("itoa", r && !strcmp(r, want), "str_itoa(%s) = \"%s\"", want, r);
	mc_obs("%d", (int)strlen(want));
}
static int scmp_calls, scmp_tag;
typedef struct { unsigned char key; unsigned char pad[11]; } el12;
static int scmp(const void *a, const void *b, void *u) { if (u == &scmp_tag) scmp_calls++; return (int)*(unsigned char *)a - (int)*(unsigned char *)b; }
static int scmp_rev(const void *a, const void *b, void *u) { return -scmp(a, b, u); }
static void sort_check(unsigned char *keys, int n, int es, int rev) {
	unsigned char *d = malloc(n * es ? n * es : 1), cnt[256] = {0}, seen[300] = {0};
	for (int k = 0; k < n; k++) { cnt[keys[k]]++; for (int b = 0; b < es; b++) d[k * es + b] = b == 0 ? keys[k] : b == 1 ? k : (keys[k] * 7 + k * 13 + b); }
	scmp_calls = 0;
	memsort(d, n, es, rev ? scmp_rev : scmp, &scmp_tag);
	for (int k = 0; k < n; k++) {
		unsigned char key = d[k * es];
		if (k) mc_check("sort-order", rev ? d[(k - 1) * es] >= key : d[(k - 1) * es] <= key, "memsort of %d elements of %d bytes is not sorted at %d", n, es, k);
		mc_check("sort-perm", cnt[key]-- > 0, "memsort result of %d elements is no permutation of the input", n);
		if (es > 1) {
			int id = d[k * es + 1];
			mc_check("sort-elem", id < n && !seen[id] && keys[id] == key, "memsort tore or duplicated element %d (size %d)", k, es);
			seen[id] = 1;
			for (int b = 2; b < es; b++) mc_check("sort-tear", d[k * es + b] == (unsigned char)(key * 7 + id * 13 + b), "memsort tore element %d (size %d)", k, es);
		}
	}
	if (n > 1) mc_check("sort-arg", scmp_calls > 0, "the comparison did not get its user argument");
	free(d);
}
static void sort_case(uint64_t i, void *arg) {
	static const int ess[] = {1, 2, 4, 8, 12};
	(void)arg;
	unsigned char k[8];
	int rev = take(&i, 2), es = ess[take(&i, 5)], n = take(&i, 8);
	for (int j = 0; j < n; j++) k[j] = take(&i, 5);
	if (i) mc_skip();
	sort_check(k, n, es, rev);
	mc_obs("%d", n);
}
static void sort_big_case(uint64_t i, void *arg) {   /* families that reach every gap */
	(void)arg;
	unsigned char k[256];
	int fam = take(&i, 5), n = 8 + take(&i, 240), p = i % 64;
	for (int j = 0; j < n; j++)
		k[j] = fam == 0 ? n - 1 - j : fam == 1 ? (j + p) % n : fam == 2 ? (j < p ? 1 : 0) : fam == 3 ? (j * (2 * p + 1)) % n : j;
	if (fam == 4) { int a = p % n, b = (p * 5 + n / 2) % n; unsigned char t = k[a]; k[a] = k[b]; k[b] = t; }
	sort_check(k, n, 4, p & 1);
}
static void path_case(uint64_t i, void *arg) {
	char sb[16], t1[16], t2[16], t3[16];
	(void)arg;
	CASE_BEGIN();
	int n = str_nth(i + 1, "a./b", 4, sb);
	if (sb[n - 1] == '/') mc_skip();                /* names a directory: nothing to split off */
	mc_note("pathinfo \"%s\"\n", sb);
	char *s = hdup(sb);
	/* definitions, by hand */
	char *sl = strrchr(sb, '/');
	const char *fn = sl ? sl + 1 : sb;
	char dn[16];
	if (!sl) strcpy(dn, ".");
	else { int e = sl - sb; while (e > 0 && sb[e - 1] == '/') e--; if (e == 0) { e = (sb[0] == '/' && sb[1] == '/' && fn == sb + 2) ? 1 : 1; } memcpy(dn, sb, e); dn[e] = 0; }
	const char *b = strrchr(dn, '/');
	b = b ? b + 1 : dn;      /* GNU basename: the root has no name */
	const char *dot = strrchr(fn, '.');
	fileinfo_t *f = pathinfo(s);
	(void)t1; (void)t2; (void)t3;
	mc_check("path-file", f && !strcmp(f->filename, fn), "pathinfo(\"%s\") filename \"%s\", want \"%s\"", sb, f->filename, fn);
	mc_check("path-dir", !strcmp(f->dirname, dn) || (sb[0] == '/' && sb[1] == '/' && !strcmp(f->dirname, "//")), "pathinfo(\"%s\") dirname \"%s\", want \"%s\"", sb, f->dirname, dn);
	mc_check("path-base", !strcmp(f->base, b), "pathinfo(\"%s\") base \"%s\", want \"%s\"", sb, f->base, b);
	if (dot) mc_check("path-ext", f->extension && !strcmp(f->extension, dot + 1), "pathinfo(\"%s\") extension \"%s\", want \"%s\"", sb, f->extension ? f->extension : "(null)", dot + 1);
	else mc_check("path-ext", f->extension == NULL, "pathinfo(\"%s\") has extension \"%s\"", sb, f->extension);
	mc_obs("%s|%s|%s", dn, b, dot ? dot : "-");
	free(s);
	CASE_END();
}
static void printf_case(uint64_t i, void *arg) {
	(void)arg;
	CASE_BEGIN();
	int n = 1 + i, c = -5;
	char *w = calloc(1, n + 1);
	memset(w, 'x', n);
	char *r = mem_printf(&c, "%s%c%d", w, ':', 42);
	mc_check("mem_printf", r && c == n + 3 && !strncmp(r, w, n) && !strcmp(r + n, ":42"), "mem_printf of %d characters gave %d", n + 3, c);
	free(w);
	CASE_END();
}

/* ---------------------------------------------------------------- T03 */
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int ref_enc(const unsigned char *s, int n, char *out) {
	int o = 0;
	for (int i = 0; i < n; i += 3) {
		unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
		out[o++] = B64[v >> 18]; out[o++] = B64[v >> 12 & 63];
		out[o++] = i + 1 < n ? B64[v >> 6 & 63] : '='; out[o++] = i + 2 < n ? B64[v & 63] : '=';
	}
	out[o] = 0;
	return o;
}
static void b64_check(const char *raw, int n) {
	static char want[8192];
	int w = ref_enc((const unsigned char *)raw, n, want);
	char *src = hdup(raw);
	for (int room = w - 1; room <= w + 2; room++) {
		if (room < 1) continue;
		char *dst = malloc(room);
		char *r = str_encode64(src, dst, room);
		if (room < w + 1) mc_check("enc-bound", r == NULL, "encoding %d bytes into %d accepted", n, room);
		else if (n == 0) mc_check("enc-empty", r == NULL, "encoding nothing gave a result");
		else mc_check("enc", r == dst && !strcmp(r, want), "encoding of %d bytes (%02x..) = \"%s\", want \"%s\"", n, (unsigned char)raw[0], r ? r : "(null)", want);
		free(dst);
	}
	if (n) {
		char *e = hdup(want);
		mc_check("is64", str_is_base64(e), "\"%s\" not recognised", want);
		int need = n + 1, big = ((w + 2) / 3) * 4 + 1, step = big < 64 ? 3 : big / 16;
		for (int room = 1; room <= big + 1; room += (room == need - 1 || room >= big - 1 || room < 3) ? 1 : room < need - 1 && room + step > need - 1 ? need - 1 - room : room < big - 1 && room + step > big - 1 ? big - 1 - room : step) {
			char *d = malloc(room);
			char *r = str_decode64(e, d, room);
			if (room < need) mc_check("dec-bound", r == NULL, "decoding %d bytes into %d accepted", n, room);
			else if (r) mc_check("dec", r == d && !strcmp(r, raw), "decoding \"%s\" does not give the original back", want);
			else mc_check("dec-room", room < big, "decoding \"%s\" refused with %d bytes of room", want, room);
			free(d);
		}
		free(e);
	}
	free(src);
}
static const char b64_al[] = "\x01\x41\x7f\x80\xbf\xfb\xff";
static void b64_short_case(uint64_t i, void *arg) {     /* every text of 0..2 bytes; 3 bytes over arg values */
	char b[4] = {0};
	(void)arg;
	if (i == 0) { b64_check("", 0); return; }
	i--;
	if (i < 255) { b[0] = i + 1; b64_check(b, 1); return; }
	i -= 255;
	if (i < 255 * 255) { b[0] = i % 255 + 1; b[1] = i / 255 + 1; b64_check(b, 2); return; }
	i -= 255 * 255;
	for (int k = 0; k < 3; k++) { int st = MC_THOROUGH ? 3 : 8; int m = 255 / st; b[k] = (i % m) * st + 1 + k; i /= m; }
	b64_check(b, 3);
}
static void b64_long_case(uint64_t i, void *arg) {
	char b[16];
	(void)arg;
	int n = str_nth(i, b64_al, 7, b);
	b64_check(b, n);
	mc_obs("%d", n);
}
static void b64_scale_case(uint64_t i, void *arg) {
	static char b[5000];
	(void)arg;
	int kind = take(&i, 6), n = scale_len(i);
	for (int k = 0; k < n; k++) b[k] = kind < 4 ? "\x01\x41\xff\xfb"[kind] : kind == 4 ? k % 255 + 1 : (k * 37 + k / 7) % 255 + 1;
	b[n] = 0;
	b64_check(b, n);
	mc_obs("%d", n);
}
static void b64_text_case(uint64_t i, void *arg) {     /* arbitrary texts over the alphabet, padding and junk */
	char b[16], raw[16];
	(void)arg;
	int n = str_nth(i, "Ab/=!", 5, b), ok = n > 0, pad = 0, std;
	for (int k = 0; k < n; k++) if (b[k] == '!') ok = 0;
	mc_note("text \"%s\"\n", b);
	char *s = hdup(b);
	mc_check("is64", str_is_base64(s) == ok, "str_is_base64(\"%s\") is %d", b, !ok);
	/* standard form: length multiple of four, at most two pads, only at the end */
	while (pad < n && b[n - 1 - pad] == '=') pad++;
	std = ok && n % 4 == 0 && pad <= 2;
	for (int k = 0; k < n - pad; k++) if (b[k] == '=') std = 0;
	int o = 0;
	if (std) for (int k = 0; k < n; k += 4) {
		unsigned v = 0;
		for (int j = 0; j < 4; j++) { const char *q = strchr(B64, b[k + j]); v = v << 6 | (b[k + j] == '=' ? 0 : q - B64); }
		raw[o++] = v >> 16; raw[o++] = v >> 8; raw[o++] = v;
	}
	if (std) { o -= pad; raw[o] = 0; }
	int big = ((n + 2) / 3) * 4 + 1;
	for (int room = big; room <= big + 1; room++) {
		char *d = malloc(room);
		memset(d, '#', room);
		char *r = str_decode64(s, d, room);
		if (!ok || n % 4) mc_check("dec-junk", r == NULL, "decoding \"%s\" accepted", b);
		if (std) mc_check("dec", r == d && !memcmp(d, raw, o + 1), "decoding \"%s\" wrong", b);
		if (r) { int k = 0; while (k < room && d[k]) k++; mc_check("dec-term", k < room, "decoded text is not terminated"); }
		free(d);
	}
	mc_obs("%d%d%d", ok, std, o);
	free(s);
}

int main(int argc, char **argv) {
	const char *p = "T01";
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--property")) p = argv[i + 1];
	mc_init(argc, argv, p);
	mc_opt o = {0};
	bool th = MC_THOROUGH;
	scope_init();
	events_set_allocator(malloc, realloc, calloc, free);
	if (!strcmp(p, "T01")) {
		n_sub = str_space(3, th ? 8 : 6);
		n_pat = str_space(3, th ? 4 : 3);
		mc_enum("search", (uint64_t)n_sub * n_pat, search_case, NULL, o);
		mc_enum("split", (uint64_t)n_sub * n_pat, split_case, NULL, o);
		mc_enum("split-many", 300, split_big_case, NULL, o);
		n_sub = str_space(3, th ? 7 : 6);
		n_pat = str_space(3, 3);
		mc_enum("replace", (uint64_t)7 * n_sub * n_pat, swap_case, NULL, o);
		two_s = th ? 13 : 11; two_p = 8;
		mc_enum("search-two", str_space(2, two_s) * str_space(2, two_p), search_two_case, NULL, o);
		two_s = th ? 11 : 9; two_p = 6;
		mc_enum("split-two", str_space(2, two_s) * str_space(2, two_p), search_two_case, &two_s, o);
		mc_enum("scale", (uint64_t)6 * 7 * 7 * 2 * NSCALE, scale_case, NULL, o);
		mc_enum("concat-scale", NSCALE * 8, cat_long_case, NULL, o);
		mc_enum("concat", 5 * 625, cat_case, NULL, o);
		mc_enum("join", 36 * 36 * 36, join_case, NULL, o);
		mc_enum("either", str_space(3, 5) * 3 * 27 * 27, either_case, NULL, o);
	} else if (!strcmp(p, "T02")) {
		mc_enum("trim", str_space(4, th ? 9 : 7), trim_case, NULL, o);
		mc_enum("trim-bytes", 255, trimchars_case, NULL, o);
		mc_enum("copy", str_space(2, 5) * 6 * 8, copy_case, NULL, o);
		mc_enum("compare", str_space(7, 3) * str_space(7, 3) * 5, compare_case, NULL, o);
		mc_enum("case", 255 * 4, case_case, NULL, o);
		mc_enum("repeat", 40 * str_space(2, th ? 9 : 7), repeat_case, NULL, o);
		mc_enum("pad", 4 * 26 * 5 * str_space(2, 5), pad_case, NULL, o);
		mc_enum("scale", (uint64_t)NSCALE * 40, scale2_case, NULL, o);
		mc_enum("itoa", 40001 + 10 * (19 + 63), itoa_case, NULL, o);
		mc_enum("sort", (uint64_t)80 * (th ? 78125 : 15625), sort_case, NULL, o);
		mc_enum("sort-gaps", 5 * 240 * 64, sort_big_case, NULL, o);
		mc_enum("path", str_space(4, th ? 9 : 7) - 1, path_case, NULL, o);
		mc_enum("printf", 300, printf_case, NULL, o);
	} else {
		int m = 255 / (th ? 3 : 8);
		mc_enum("b64-short", 256 + 255 * 255 + (uint64_t)m * m * m, b64_short_case, NULL, o);
		mc_enum("b64-long", str_space(7, th ? 7 : 6), b64_long_case, NULL, o);
		mc_enum("b64-scale", 6 * NSCALE, b64_scale_case, NULL, o);
		mc_enum("b64-text", str_space(5, th ? 9 : 8), b64_text_case, NULL, o);
	}
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
