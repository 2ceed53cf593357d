/* A01, A02: arrays, tuples and ranges against a plain sequence, all operation histories up to a depth. */
#include "events_internal.h"
#include "common.h"
#include "defers.h"

enum { K_PTR, K_DOUBLE, K_LL, K_SIZE, K_FUNC, K_SHORT, K_BOOL, K_CHAR, K_STR, K_KINDS };
typedef struct { int kind; long long v; } mval_t;
typedef struct { int n; mval_t e[512]; } model_t;

static const char *texts[4] = {"zero", "one", "two", "three"};
static void *fn_a(void *p) { return p; }
static void *fn_b(void *p) { (void)p; return NULL; }
static mval_t val_of(int kind, int c) {
	mval_t m = {kind, 0};
	switch (kind) {
		case K_PTR: m.v = 0x1111000000000000ll + c; break;
		case K_DOUBLE: m.v = c * 3 - 7; break;
		case K_LL: m.v = -0x7000000000000000ll + c; break;
		case K_SIZE: m.v = (long long)(0xf000000000000000ull + c); break;
		case K_FUNC: m.v = c & 1; break;
		case K_SHORT: m.v = -30000 + c; break;
		case K_BOOL: m.v = c & 1; break;
		case K_CHAR: m.v = (c * 37) % 256 - 128; break;
		case K_STR: m.v = c & 3; break;
	}
	return m;
}
static array_t put(array_t a, mval_t m) {
	switch (m.kind) {
		case K_PTR: $append(a, m.v); break;
		case K_DOUBLE: $append_double(a, (double)m.v + 0.25); break;
		case K_LL: $append_signed(a, m.v); break;
		case K_SIZE: $append_unsigned(a, m.v); break;
		case K_FUNC: $append_func(a, m.v ? fn_a : fn_b); break;
		case K_SHORT: $append_short(a, m.v); break;
		case K_BOOL: $append_bool(a, m.v); break;
		case K_CHAR: $append_char(a, m.v); break;
		case K_STR: $append_string(a, texts[m.v]); break;
	}
	return a;
}
static bool same(values_t v, mval_t m) {
	switch (m.kind) {
		case K_PTR: return (long long)v.object == m.v && v.long_long == m.v && (long long)v.max_size == m.v;
		case K_DOUBLE: return v.precision == (double)m.v + 0.25;
		case K_LL: return v.long_long == m.v;
		case K_SIZE: return v.max_size == (size_t)m.v;
		case K_FUNC: return v.func == (m.v ? fn_a : fn_b);
		case K_SHORT: return v.s_short == (short)m.v;
		case K_BOOL: return v.boolean == (m.v != 0);
		case K_CHAR: return v.schar == (signed char)m.v;
		case K_STR: return v.char_ptr == texts[m.v];
	}
	return false;
}
static void equal(array_t a, const model_t *m, const char *when) {
	int k = 0, b = m->n;
	mc_check("size", (int)$size(a) == m->n, "%s: size is %d, %d elements were put in", when, (int)$size(a), m->n);
	mc_check("capacity", $capacity(a) >= $size(a), "%s: %d elements in a capacity of %d", when, (int)$size(a), (int)$capacity(a));
	for (int i = 0; i < m->n; i++) mc_check("value", same(a[i], m->e[i]), "%s: element %d of %d is not the value put there", when, i, m->n);
	if (!a) return;
	foreach (x in a) { mc_check("foreach", k < m->n && ix == k && same(x, m->e[k]), "%s: foreach step %d", when, k); k++; }
	mc_check("foreach-n", k == m->n, "%s: foreach made %d steps over %d elements", when, k, m->n);
	foreach_back (y in a) { b--; mc_check("foreach-back", b >= 0 && iy == b && same(y, m->e[b]), "%s: backward step to %d", when, b); }
	mc_check("foreach-back-n", b == 0, "%s: backward iteration stopped at %d", when, b);
}
static void m_remove(model_t *m, int i) { for (int k = i; k + 1 < m->n; k++) m->e[k] = m->e[k + 1]; m->n--; }

static const char *opn[] = {"append", "append_item", "pop", "shift", "remove 0", "remove 1", "remove last", "remove past the end", "remove middle", "reset", "reserve more", "copy"};
#define NOPS 12
static array_t starts(int k, model_t *m, int *ctr) {
	mval_t v[4];
	m->n = 0;
	if (k == 0) return NULL;
	for (int i = 0; i < 4; i++) v[i] = val_of(K_PTR, i);
	for (int i = 0; i < k - 1; i++) m->e[m->n++] = v[i];
	*ctr = k;
	switch (k) {
		case 1: return array();
		case 2: return arrays(1, (void *)v[0].v);
		case 3: return arrays(2, (void *)v[0].v, (void *)v[1].v);
		case 4: return arrays(3, (void *)v[0].v, (void *)v[1].v, (void *)v[2].v);
		default: return arrays(4, (void *)v[0].v, (void *)v[1].v, (void *)v[2].v, (void *)v[3].v);
	}
}
static array_t step(int op, array_t a, model_t *m, int *ctr) {
	values_t got;
	switch (op) {
		case 0: m->e[m->n++] = val_of(K_PTR, ++*ctr); return put(a, m->e[m->n - 1]);
		case 1: ++*ctr; m->e[m->n++] = val_of(1 + *ctr % (K_KINDS - 1), *ctr); return put(a, m->e[m->n - 1]);
		case 2:
			got = $pop(a);
			if (m->n) { mc_check("pop", same(got, m->e[m->n - 1]), "pop did not give the last element"); m->n--; }
			else mc_check("pop-empty", !got.object, "pop from an empty array gave something");
			return a;
		case 3:
			got = $shift(a);
			if (m->n) { mc_check("shift", same(got, m->e[0]), "shift did not give the first element"); m_remove(m, 0); }
			else mc_check("shift-empty", !got.object, "shift from an empty array gave something");
			return a;
		case 4: $remove(a, 0); if (m->n > 0) m_remove(m, 0); return a;
		case 5: $remove(a, 1); if (m->n > 1) m_remove(m, 1); return a;
		case 6: if (m->n) { $remove(a, m->n - 1); m_remove(m, m->n - 1); } return a;
		case 7: $remove(a, m->n); $remove(a, m->n + 1); $remove(a, (size_t)-1); return a;
		case 8: if (m->n > 2) { $remove(a, m->n / 2); m_remove(m, m->n / 2); } return a;
		case 9: mc_check("reset", $reset(a) == a, "reset gave another array"); m->n = 0; return a;
		case 10: {
			size_t want = $capacity(a) + 1;
			if (!a) return a;
			$reserve(a, want);
			mc_check("reserve", $capacity(a) >= want, "reserving %d leaves a capacity of %d", (int)want, (int)$capacity(a));
			$reserve(a, 1); $reserve(a, 0);
			mc_check("reserve-shrink", $capacity(a) >= want, "reserving less shrank the array");
			return a;
		}
		case 11: {
			model_t mine = *m;
			array_t c = $copy(NULL, a);
			if (!a) { mc_check("copy-null", c == NULL, "copy of nothing is not nothing"); return a; }
			mc_check("copy-same", c && c != a, "copy returned the original");
			equal(c, &mine, "copy");
			mval_t v = val_of(K_PTR, 900 + ++*ctr);
			a = put(a, v); m->e[m->n++] = v;          /* change the original ... */
			equal(c, &mine, "copy after the original changed");
			v = val_of(K_LL, 901);
			c = put(c, v); mine.e[mine.n++] = v;      /* ... then the copy */
			if (mine.n > 1) { $remove(c, 0); m_remove(&mine, 0); c[0] = c[0]; }
			equal(c, &mine, "changed copy");
			$delete(c);
			return a;
		}
	}
	return a;
}
static int depth;
static void hist_case(uint64_t i, void *arg) {
	static model_t m;
	int ctr = 0;
	(void)arg;
	ndfr = 0;
	int s = take(&i, 6);
	array_t a = starts(s, &m, &ctr);
	mc_note("array(%d):", s - 1);
	equal(a, &m, "start");
	for (int d = 0; d < depth; d++) {
		int op = take(&i, NOPS);
		mc_note(" %s;", opn[op]);
		a = step(op, a, &m, &ctr);
		equal(a, &m, opn[op]);
		if (a) mc_check("is-data", is_data(a) , "an array is not recognised as one");
	}
	mc_obs("%d", m.n);
	if (a) $delete(a);
	run_defers();
}
static array_t via_list(size_t n, ...) { va_list ap; va_start(ap, n); array_t r = data_ex(n, ap); va_end(ap); return r; }
static void many_case(uint64_t i, void *arg) {
	static model_t m;
	int ctr = 0;
	(void)arg;
	ndfr = 0;
	if (i >= 1200) {      /* lists of arguments */
		int n = i - 1200;
		void *v[6] = {0};
		m.n = 0;
		for (int k = 0; k < n; k++) { m.e[m.n++] = val_of(K_PTR, k); v[k] = (void *)m.e[k].v; }
		array_t a = via_list(n, v[0], v[1], v[2], v[3], v[4], v[5]);
		if (n == 0) mc_check("list-0", a == NULL, "no arguments give no list");
		equal(a, &m, "argument list");
		if (a) $delete(a);
		run_defers();
		return;
	}
	int s = i % 6, n = i / 6;
	mc_note("array(%d) and %d appends", s - 1, n);
	array_t a = starts(s, &m, &ctr);
	for (int k = 0; k < n; k++) a = step(k % 3 == 2, a, &m, &ctr);
	equal(a, &m, "many appends");
	for (int k = 0; k < n; k++) { a = step(k % 2 ? 2 : 3, a, &m, &ctr); if (k % 7 == 0) equal(a, &m, "draining"); }
	mc_obs("%d", n);
	if (a) $delete(a);
	run_defers();
}
static void range_case(uint64_t i, void *arg) {
	int start, stop, stepv, n = 0;
	(void)arg;
	ndfr = 0;
	start = (int)take(&i, 17) - 8; stop = (int)take(&i, 90) - 12; stepv = take(&i, 7);   /* 0: range() */
	mc_note("range %d..%d step %d", start, stop, stepv);
	array_t a = stepv ? rangeing(start, stop, stepv) : range(start, stop);
	for (int v = start; v < stop; v += stepv ? stepv : 1) {
		mc_check("range-size", n < (int)$size(a), "range(%d,%d,%d) ends after %d elements", start, stop, stepv, n);
		mc_check("range-value", a[n].integer == v && a[n].long_long == v, "range(%d,%d,%d)[%d] is %d", start, stop, stepv, n, a[n].integer);
		n++;
	}
	mc_check("range-len", (int)$size(a) == n, "range(%d,%d,%d) has %d elements, not %d", start, stop, stepv, (int)$size(a), n);
	mc_check("range-data", is_data(a), "a range is not recognised");
	n = 0;
	foreach (x in a) { mc_check("range-foreach", x.integer == start + ix * (stepv ? stepv : 1), "foreach over a range"); n++; }
	array_t c = $copy(NULL, a);
	mc_check("range-copy", (int)$size(c) == n && is_data(c), "copy of a range");
	for (int k = 0; k < n; k++) mc_check("range-copy-v", c[k].long_long == a[k].long_long, "copy of a range differs at %d", k);
	$delete(c);
	mc_obs("%d", n);
	run_defers();
}
static void rchar_case(uint64_t i, void *arg) {
	char b[16];
	(void)arg;
	ndfr = 0;
	int n = str_nth(i, "az \xff\x80", 5, b);
	mc_note("text \"%s\"", b);
	char *s = hdup(b);
	array_t a = range_char(s);
	mc_check("rc-size", (int)$size(a) == n, "range of %d characters has %d elements", n, (int)$size(a));
	for (int k = 0; k < n; k++) mc_check("rc-value", a[k].schar == (signed char)b[k] && a[k].uchar == (unsigned char)b[k], "character %d", k);
	mc_check("rc-data", is_data(a), "a character range is not recognised");
	mc_check("rc-src", !strcmp(s, b), "the text was changed");
	mc_obs("%d", n);
	free(s);
	run_defers();
}

/* ---------------------------------------------------------------- A02 */
static int attempt(int op, array_t a, const model_t *m) {
	volatile int r = 0;
	try {
		switch (op) {
			case 0: data_append(a, (void *)77); break;
			case 1: data_append_item(a, DATA_LLONG, (int64_t)7); break;
			case 2: $pop(a); break;
			case 3: $shift(a); break;
			case 4: $remove(a, 0); break;
			case 5: $remove(a, m->n ? m->n - 1 : 0); break;
			case 6: $remove(a, m->n + 3); break;
			case 7: $reset(a); break;
			case 8: data_append_item(a, DATA_STRING, "x"); break;
		}
	} catch (logic_error) {
		r = 1;
	} catch_any {
		r = 2;
	}
	return r;
}
static const char *atn[] = {"append", "append_item", "pop", "shift", "remove 0", "remove last", "remove past the end", "reset", "append_string", "copy", "iterate", "reserve"};
static void tuple_case(uint64_t i, void *arg) {
	static model_t m;
	int ctr = 0;
	(void)arg;
	ndfr = 0;
	int s = 1 + take(&i, 5), pre = take(&i, 5), nat = take(&i, 2);
	array_t a = starts(s, &m, &ctr);
	static const int pres[5] = {-1, 0, 2, 10, 9};
	mc_note("array(%d) after %s, frozen:", s - 1, pres[pre] < 0 ? "nothing" : opn[pres[pre]]);
	if (pres[pre] >= 0) a = step(pres[pre], a, &m, &ctr);
	array_t t = $tuple(a);
	mc_check("tuple", t == a, "freezing gave another array");
	if (nat) {                                          /* a copy of a tuple is a tuple */
		t = $copy(NULL, a);
		mc_note(" copied;");
		mc_check("tuple-copy", t != a, "copy is the original");
	}
	for (int d = 0; d < depth; d++) {
		int op = take(&i, 12);
		mc_note(" %s;", atn[op]);
		if (op < 9) {
			int r = attempt(op, t, &m);
			mc_check("refuse", r == 1, "%s on a tuple of %d elements %s", atn[op], m.n, r ? "raised another exception" : "was not refused");
		} else if (op == 9) {
			array_t c = $copy(NULL, t);
			equal(c, &m, "copy of a tuple");
			mc_check("refuse-copy", attempt(0, c, &m) == 1, "the copy of a tuple can be changed");
			$delete(c);
		} else if (op == 11) {
			$reserve(t, $capacity(t) + 1);
		}
		equal(t, &m, "tuple");
		mc_check("tuple-data", is_data(t), "a tuple is not recognised");
	}
	if (nat) $delete(t);
	$delete(nat ? a : t);
	mc_obs("%d", m.n);
	run_defers();
}
static void thaw_case(uint64_t i, void *arg) {   /* arrays and ranges stay modifiable, tuples among them do not disturb */
	static model_t m, m2;
	int ctr = 0;
	(void)arg;
	ndfr = 0;
	int s = 1 + take(&i, 5), s2 = 1 + take(&i, 5);
	array_t a = starts(s, &m, &ctr), b = starts(s2, &m2, &ctr);
	array_t t = $tuple(b);
	mc_note("array(%d) beside tuple(%d):", s - 1, s2 - 1);
	for (int d = 0; d < depth; d++) {
		int op = take(&i, NOPS + 2);
		if (op < NOPS) { mc_note(" %s;", opn[op]); volatile array_t va = a; volatile int bad = 0; try { va = step(op, a, &m, &ctr); } catch_any { bad = 1; } a = va; mc_check("thaw", !bad, "%s on an array raised an exception", opn[op]); }
		else { mc_note(" tuple %s;", atn[op - NOPS]); mc_check("refuse", attempt(op - NOPS, t, &m2) == 1, "change of a tuple not refused"); }
		equal(a, &m, "array"); equal(t, &m2, "tuple");
	}
	$delete(a); $delete(t);
	mc_obs("%d %d", m.n, m2.n);
	run_defers();
}
static void null_case(uint64_t i, void *arg) {
	(void)arg;
	ndfr = 0;
	mc_note("query %d on nothing", (int)i);
	volatile int bad = 0;
	try {
		switch (i) {
			case 0: bad = $size(NULL) != 0; break;
			case 1: bad = $capacity(NULL) != 0; break;
			case 2: bad = $pop(NULL).object != NULL; break;
			case 3: bad = $shift(NULL).object != NULL; break;
			case 4: $remove(NULL, 0); $remove(NULL, 5); break;
			case 5: bad = $reset(NULL) != NULL; break;
			case 6: $delete(NULL); break;
			case 7: bad = is_data(NULL) || is_data((void *)1) || is_data((void *)4096) || is_data((void *)-1); break;
			case 8: bad = is_taskgroup(NULL) || is_waitgroup(NULL); break;
			case 9: bad = data_reserve(NULL, 3) != NULL; break;
			case 10: bad = data_value(NULL).object != NULL; break;
			case 11: bad = data_type(NULL) != DATA_INVALID; break;
			case 12: { data_values_ex v; v.value.long_long = 77; bad = data_value(&v).long_long != 77; break; }
			case 13: { data_t d = {DATA_PIPE, NULL}; bad = data_type(&d) != DATA_PIPE; break; }
			case 14: bad = is_data((void *)0x20000000) || is_ptr_usable((void *)77) || is_ptr_usable(NULL); break;
			case 15: bad = $copy(NULL, NULL) != NULL; break;
		}
	} catch_any { bad = 1; }
	mc_check("null", !bad, "query %d on nothing gives something", (int)i);
	run_defers();
}
static void query_case(uint64_t i, void *arg) {
	static const char *kind[] = {"array", "tuple", "range", "character range"};
	(void)arg;
	ndfr = 0;
	mc_note("%s", kind[i]);
	array_t a = i == 0 ? arrays(2, (void *)1, (void *)2) : i == 1 ? $tuple(arrays(1, (void *)4)) : i == 2 ? range(0, 3) : range_char("abc");
	mc_check("kinds", is_data(a), "a live %s is not recognised", kind[i]);
	if (i < 2) $delete(a);
	run_defers();
}

int main(int argc, char **argv) {
	const char *p = "A01";
	for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--property")) p = argv[i + 1];
	mc_init(argc, argv, p);
	mc_opt o = {0};
	bool th = MC_THOROUGH;
	scope_init();
	events_set_allocator(malloc, realloc, calloc, free);
	if (!strcmp(p, "A01")) {
		uint64_t n = 6;
		depth = th ? 7 : 6;
		for (int i = 0; i < depth; i++) n *= NOPS;
		mc_enum("histories", n, hist_case, NULL, o);
		mc_enum("many", 1206, many_case, NULL, o);
		mc_enum("ranges", 17 * 90 * 7, range_case, NULL, o);
		mc_enum("range-char", str_space(5, 7), rchar_case, NULL, o);
	} else {
		uint64_t n = 50, n2 = 25;
		depth = th ? 5 : 4;
		for (int i = 0; i < depth; i++) n *= 12, n2 *= NOPS + 2;
		mc_enum("tuples", n, tuple_case, NULL, o);
		mc_enum("beside", n2, thaw_case, NULL, o);
		mc_enum("nothing", 16, null_case, NULL, o);
		mc_enum("kinds", 4, query_case, NULL, o);
	}
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
