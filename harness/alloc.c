/* M01: the allocator on one thread: all short operation histories against a model of live blocks. */
#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <sys/mman.h>
#include <unistd.h>
#include "rpmalloc.h"
#include "mc.h"

/* what the allocator holds from the system */
static size_t mapped;
static bool full;                  /* the system gives nothing any more */
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
	if (full) { errno = ENOMEM; return MAP_FAILED; }
	void *r = __real_mmap(a, n, p, f, fd, o);
	if (r != MAP_FAILED) mapped += n;
	return r;
}
int __wrap_munmap(void *a, size_t n) { mapped -= n; return __real_munmap(a, n); }

#define MAXB 1200
typedef struct { unsigned char *p; size_t n, use, align; unsigned char tag; } blk;
static blk B[MAXB];
static int nb;
static unsigned char tags;
/* every byte of a small block, some of every page and the last ones of a large one */
#define EACH(i, n) for (size_t i = 0; i < (n); i = i < 2100 || (i & 4095) < 15 ? i + 1 : (i | 4095) + 1)
#define VALUE(i) ((unsigned char)(b->tag + (i) * 7 + ((i) >> 8)))
static void fill(blk *b, size_t from) {
	EACH(i, b->use) if (i >= from) b->p[i] = VALUE(i);
	for (size_t i = b->use > 40 ? b->use - 40 : 0; i < b->use; i++) b->p[i] = VALUE(i);
	for (size_t i = b->n > 40 ? b->n - 40 : 0; i < b->n; i++) b->p[i] = VALUE(i);
}
static void wrong(blk *b, size_t i, const char *when) { mc_fail("content", "%s: byte %zu of a live block of %zu bytes changed", when, i, b->n); }
static void intact(blk *b, size_t n, const char *when) {
	EACH(i, n) if (b->p[i] != VALUE(i)) wrong(b, i, when);
	if (n == b->use) for (size_t i = b->use > 40 ? b->use - 40 : 0; i < b->use; i++) if (b->p[i] != VALUE(i)) wrong(b, i, when);
	if (n >= b->n) for (size_t i = b->n > 40 ? b->n - 40 : 0; i < b->n; i++) if (b->p[i] != VALUE(i)) wrong(b, i, when);
}
static bool by_usable = true;
static blk *born(void *p, size_t n, size_t align, const char *what) {
	if (!p) mc_fail("refused", "%s of %zu bytes, alignment %zu, gives nothing", what, n, align);
	blk *b = &B[nb];
	b->p = p; b->n = n; b->align = align; b->tag = tags += 37;
	if ((uintptr_t)p & (align - 1)) mc_fail("alignment", "%s of %zu bytes, alignment %zu, gives %p", what, n, align, p);
	b->use = rpmalloc_usable_size(p);
	if (b->use < n) mc_fail("usable", "%s of %zu bytes counts %zu usable ones", what, n, b->use);
	for (int i = 0; i < nb; i++) if (b->p < B[i].p + B[i].use && B[i].p < b->p + b->use) mc_fail("overlap", "%s of %zu bytes overlaps a live block of %zu", what, n, B[i].n);
	if (!by_usable) b->use = n;
	nb++;
	return b;
}
static void gone(int i) { B[i] = B[--nb]; }
static void zeroed(void *p, size_t n) { EACH(i, n) if (((unsigned char *)p)[i]) mc_fail("zero", "byte %zu of %zu zeroed ones is %d", i, n, ((unsigned char *)p)[i]); }
static void do_malloc(size_t n) { mc_note(" malloc(%zu)", n); fill(born(rpmalloc(n), n, 16, "malloc"), 0); }
static void do_calloc(size_t k, size_t n) { mc_note(" calloc(%zu,%zu)", k, n); void *p = rpcalloc(k, n); blk *b = born(p, k * n, 16, "calloc"); zeroed(p, k * n); fill(b, 0); }
static void do_aligned(size_t al, size_t n) {
	mc_note(" aligned(%zu,%zu)", al, n);
	void *p;
	blk *b;
	switch ((al + n) % 3) {
		case 0: b = born(rpaligned_alloc(al, n), n, al, "aligned_alloc"); break;
		case 1: b = born(rpmemalign(al, n), n, al, "memalign"); break;
		default: { int e = rpposix_memalign(&p, al, n); if (e) mc_fail("refused", "posix_memalign(%zu, %zu) gives %d", al, n, e); b = born(p, n, al, "posix_memalign"); }
	}
	fill(b, 0);
}
static void do_acalloc(size_t al, size_t k, size_t n) { mc_note(" aligned_calloc(%zu,%zu,%zu)", al, k, n); void *p = rpaligned_calloc(al, k, n); blk *b = born(p, k * n, al, "aligned_calloc"); zeroed(p, k * n); fill(b, 0); }
static void do_realloc(int i, size_t n) {
	blk o = B[i];
	mc_note(" realloc(#%d,%zu)", i, n);
	intact(&o, o.use, "before resizing");
	gone(i);
	void *p = rprealloc(o.p, n);
	blk *b = born(p, n, 16, "realloc");
	blk c = o;
	c.p = b->p;
	intact(&c, o.n < n ? o.n : n, "resizing");
	fill(b, 0);
}
static void do_arealloc(int i, size_t al, size_t n, unsigned fl) {
	blk o = B[i];
	mc_note(" aligned_realloc(#%d,%zu,%zu,flags %u)", i, al, n, fl);
	void *p = rpaligned_realloc(o.p, al, n, o.n, fl);
	if (!p && (fl & RPMALLOC_GROW_OR_FAIL)) { intact(&B[i], B[i].use, "a resize that failed"); return; }
	gone(i);
	blk *b = born(p, n, fl & RPMALLOC_GROW_OR_FAIL ? 16 : al, "aligned_realloc");
	blk c = o;
	c.p = b->p;
	if (!(fl & RPMALLOC_NO_PRESERVE)) intact(&c, o.n < n ? o.n : n, "resizing");
	fill(b, 0);
}
static void do_free(int i) { mc_note(" free(#%d)", i); intact(&B[i], B[i].use, "before its release"); rpfree(B[i].p); gone(i); }
static bool warm;                 /* the allocator goes on from case to case */
static void begin(void) { nb = 0; tags = 0; full = false; if (!warm) mapped = 0; rpmalloc_initialize(); }
static void end(void) {
	for (int i = 0; i < nb; i++) intact(&B[i], B[i].use, "at the end");
	while (nb) { int i = nb > 2 ? nb / 2 : 0; rpfree(B[i].p); gone(i); }
	if (warm) return;
	rpmalloc_finalize();
	if (mapped) mc_fail("leak", "%zu bytes are not given back", mapped);
	mc_note("\n");
}

/* ---- histories */
#define MEDIUM_MAX 32256
#define LARGE_MAX (63 * 65536 - 128)
static const size_t Z[] = {0, 1, 16, 17, 1024, 1025, 21760, MEDIUM_MAX, MEDIUM_MAX + 1, 65408, 65409, 3 * 65536, LARGE_MAX, LARGE_MAX + 1};
static const size_t AL[] = {16, 32, 128, 512, 4096, 8192, 32768}, AZ[] = {1, 129, 5000, 40000, 70000};
enum { NZ = sizeof Z / sizeof *Z, NAL = sizeof AL / sizeof *AL, NAZ = sizeof AZ / sizeof *AZ };
enum { W = NZ + 6 + NAL * NAZ + 3 + 2 * NZ + 3 * NAZ + 4 };
static const int RC[6] = {1, 3, 5, 8, 11, 13};
static bool wide(unsigned o) {
	if (o < NZ) { do_malloc(Z[o]); return true; } o -= NZ;
	if (o < 6) { size_t n = Z[RC[o]]; if (n % 3 == 0) do_calloc(n / 3, 3); else do_calloc(1, n); return true; } o -= 6;
	if (o < NAL * NAZ) { do_aligned(AL[o / NAZ], AZ[o % NAZ]); return true; } o -= NAL * NAZ;
	if (!nb) return false;
	if (o < 3) { if (o == 1 && nb < 2) return false; if (o == 2 && nb < 3) return false; do_free(o == 0 ? nb - 1 : o == 1 ? 0 : 1); return true; } o -= 3;
	if (o < 2 * NZ) { if (o >= NZ && nb < 2) return false; do_realloc(o < NZ ? nb - 1 : 0, Z[o % NZ]); return true; } o -= 2 * NZ;
	if (o < 3 * NAZ) { static const size_t al[3] = {32, 4096, 32768}; do_arealloc(nb - 1, al[o / NAZ], AZ[o % NAZ], 0); return true; } o -= 3 * NAZ;
	switch (o) {
		case 0: do_arealloc(0, 64, 2 * B[0].n, RPMALLOC_GROW_OR_FAIL); break;
		case 1: do_arealloc(0, 64, B[0].n / 2 + 1, RPMALLOC_GROW_OR_FAIL); break;
		case 2: do_arealloc(0, 256, B[0].n + 1, RPMALLOC_NO_PRESERVE); break;
		case 3: do_acalloc(128, 7, B[0].n / 7 + 1); break;
	}
	return true;
}
static int depth;
static bool wide_possible(uint64_t i) {
	int n = 0;
	for (int d = 0; d < depth; d++, i /= W) {
		unsigned o = i % W;
		if (o < NZ + 6 + NAL * NAZ) { n++; continue; }
		o -= NZ + 6 + NAL * NAZ;
		if (!n) return false;
		if (o < 3) { if ((int)o >= n) return false; n--; continue; }
		o -= 3;
		if (o < 2 * NZ) { if (o >= NZ && n < 2) return false; continue; }
		if (o == 2 * NZ + 3 * NAZ + 3) n++;
	}
	return true;
}
static void wide_case(uint64_t i, void *arg) {
	(void)arg;
	if (!wide_possible(i)) mc_skip();
	begin();
	for (int d = 0; d < depth; d++, i /= W) wide(i % W);
	end();
}
/* narrow: two sizes of nearly equal class, allocate, release any of the first three, resize */
typedef struct { size_t a, b; int al; } nsize;
static const nsize NS[] = {{16, 32, 0}, {1008, 1024, 0}, {1024, 1025, 0}, {21760, 21761, 0}, {MEDIUM_MAX, MEDIUM_MAX + 1, 0}, {65408, 65409, 0},
	{100000, 200000, 0}, {300000, 400000, 0}, {LARGE_MAX, LARGE_MAX + 1, 0}, {40, 40000, 128}, {5000, 9000, 4096}, {1000, 70000, 8192}, {32000, 16000, 256}, {32256, 200000, 0}, {130000, 65000, 1024}};
enum { NN = 9 };
static bool narrow_possible(uint64_t i) {
	int n = 0;
	for (int d = 0; d < depth; d++, i /= NN) switch (i % NN) {
		case 0: case 1: case 2: n++; break;
		case 3: case 4: case 5: if (n <= (int)(i % NN) - 3) return false; n--; break;
		default: if (!n) return false;
	}
	return true;
}
static void narrow_case(uint64_t i, void *arg) {
	const nsize *s = arg;
	if (!narrow_possible(i)) mc_skip();
	begin();
	for (int d = 0; d < depth; d++, i /= NN) {
		unsigned o = i % NN;
		switch (o) {
			case 0: do_malloc(s->a); break;
			case 1: if (s->al) do_aligned(s->al, s->b); else do_malloc(s->b); break;
			case 2: do_calloc(1, s->a); break;
			case 3: case 4: do_free(o - 3); break;
			case 5: do_free(nb - 1); break;
			case 6: do_realloc(0, s->b); break;
			case 7: do_realloc(nb - 1, s->a / 2); break;
			case 8: if (s->al) do_arealloc(0, s->al, s->a + s->b, 0); else do_realloc(nb - 1, s->a + s->b); break;
		}
	}
	end();
}
/* every size once, fresh and reused, beside a neighbour */
static void size_case(uint64_t i, void *arg) {
	size_t n = i * *(size_t *)arg;
	begin();
	do_malloc(n);
	do_malloc(n);
	do_realloc(0, n + 1);
	do_free(0);
	do_calloc(1, n);
	do_realloc(0, n / 2);
	do_aligned(64, n);
	end();
}
/* whole spans of a class, released in several orders and taken again */
static void span_case(uint64_t i, void *arg) {
	static const int per[] = {1, 2, 3};
	(void)arg;
	unsigned order = i % 5; i /= 5;
	unsigned spans = per[i % 3]; i /= 3;
	bool al = i % 2; i /= 2;
	size_t cls = i < 12 ? (i + 1) * 64 + 192 : 1024 + 512 * (i - 12 + 1) * 4;
	if (cls > MEDIUM_MAX) cls = MEDIUM_MAX;
	int per_span = (65536 - 128) / cls, n = per_span * spans + 1;
	if (n > MAXB - 10) n = MAXB - 10;
	begin();
	mc_note(" %d blocks of %zu, order %u\n", n, cls, order);
	for (int k = 0; k < n; k++) { if (al && k % 3 == 1) fill(born(rpaligned_alloc(32, cls - 32), cls - 32, 32, "aligned_alloc"), 0); else fill(born(rpmalloc(cls), cls, 16, "malloc"), 0); }
	for (int round = 0; round < 2; round++) {
		int rel = round ? n / 2 : n - 1;
		for (int k = 0; k < rel; k++) {
			int j = order == 0 ? 0 : order == 1 ? nb - 1 : order == 2 ? nb / 2 : order == 3 ? (k & 1 ? 0 : nb - 1) : (k * 7) % nb;
			intact(&B[j], B[j].use, "before its release");
			rpfree(B[j].p);
			gone(j);
		}
		for (int k = 0; k < rel; k++) fill(born(k & 1 ? rpcalloc(1, cls) : rpmalloc(cls), cls, 16, "malloc"), 0);
	}
	end();
}
/* more blocks of whole spans than any cache keeps, released in several orders and taken again, also by others' sizes */
enum { FLOOD = 5000 };
static struct { unsigned char *p; size_t n; uint32_t tag; } FB[FLOOD];
static int by_address(const void *a, const void *b) { unsigned char *const *x = a, *const *y = b; return *x < *y ? -1 : *x > *y; }
static void flood_take(int k, size_t n, uint32_t tag, bool zero) {
	unsigned char *p = zero ? rpcalloc(1, n) : rpmalloc(n);
	if (!p) mc_fail("refused", "block %d of %zu bytes is refused", k, n);
	if ((uintptr_t)p & 15) mc_fail("alignment", "block %d of %zu bytes lies at %p", k, n, p);
	if (zero) for (size_t i = 0; i < 32; i++) if (p[i] || p[n - 1 - i]) mc_fail("zero", "a zeroed block is not");
	FB[k].p = p; FB[k].n = n; FB[k].tag = tag;
	memcpy(p, &tag, 4); memcpy(p + n - 4, &tag, 4);
}
static void flood_look(int k, const char *when) {
	if (memcmp(FB[k].p, &FB[k].tag, 4) || memcmp(FB[k].p + FB[k].n - 4, &FB[k].tag, 4)) mc_fail("content", "%s: block %d of %zu bytes changed", when, k, FB[k].n);
}
static void flood_apart(int n) {
	static unsigned char *a[FLOOD];
	for (int k = 0; k < n; k++) a[k] = FB[k].p;
	qsort(a, n, sizeof *a, by_address);
	for (int k = 1; k < n; k++) if (a[k] - a[k - 1] < (ptrdiff_t)FB[0].n) mc_fail("overlap", "two live blocks of %zu bytes lie %zd apart", FB[0].n, a[k] - a[k - 1]);
}
static void flood_case(uint64_t i, void *arg) {
	static const int SP[] = {1, 2, 3, 7, 32, 63}, EXTRA[] = {-1, 0, 1, 100};
	(void)arg;
	unsigned order = i % 4; i /= 4;
	int extra = EXTRA[i % 4]; i /= 4;
	int sp = SP[i % 6]; i /= 6;
	bool threads = i;
	int local = sp == 1 ? 400 : 100 - (sp >> 1), n = local * 9 + extra;
	size_t size = (size_t)sp * 65536 - 128;
	begin();
	mc_note(" %d blocks of %zu, order %u%s\n", n, size, order, threads ? ", finalized in between" : "");
	for (int k = 0; k < n; k++) flood_take(k, size, 1000003u * (k + 1), false);
	flood_apart(n);
	for (int round = 0; round < 2; round++) {
		int from = round ? n / 3 : 0, rel = n - from;
		for (int x = 0; x < rel; x++) {
			int k = from + (order == 0 ? x : order == 1 ? rel - 1 - x : order == 2 ? (x < rel / 2 ? 2 * x + (rel & 1 ? 1 : 0) : x == rel - 1 && rel & 1 ? 0 : 2 * (x - rel / 2) + (rel & 1 ? 2 : 1)) : (int)((long)x * 7919 % rel));
			if (order == 3 && rel % 7919 == 0) k = from + x;
			flood_look(k, "before its release");
			rpfree(FB[k].p); FB[k].p = NULL;
		}
		for (int k = 0; k < n; k++) if (k >= from && FB[k].p) mc_fail("harness", "block %d was left out", k);
		if (threads && !round) { rpmalloc_thread_collect(); }
		for (int x = 0; x < rel; x++) flood_take(from + x, size, 2000003u * (from + x + 1) + round, x % 5 == 0);
		flood_apart(n);
		for (int k = 0; k < n; k++) flood_look(k, "after others were released");
	}
	for (int k = 0; k < n; k++) { flood_look(k, "at the end"); rpfree(FB[k].p); }
	end();
}
/* what cannot be given is refused, and nothing else happens */
static const size_t IMP[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 64, SIZE_MAX - 127, SIZE_MAX - 128, SIZE_MAX - 129, SIZE_MAX - 4095, SIZE_MAX - 4096, SIZE_MAX - 4224, SIZE_MAX - 32768,
	SIZE_MAX - 60000, SIZE_MAX - 65535, SIZE_MAX - 65536, SIZE_MAX - 65664, SIZE_MAX - 65665, SIZE_MAX - 70000, SIZE_MAX - 131072, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 62};
enum { NIMP = sizeof IMP / sizeof *IMP, NHOW = 12 };
static void refused_case(uint64_t i, void *arg) {
	static const size_t live[4] = {40, 3000, 100000, LARGE_MAX + 5000};
	(void)arg;
	size_t n = IMP[i % NIMP]; i /= NIMP;
	unsigned how = i % NHOW, with = i / NHOW;
	if ((how == 4 || how == 9) && !with) mc_skip();
	begin();
	for (int k = 0; k < 4; k++) if (with & 1 << k) do_malloc(live[k]);
	void *p = NULL, *q = (void *)1;
	mc_note(" impossible %zx, how %u\n", n, how);
	switch (how) {
		case 0: p = rpmalloc(n); break;
		case 1: p = rpcalloc(1, n); break;
		case 2: p = rpcalloc(n / 2 + 1, 2); if (n / 2 + 1 <= SIZE_MAX / 2) q = NULL; break;
		case 3: p = rpcalloc((size_t)1 << 33, n >> 20); break;
		case 4: p = rprealloc(B[0].p, n); break;
		case 5: p = rprealloc(NULL, n); break;
		case 6: p = rpaligned_alloc(64, n); break;
		case 7: p = rpaligned_alloc(4096, n); break;
		case 8: p = rpaligned_alloc(16384, n); break;
		case 9: p = rpaligned_realloc(B[0].p, 128, n, 0, 0); break;
		case 10: p = rpaligned_calloc(64, n / 4 + 1, 5); if (n / 4 + 1 <= SIZE_MAX / 5) q = NULL; break;
		case 11: { void *m = (void *)1; int e = rpposix_memalign(&m, 256, n); if (!e) mc_fail("impossible", "posix_memalign of %zu bytes succeeds", n); break; }
	}
	(void)q;
	if (p) mc_fail("impossible", "a request (%u) of %zu bytes gives %p", how, n, p);
	do_malloc(100);
	end();
}
/* the system gives nothing at some point: the request is refused, live blocks stay */
static void oom_case(uint64_t i, void *arg) {
	static const size_t z[] = {16, 2000, 32000, 100000, 2000000, LARGE_MAX + 1, LARGE_MAX + 100000};
	(void)arg;
	size_t a = z[i % 7], b = z[i / 7 % 7] & ~1ul;
	unsigned how = i / 49 % 4, n1 = i / 196 % 3;
	begin();
	for (unsigned k = 0; k <= n1; k++) do_malloc(a);
	full = true;
	bool refused = false;
	mc_note(" then nothing more: %u of %zu", how, b);
	for (int k = 0; k < 200 && !refused; k++) {
		void *p;
		switch (how) {
			case 0: p = rpmalloc(b); break;
			case 1: p = rpcalloc(2, b / 2); break;
			case 2: p = rpaligned_alloc(64, b); break;
			default: p = rprealloc(B[0].p, b + a + k * 64); if (p) { blk c = B[0]; gone(0); c.p = p; intact(&c, c.n < b + a ? c.n : b + a, "resizing"); }
		}
		if (!p) { refused = true; break; }
		fill(born(p, how == 3 ? b + a : b, how == 2 ? 64 : 16, "malloc"), 0);
		if (nb > MAXB - 20) break;
	}
	for (int k = 0; k < nb; k++) intact(&B[k], B[k].use, "after a refusal");
	full = false;
	do_malloc(b);
	end();
}

int main(int argc, char **argv) {
	mc_init(argc, argv, "M01");
	bool th = MC_THOROUGH;
	mc_opt o = {0};
	char name[40];
	size_t one = 1, step = 509;
	mc_opt r = {.recycle = 20000};
	depth = 2; mc_enum("histories-2", (uint64_t)W * W, wide_case, NULL, o);
	warm = true;
	depth = 3; mc_enum("histories-3", (uint64_t)W * W * W, wide_case, NULL, r);
	if (th) { depth = 4; mc_enum("histories-4", (uint64_t)W * W * W * W, wide_case, NULL, r); }
	for (unsigned k = 0; k < sizeof NS / sizeof *NS; k++) for (int w = 0; w < 2; w++) {
		warm = w;
		depth = (th ? 5 : 4) + (NS[k].a > 1000000 ? 0 : 2 * w);
		uint64_t n = 1;
		for (int d = 0; d < depth; d++) n *= NN;
		snprintf(name, sizeof name, "sizes-%zu-%zu-%s", NS[k].a, NS[k].b, w ? "warm" : "fresh");
		mc_enum(name, n, narrow_case, (void *)&NS[k], w ? r : o);
	}
	warm = false;
	mc_enum("each-size", 66000, size_case, &one, o);
	mc_enum("more-sizes", th ? 12000 : 9000, size_case, &step, o);
	mc_enum("spans", 5 * 3 * 2 * 28, span_case, NULL, o);
	mc_enum("flood", 4 * 4 * 6 * (th ? 2 : 1), flood_case, NULL, (mc_opt){.timeout_s = 60});
	mc_enum("impossible", NIMP * NHOW * 16, refused_case, NULL, o);
	mc_enum("exhausted", 7 * 7 * 4 * 3, oom_case, NULL, o);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
