/* M02: the real allocator under the controlled scheduler: blocks handed between threads. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "rpmalloc.h"
#include "msched.h"
#define PLAIN __attribute__((no_sanitize("thread"), noinline))

/* the system's memory at the same addresses in every execution */
static bool on;
static size_t mapped;
static char *top = (char *)0x300000007000ull;
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
PLAIN void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
	if (!on || a || fd != -1) return __real_mmap(a, n, p, f, fd, o);
	void *r = __real_mmap(top, n, p, f | MAP_FIXED_NOREPLACE | MAP_NORESERVE, fd, o);
	if (r == MAP_FAILED) mc_fail("mc-map", "no memory");
	top += n + 0x23000;
	mapped += n;
	return r;
}
PLAIN int __wrap_munmap(void *a, size_t n) { if (on && (char *)a >= (char *)0x300000000000ull) mapped -= n; return __real_munmap(a, n); }
static uint8_t user[1u << 16];           /* 64 KiB areas that ever held a user's block */
PLAIN static bool raced(uintptr_t a) { size_t i = (a - 0x300000000000ull) >> 16; return i < sizeof user && user[i] && (a & 65535) >= 128; }

enum { NS = 8 };
typedef struct { const char *p[4]; const uint32_t *size; } prog;
static const prog *P;
typedef struct { unsigned char *p; size_t n, use; unsigned char tag; } blk;
static blk B[NS];
static unsigned char tags;
#define EDGE 48
PLAIN static void born(int k, void *p, size_t n, size_t al) {
	if (!p) mc_fail("refused", "%zu bytes are refused", n);
	size_t u = rpmalloc_usable_size(p);
	if (u < n) mc_fail("usable", "a block of %zu bytes has %zu", n, u);
	if ((uintptr_t)p & (al - 1)) mc_fail("alignment", "a block at %p, alignment %zu", p, al);
	for (int i = 0; i < NS; i++) if (B[i].p && B[i].p < (unsigned char *)p + u && (unsigned char *)p < B[i].p + B[i].use) mc_fail("overlap", "block %c (%p, %zu bytes) given to thread %d overlaps live block %c (%p, %zu)", 'a' + k, p, n, sched_self(), 'a' + i, B[i].p, B[i].n);
	B[k].p = p; B[k].n = n; B[k].use = u; B[k].tag = tags += 11;
	for (size_t i = (uintptr_t)p >> 16; i <= ((uintptr_t)p + u - 1) >> 16; i++) user[(i - 0x30000000u) & 65535] = 1;
	for (size_t i = 16; i < u; i++) { if (i >= EDGE && i + EDGE < u) i = u - EDGE; B[k].p[i] = B[k].tag + i; }
}
PLAIN static void tagged(int k, uint64_t v) { memcpy(&v, &v, 8); }
PLAIN static void intact(int k, size_t lim) {
	for (size_t i = 16; i < lim; i++) { if (i >= EDGE && i + EDGE < B[k].use) i = B[k].use - EDGE; if (i < lim && B[k].p[i] != (unsigned char)(B[k].tag + i)) mc_fail("content", "byte %zu of live block %c (%zu bytes) changed", i, 'a' + k, B[k].n); }
}
PLAIN static void gone(int k) { intact(k, B[k].use); B[k].p = NULL; }
static void *slot[NS];
static void put(int k, unsigned char *p) {
	((uint64_t *)p)[0] = 0x1234567 + k;             /* the user's own accesses */
	((uint64_t *)p)[1] = ~(uint64_t)k;
	__atomic_store_n(&slot[k], p, __ATOMIC_RELEASE);
}
static void *get(int k) {
	void *p;
	while (!(p = __atomic_load_n(&slot[k], __ATOMIC_ACQUIRE))) sched_yield_point();
	__atomic_store_n(&slot[k], NULL, __ATOMIC_RELEASE);
	if (((uint64_t *)p)[0] != 0x1234567 + k || ((uint64_t *)p)[1] != ~(uint64_t)k) mc_fail("content", "the start of live block %c changed", 'a' + k);
	return p;
}
PLAIN static void moved(int k, void *p, size_t n, blk *o) {
	born(k, p, n, 16);
	(void)o;
}
static pthread_t T[4];
static void *thread(void *a);
static void run(const char *s) {
	for (; *s; s++) {
		if (*s >= 'a' && *s <= 'h') {
			int k = *s - 'a';
			uint32_t z = P->size[k];
			rpmalloc_thread_initialize();
			void *p = z & 1u << 31 ? rpaligned_alloc(256, z & 0x7fffffff) : k & 1 ? rpcalloc(1, z) : rpmalloc(z);
			born(k, p, z & 0x7fffffff, z & 1u << 31 ? 256 : 16);
			put(k, p);
		} else if (*s >= 'A' && *s <= 'H') {
			int k = *s - 'A';
			void *p = get(k);
			gone(k);
			rpfree(p);
		} else if (*s == '+') {      /* grow */
			int k = *++s - 'a';
			unsigned char *p = get(k);
			size_t n = B[k].n, m = 3 * n;
			rpmalloc_thread_initialize();
			gone(k);
			p = rprealloc(p, m);
			if (p && (((uint64_t *)p)[0] != 0x1234567 + k || ((uint64_t *)p)[1] != ~(uint64_t)k)) mc_fail("content", "growing block %c lost its start", 'a' + k);
			born(k, p, m, 16);
			put(k, p);
		} else if (*s == 'x') rpmalloc_thread_finalize(1);
		else if (*s == 'y') rpmalloc_thread_finalize(0);
		else if (*s >= '1' && *s <= '3') pthread_create(&T[*s - '0'], NULL, thread, (void *)(intptr_t)(*s - '0'));
		else if (*s >= '5' && *s <= '7') pthread_join(T[*s - '4'], NULL);
	}
}
static void *thread(void *a) {
	rpmalloc_thread_initialize();
	run(P->p[(intptr_t)a]);
	return NULL;
}
static void one(void *arg) {
	P = arg;
	sched_start();
	on = true;
	sched_raced = raced;
	rpmalloc_initialize();
	sched_on();
	run(P->p[0]);
	sched_off();
	for (int k = 0; k < NS; k++) if (slot[k]) { void *p = get(k); gone(k); rpfree(p); }
	for (int k = 0; k < NS; k++) if (B[k].p) mc_fail("mc-harness", "a block is left");
	/* whatever was released can be given again, and is given once */
	rpmalloc_thread_initialize();
	for (int k = 0; k < 6; k++) { size_t z = P->size[k % 3] & 0x7fffffff; born(k, rpmalloc(z), z, 16); }
	for (int k = 0; k < 6; k++) { void *p = B[k].p; gone(k); rpfree(p); }
	rpmalloc_finalize();
	if (mapped) mc_fail("leak", "%zu bytes are not given back to the system", mapped);
	mc_done();
}
static const uint32_t S2[NS] = {32000, 32000, 32000, 32000, 32000, 32000, 32000, 32000},
	S3[NS] = {21000, 21000, 21000, 21000, 21000, 21000, 21000, 21000},
	SS[NS] = {24, 24, 24, 24, 24, 24, 24, 24},
	SL[NS] = {100000, 100000, 100000, 100000, 100000, 100000, 100000, 100000},
	SH[NS] = {4200000, 4200000, 4200000, 4200000, 4200000, 4200000, 4200000, 4200000},
	SA[NS] = {1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000, 1u << 31 | 20000},
	SX[NS] = {32000, 100000, 24, 32000, 4200000, 32000, 200000, 32000};
static const uint32_t *const SZ[] = {S2, S3, SS, SL, SH, SA, SX};
static const char *const ZN[] = {"two", "three", "small", "large", "huge", "aligned", "mixed"};
enum { NZ = sizeof SZ / sizeof *SZ };

/* all programs of two threads that allocate and release n blocks */
static char ev0[24], ev1[24];
static bool possible(const char *a, const char *b) {
	unsigned have = 0;
	while (*a || *b) {
		bool any = false;
		while (*a && (*a >= 'a' || have & 1u << (*a - 'A'))) { if (*a >= 'a') have |= 1u << (*a - 'a'); a++; any = true; }
		while (*b && (*b >= 'a' || have & 1u << (*b - 'A'))) { if (*b >= 'a') have |= 1u << (*b - 'a'); b++; any = true; }
		if (!any) return false;
	}
	return true;
}
static int made, from_only0;
static void each(int n, unsigned used, int l0, int l1, mc_opt o) {
	if (used == (1u << 2 * n) - 1) {
		ev0[l0] = ev1[l1] = 0;
		if (!l1 || !possible(ev0, ev1)) return;
		bool cross = false;
		for (int i = 0; i < n; i++) cross |= !strchr(ev0, 'a' + i) != !strchr(ev0, 'A' + i);
		if (!cross) return;
		for (int z = 0; z < NZ; z++) {
			if (n == 3 && z != 0 && !(z == 3 && MC_THOROUGH)) continue;
			char a[32], name[80];
			snprintf(a, sizeof a, "1%s5", ev0);
			prog p = {{a, ev1}, SZ[z]};
			snprintf(name, sizeof name, "%s-%s-%s", ZN[z], ev0, ev1);
			made++;
			sched_explore(name, one, &p, o);
		}
		return;
	}
	for (int e = 0; e < 2 * n; e++) {
		if (used & 1u << e) continue;
		/* blocks are interchangeable: a is allocated before b within one thread, thread 0's first */
		char c = e < n ? 'a' + e : 'A' + e - n;
		if (e < n && e > 0 && !(used & 1u << (e - 1))) continue;
		if (c == 'A' + e - n && e >= n && false) continue;
		ev0[l0] = c;
		/* events are laid out thread 0 first, then thread 1 */
		if (!l1) each(n, used | 1u << e, l0 + 1, l1, o);
		if (from_only0 && e < n) continue;
		ev1[l1] = c;
		char keep = ev0[l0];
		each(n, used | 1u << e, l0, l1 + 1, o);
		ev0[l0] = keep;
	}
}
int main(int argc, char **argv) {
	mc_init(argc, argv, "M02");
	bool th = MC_THOROUGH;
	sched_cpus = 2;
	mc_opt o = {.bound = th ? 3 : 2};
	each(1, 0, 0, 0, o);
	o.bound = th ? 2 : 1;
	each(2, 0, 0, 0, o);
	static const struct { const char *n; prog p; int b; } L[] = {
		/* two threads return the two blocks of a span while the owner goes on */
		{"both", {{"12abc56", "A", "B"}}, 2},
		{"both-own", {{"12abcC56", "A", "B"}}, 2},
		{"both-three", {{"12abcdD56", "A", "BC"}}, 2},
		/* a span filled again while others return its blocks */
		{"refill", {{"1abcdef5", "ABCD"}}, 2},
		{"refill-own", {{"1abAcdD5", "BC"}}, 2},
		{"refill-three", {{"1abcdefg5", "ABCD"}}, 2},
		{"back-and-forth", {{"1abCcAd5", "cBD"}}, 0},
		/* threads end while their blocks live */
		{"orphan", {{"1A2BC56", "abc", "deDE"}}, 2},
		{"orphan-now", {{"1A2B56", "ab", "cdC"}}, 2},
		{"orphan-late", {{"15AB26", "ab", "cdCD"}}, 2},
		{"orphan-two", {{"12AB56", "a", "b"}}, 2},
		{"orphan-taken", {{"152A6B", "ab", "cdeCDE"}}, 2},
		{"orphan-adopted", {{"152A6", "a", "bBcC"}}, 2},
		{"orphan-adopted-two", {{"152AB6", "abcC", "cdC"}}, 2},
		{"orphan-shared", {{"152Ad6", "a", "bBD"}}, 2},
		{"orphan-shared-two", {{"152Ad6B", "ab", "ceCED"}}, 2},
		{"finalize", {{"1aAxbc5", "BdD"}}, 2},
		{"finalize-keep", {{"1abyAc5", "BdDC"}}, 2},
		{"finalize-there", {{"1bBC5A", "axcxd"}}, 2},
		{"start-start", {{"1256", "aA", "bB"}}, 2},
		{"start-both", {{"1256AB", "ax", "bx"}}, 2},
		{"three", {{"12356ABC7", "a", "b", "c"}}, 1},
		/* growing what another thread allocated */
		{"grow", {{"1abc5", "+aAB"}}, 2},
		{"grow-back", {{"1ab+c5", "Ac+bB"}}, 1},
		{"chain", {{"12aC56", "Ab", "Bc"}}, 2},
	};
	for (unsigned i = 0; i < sizeof L / sizeof *L; i++) for (int z = 0; z < NZ; z++) {
		if (!L[i].b) continue;
		char name[60];
		prog p = L[i].p;
		p.size = SZ[z];
		snprintf(name, sizeof name, "%s-%s", ZN[z], L[i].n);
		o.bound = L[i].b - (!th && z > 1) + (th && z < 2);
		sched_explore(name, one, &p, o);
	}
	from_only0 = true;
	o.bound = 1;
	each(3, 0, 0, 0, o);
	int rc = mc_finish();
	fflush(NULL);
	_exit(rc);
}
