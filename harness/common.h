/* Shared by the harnesses: enumeration helpers. */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "mc.h"

/* number of strings of length 0..maxlen over k letters */
static inline uint64_t str_space(int k, int maxlen) {
	uint64_t n = 0, p = 1;
	for (int i = 0; i <= maxlen; i++) { n += p; p *= k; }
	return n;
}
/* shortlex: string number i, returns its length */
static inline int str_nth(uint64_t i, const char *alpha, int k, char *out) {
	int len = 0;
	uint64_t p = 1;
	while (i >= p) { i -= p; p *= k; len++; }
	for (int j = len - 1; j >= 0; j--) { out[j] = alpha[i % k]; i /= k; }
	out[len] = 0;
	return len;
}
/* exact-size heap copies, so that the memory checker sees any access outside */
static inline char *hdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static inline unsigned char *hmem(const char *s, size_t n) { unsigned char *p = malloc(n ? n : 1); memcpy(p, s, n); return n ? p : p; }
static inline uint64_t take(uint64_t *idx, uint64_t n) { uint64_t r = *idx % n; *idx /= n; return r; }
#endif
