/* Small explicit exploration engine (see DESIGN.md, "Engine").
 *
 * Style 1, mc_explore(): stateless depth-first exploration of the real code.  Every
 *   execution runs in a forked child of the same parent image, asks mc_choose() at every
 *   nondeterministic point and runs to completion.  Choice 0 is the default answer; any
 *   other answer costs deviation points, executions are enumerated exhaustively up to
 *   the deviation bound.
 * Style 2, mc_enum(): exhaustive enumeration of an index space [0,n), sharded over
 *   worker processes, each index being one case (input or operation history).
 */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#define MC_THOROUGH (mc_thorough)
extern bool mc_thorough;
extern bool mc_verbose;        /* replaying */

/* ---- called by scenarios */
int  mc_choose(int n, const char *what);              /* 0..n-1, alternatives cost 1 */
int  mc_choose_cost(int n, int cost, const char *what); /* alternatives cost `cost` */
int  mc_pick(int n, const char *what);                /* free choice (cost 0) */
int  mc_choose_v(int n, const unsigned char *cost, const char *what); /* cost per alternative */
int  mc_cost_left(void);
/* report: never returns in style 1; in style 2 jumps to the next case for known keys */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void mc_obs(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* observation, part of the outcome */
void mc_state(uint64_t h);                            /* a state was visited */
void mc_step(unsigned n);                             /* n transitions were taken */
void mc_done(void) __attribute__((noreturn));         /* style 1: end this execution now */
void mc_skip(void) __attribute__((noreturn));         /* infeasible branch, not counted */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* trace text for replay */
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
#define mc_check(key, cond, ...) do { if (!(cond)) mc_fail(key, __VA_ARGS__); } while (0)

/* ---- called by main program */
typedef void (*mc_fn)(void *arg);
typedef void (*mc_case)(uint64_t idx, void *arg);
typedef struct {
	int bound;           /* deviation bound (style 1) */
	uint64_t max_exec;   /* 0 = no cap */
	double max_s;        /* wall clock cap for this scenario, 0 = default */
	int timeout_s;       /* per execution, default 20 */
	unsigned recycle;    /* style 2: a fresh process every this many cases, 0 = never; a failure that needs the cases before it is replayed with them */
	bool describe;       /* style 2: the case function prints itself through mc_note */
} mc_opt;
/* 0 ok, 1 violation found (already recorded) */
int mc_explore(const char *name, mc_fn fn, void *arg, mc_opt o);
int mc_enum(const char *name, uint64_t n, mc_case fn, void *arg, mc_opt o);
void mc_init(int argc, char **argv, const char *property);
extern void (*mc_extra_save)(FILE *), (*mc_extra_load)(FILE *);  /* more lines in replay files */
extern bool mc_pin;
extern int mc_shard, mc_shards;
void mc_stop(void);
bool mc_stopped(void);
bool mc_replaying(void);
int mc_finish(void);   /* prints the result line, returns the exit code */
bool mc_want(const char *name);
#endif
