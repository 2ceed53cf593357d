/* Controlled scheduler for real threads (see DESIGN.md, "Scheduler"). */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
extern uint64_t sched_clock;                      /* virtual nanoseconds */
extern uint64_t sched_tick;                       /* time that passes with every poll */
extern int sched_cpus;                             /* what sched_getaffinity answers */
extern int sched_stall;                          /* a preempted thread may be kept away for so many turns of the others */
struct epoll_event;
extern int (*sched_poll)(struct epoll_event *, int n, int timeout);   /* answers epoll_wait in place of "nothing" */
extern bool sched_real_poll;                      /* epoll_wait looks at the real descriptors */
extern bool sched_plain;                          /* the programs never call sched_on: only the choices of the harness are explored */
extern bool sched_all_sites;                      /* switch at every shared access, not only at conflicting ones */
extern bool sched_buffers;                        /* stores weaker than sequentially consistent may reach the other threads late */
void sched_start(void);                           /* this thread is thread 0; from here on one thread runs at a time */
void sched_on(void);                              /* from here on preemptions are explored */
void sched_off(void);
void sched_point(const char *what);               /* an explicit scheduling point */
void sched_yield_point(void);                     /* others first, until something changed */
int  sched_threads(void);                         /* other threads that have not ended */
int  sched_self(void);                            /* 0.. in order of creation */
void sched_watch(void *p, size_t n, const char *name);   /* user data: accesses have to be ordered by happens-before */
int sched_explore(const char *name, mc_fn fn, void *arg, mc_opt o);
extern bool (*sched_raced)(uintptr_t);             /* plain accesses there have to be ordered by happens-before */
/* the stand-in allocator */
size_t sched_live_blocks(void);
bool sched_block_live(const void *p);
#endif
