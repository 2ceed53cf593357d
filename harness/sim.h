/* Shared by the single-thread simulations: virtual clock, no helper threads. */
#ifndef SIM_H
#define SIM_H
#include "events_internal.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#include "common.h"
#include <sys/epoll.h>
#include <sys/time.h>
#include <signal.h>
#include <pthread.h>

static uint64_t vclock;                 /* nanoseconds, for every clock of the library */
static uint64_t vtick;                  /* the clock advances this much at every poll */
static unsigned polls, polls_since;     /* polls since anything happened */
#define VBASE 1000000000000ull
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; uint64_t t = VBASE + vclock; tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; uint64_t t = VBASE + vclock; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t __wrap_time(time_t *p) { time_t t = (VBASE + vclock) / 1000000000; if (p) *p = t; return t; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { (void)a; (void)f; (void)arg; *t = pthread_self(); return 0; }
static void (*on_poll)(int timeout);
int __real_epoll_wait(int, struct epoll_event *, int, int);
static bool real_poll;
static int (*poll_answer)(struct epoll_event *, int, int);   /* a stand-in for the kernel's answer */
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int n, int timeout) {
	polls++; polls_since++;
	if (on_poll) on_poll(timeout);
	vclock += vtick;
	if (poll_answer) return poll_answer(ev, n, timeout);
	if (real_poll) return __real_epoll_wait(fd, ev, n, 0);
	return 0;
}
static events_t *sim_loop;
static void sim_start(int fds) {
	vclock = 0; vtick = 0; on_poll = NULL;
	if (events_init(fds) != 0) mc_fail("init", "events_init failed");
	sim_loop = events_create(6);
	if (!sim_loop) mc_fail("init", "events_create failed");
	/* the library's handlers are not needed here, a crash has to end the process */
	ex_signal_default();
	signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL); signal(SIGPIPE, SIG_IGN);
}
#define SIM_WRAP 1
#endif
