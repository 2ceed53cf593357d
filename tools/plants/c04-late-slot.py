prop = "C04"
needs = "the owner wrapping around and filling the slot again between a thief's claim and its reading"
breaks = "a thief reads its slot only after it has given it up, so a task can be taken twice and another lost"
edits = [("src/deque.c", """		x = (tasks_t *)atomic_load_explicit(&a->buffer[t % a->size], memory_order_relaxed);
		if (!atomic_compare_exchange_strong_explicit(
			&q->top, &t, t + 1, memory_order_seq_cst, memory_order_relaxed))
			/* Failed race */
			return TASK_ABORT_T;
""", """		if (!atomic_compare_exchange_strong_explicit(
			&q->top, &t, t + 1, memory_order_seq_cst, memory_order_relaxed))
			/* Failed race */
			return TASK_ABORT_T;

		/* claimed */
		x = (tasks_t *)atomic_load_explicit(&a->buffer[t % a->size], memory_order_relaxed);
""")]
demo = r'''
#include "events_internal.h"
#include <pthread.h>
#include <sched.h>
#define N 3000000
extern void deque_init(events_deque_t *q, int size_hint);
extern void deque_push(events_deque_t *q, tasks_t *w);
extern tasks_t *deque_steal(events_deque_t *q);
static events_deque_t q[1];
static atomic_int seen[N + 1];
static atomic_size_t got;
static void *thief(void *arg) {
	while (atomic_load(&got) < N) {
		size_t x = (size_t)deque_steal(q);
		if (x == 0x300 || x == 0x400) continue;
		x >>= 12;
		if (x < 1 || x > N || atomic_fetch_add(&seen[x], 1)) _exit(1);
		atomic_fetch_add(&got, 1);
	}
	return 0;
}
int main(void) {
	pthread_t t[6];
	size_t i;
	deque_init(q, 2);
	for (i = 0; i < 6; i++) pthread_create(&t[i], 0, thief, 0);
	for (i = 1; i <= N; i++) {
		while ((size_t)(atomic_load(&q->bottom) - atomic_load(&q->top)) >= 2) ;
		deque_push(q, (tasks_t *)(i << 12));
	}
	for (i = 0; i < 2000 && atomic_load(&got) < N; i++) usleep(5000);
	_exit(atomic_load(&got) == N ? 0 : 1);
}
'''
