prop = "C02"
needs = "a waiter looking while the pool thread is still copying a job's array result"
breaks = "the promise counts as done before its result is stored"
edits = [("src/future.c", """void promise_set(promise *p, void *res) {
	atomic_lock(&p->mutex);
""", """void promise_set(promise *p, void *res) {
	atomic_flag_test_and_set(&p->done);
	atomic_lock(&p->mutex);
"""), ("src/future.c", """	atomic_unlock(&p->mutex);
	atomic_flag_test_and_set(&p->done);
}

EVENTS_INLINE values_t promise_wait""", """	atomic_unlock(&p->mutex);
}

EVENTS_INLINE values_t promise_wait""")]
demo = r'''
#include "events.h"
#define N 200000
static void *job(param_t a) { array_t r = array(); int i; $reserve(r, N + 1); for (i = 0; i < N; i++) $append_signed(r, 1); return r; }
static void *mainly(param_t a) {
	int i;
	for (i = 0; i < 5; i++) {
		promise *p = queue_work(futures_pool(), (param_func_t)job, 0);
		if (queue_get(p).integer != 1) _exit(1);
	}
	_exit(0);
}
int main(void) {
	if (events_init(64)) _exit(99);
	events_t *l = events_init_pool(2);
	async_task((param_func_t)mainly, 0);
	async_run(l);
	_exit(98);
}
'''
