prop = "S02"
needs = "two sleeping tasks whose deadlines lie more than about two seconds apart, the later one first in the queue"
breaks = "the comparison of deadlines overflows, the task with the near deadline sleeps until the far one"
edits = [("src/events.c", "	for (t = __thrd()->sleep_queue->head; t != NULL && t->alarm_time < when; t = t->next)\n", "	for (t = __thrd()->sleep_queue->head; t != NULL && (int)(t->alarm_time - when) < 0; t = t->next)\n")]
demo = r'''
#include "events.h"
static int order, first;
static void *far_off(param_t a) { delay(2900); if (!first) first = 1; return 0; }
static void *near_by(param_t a) { delay(50); if (!first) first = 2; return 0; }
static void *mainly(param_t a) {
	uint32_t x = async_task((param_func_t)far_off, 0);
	yield();
	uint32_t y = async_task((param_func_t)near_by, 0);
	await_for(y);
	await_for(x);
	_exit(first == 2 ? 0 : 1);
}
int main(void) {
	if (events_init(64)) _exit(99);
	events_t *l = events_create(60);
	async_task((param_func_t)mainly, 0);
	async_run(l);
	_exit(98);
}
'''
