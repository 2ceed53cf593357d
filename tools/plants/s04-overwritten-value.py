prop = "S04"
needs = "a consumer that leaves a value untaken for more than one turn of the generator"
breaks = "the generator overwrites a value nobody has taken"
edits = [("src/events.c", """	while (co->generator->is_ready) {
		yield();
	}

	co->generator->values""", """	if (co->generator->is_ready) {
		yield();
	}

	co->generator->values""")]
demo = r'''
#include "events.h"
static void *gen(param_t a) { int i; for (i = 1; i <= 4; i++) yielding((void *)(intptr_t)i); return 0; }
static void *mainly(param_t a) {
	int i, j, bad = 0;
	generator_t g = generator((param_func_t)gen, 0);
	for (i = 1; i <= 4; i++) {
		for (j = 0; j < 6; j++) yield();
		if (yielded(g).integer != i) bad = 1;
		if (bad) break;
	}
	_exit(bad);
}
int main(void) {
	if (events_init(64)) _exit(99);
	events_t *l = events_create(60);
	async_task((param_func_t)mainly, 0);
	async_run(l);
	_exit(98);
}
'''
