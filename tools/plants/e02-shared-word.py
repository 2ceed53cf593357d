prop = "E02"
needs = "two descriptors with numbers close together due in the same second, one of the two timeouts taken back"
breaks = "taking one timeout back hides those of the neighbouring descriptors, which never fire"
edits = [("src/events.c", """		if ((vec[vi] &= ~((unsigned short)SHRT_MIN >> (fd % EVENTS_SHORT_BITS)))
			== 0) {
			vec_of_vec = EVENTS_TIMEOUT_VEC_OF_VEC_OF(loop, target->timeout_idx);
			vec_of_vec[vi / EVENTS_SHORT_BITS]
				&= ~((unsigned short)SHRT_MIN >> (vi % EVENTS_SHORT_BITS));
		}
""", """		vec[vi] &= ~((unsigned short)SHRT_MIN >> (fd % EVENTS_SHORT_BITS));
		vec_of_vec = EVENTS_TIMEOUT_VEC_OF_VEC_OF(loop, target->timeout_idx);
		vec_of_vec[vi / EVENTS_SHORT_BITS]
			&= ~((unsigned short)SHRT_MIN >> (vi % EVENTS_SHORT_BITS));
""")]
demo = r'''
#include "events.h"
static int fired;
static void cb(fds_t fd, int ev, void *arg) { if (ev & EVENTS_TIMEOUT) fired |= 1 << (int)(intptr_t)arg; }
int main(void) {
	int a[2], b[2], i;
	if (events_init(256) || pipe(a) || pipe(b)) _exit(99);
	events_t *l = events_create(60);
	events_add(l, a[0], EVENTS_READ, 1, cb, (void *)0);
	events_add(l, b[0], EVENTS_READ, 1, cb, (void *)1);
	events_set_timeout(a[0], 0);
	for (i = 0; i < 12 && !fired; i++) events_once(l, 1);
	_exit(fired == 2 ? 0 : 1);
}
'''
