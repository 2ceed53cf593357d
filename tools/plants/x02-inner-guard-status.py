prop = "X02"
needs = "a guard nested in another one, and a clean-up registered in the outer guard after the inner one ended"
breaks = "clean-ups registered in the outer guarded block after a nested block do not run when the block ends"
edits = [("src/except.c", """		if (is_empty(scope))
			scope_local()->status = DATA_UNGUARDED_STATUS;
""", """		scope_local()->status = DATA_UNGUARDED_STATUS;
""")]
demo = r'''
#include "events.h"
#include "except.h"
static int order[8], n;
static void c(void *p) { order[n++] = (int)(size_t)p; }
int main(void) {
	guard {
		defer(c, (void *)1);
		guard {
			defer(c, (void *)2);
		} guarded;
		defer(c, (void *)3);
		order[n++] = 9;
	} guarded;
	int want[] = {2, 9, 3, 1}, i;
	for (i = 0; i < 4; i++)
		if (n != 4 || order[i] != want[i]) _exit(1);
	_exit(0);
}
'''
