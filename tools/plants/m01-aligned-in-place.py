prop = "M01"
needs = "growing an aligned block, that does not start where its slot does, to a size the slot has but the rest of it has not"
breaks = "the block is grown in place beyond its slot into the neighbouring block"
edits = [("src/rpmalloc.c", """				//Still fits in block, never mind trying to save memory, but preserve data if alignment changed
				if ((p != block) && !(flags & RPMALLOC_NO_PRESERVE))
					memmove(block, p, oldsize);
				return block;
			}
		} else if (span->size_class == SIZE_CLASS_LARGE) {""", """				//Still fits in block, never mind trying to save memory
				return p;
			}
		} else if (span->size_class == SIZE_CLASS_LARGE) {""")]
demo = r'''
#include "events.h"
#include "rpmalloc.h"
int main(void) {
	int i, s;
	rpmalloc_initialize();
	for (i = 0; i < 40; i++) {
		char *p = rpaligned_alloc(256, 100);
		memset(p, 7, 100);
		for (s = 104; s <= 352; s += 8) {
			p = rprealloc(p, s);
			if (rpmalloc_usable_size(p) < (size_t)s || p[99] != 7) _exit(1);
		}
	}
	_exit(0);
}
'''
