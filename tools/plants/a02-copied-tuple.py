prop = "A02"
needs = "a copy of a tuple, and then an attempt to modify the copy"
breaks = "the copy of an immutable tuple is a plain array that accepts modifications"
edits = [("src/arrays.c", "		array_set_type(des, array_type(src));\n	}\n\n	return des;", "		array_set_type(des, DATA_ARRAY);\n	}\n\n	return des;")]
demo = r'''
#include "events.h"
#include "except.h"
int main(void) {
	scope_init();
	array_t a = arrays(2, 1, 2), b = 0;
	tuple_t t = data_tuple(a);
	b = data_copy(b, (array_t)t);
	int threw = 0;
	try { data_pop(b); } catch_any { threw = 1; }
	_exit(threw && data_size(b) == 2 ? 0 : 1);
}
'''
