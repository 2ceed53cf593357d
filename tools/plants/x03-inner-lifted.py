prop = "X03"
needs = "two protected pointers, the protection of the inner one lifted with ex_unprotected_ptr, and an exception afterwards"
breaks = "the outer pointer, which is still protected, is not released when the exception passes"
edits = [("src/except.c", """        ex_local()->stack = const_ptr->next;
""", """        if (ex_local()->stack != const_ptr)
            ex_local()->stack = const_ptr->next;
""")]
demo = r'''
#include "events.h"
#include "except.h"
static int released;
static void rel(void *p) { released++; }
static void work(void) {
	void *outer = malloc(40), *inner = malloc(40);
	protected(outer, rel);
	protected(inner, rel);
	ex_unprotected_ptr(&EX_PNAME(inner));
	throw(range_error);
}
int main(void) {
	rp_malloc(1);
	{ try { work(); } catch_any { } }
	_exit(released == 1 ? 0 : 1);
}
'''
