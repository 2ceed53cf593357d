/* Stand-ins for the clean-up registration (--wrap=defer_free,--wrap=deferred): the data
 * functions under test hand their temporaries to the current scope; here they go to a list
 * that is emptied at the end of every case, so that each one is released exactly once and
 * the memory checker sees use of anything that was not. */
#ifndef DEFERS_H
#define DEFERS_H
#include <stdlib.h>
static struct { void *p; void (*f)(void *); } dfr[4096];
static int ndfr;
bool __wrap_defer_free(void *p) { if (!p) return false; if (ndfr < 4096) { dfr[ndfr].p = p; dfr[ndfr].f = free; } ndfr++; return true; }
int __wrap_deferred(void (*f)(void *), void *p, bool is_ptr) { (void)is_ptr; if (!f) return -1; if (ndfr < 4096) { dfr[ndfr].p = p; dfr[ndfr].f = f; } ndfr++; return ndfr; }
static void run_defers(void) { while (ndfr > 0) { ndfr--; if (ndfr < 4096) dfr[ndfr].f(dfr[ndfr].p); } }
#endif
