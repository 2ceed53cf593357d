prop = "A01"
needs = "a short value outside the range of a byte in a typed append"
breaks = "the value is cut to its lowest byte"
edits = [("src/arrays.c", "arr[index].s_short = (short)va_arg(ap, int);", "arr[index].s_short = (char)va_arg(ap, int);")]
demo = r'''
#include "events.h"
int main(void) {
	array_t a = array();
	$append_short(a, 77);
	$append_short(a, -1234);
	_exit(a[0].s_short == 77 && a[1].s_short == -1234 ? 0 : 1);
}
'''
