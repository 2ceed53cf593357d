prop = "T03"
needs = "a destination buffer exactly one byte too small for the encoded text and its terminator"
breaks = "encoding accepts a destination without room for the terminating zero and writes one byte past it"
edits = [("src/arrays.c", "	if (dst_len < (str_base64_len(len) + 1))\n", "	if (dst_len < str_base64_len(len))\n")]
demo = r'''
#include "events.h"
int main(void) {
	char b[16];
	memset(b, 'z', sizeof b);
	char *r = str_encode64("abc", b, 4);
	_exit(r == NULL && b[4] == 'z' ? 0 : 1);
}
'''
