prop = "T01"
needs = "counting a pattern of seven or more letters in a text that agrees with its first four and its last letter"
breaks = "str_subcount and mem_subcount compare only the first four and the last letter of a pattern"
edits = [("src/arrays.c", "!memcmp(needle + 1, p + 1, needle_len - 2)", "!memcmp(needle, p, needle_len > 4 ? 4 : needle_len)")]
demo = r'''
#include "events.h"
#include "arrays.h"
int main(void) {
	if (str_subcount("user=conduct; ", "conduit") != 0) _exit(1);
	if (str_subcount("username, useraame, username", "username") != 2) _exit(1);
	_exit(0);
}
'''
