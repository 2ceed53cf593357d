prop = "T02"
needs = "padding on both sides with a pad of several characters that does not fit the left side a whole number of times"
breaks = "the padding on the right goes on where the left side stopped instead of starting over"
edits = [("src/arrays.c", """		for (i = 0; i < right_pad; i++)
			result[len++] = pad[i % pad_str_len];
""", """		for (i = left_pad; i < num_pad_chars; i++)
			result[len++] = pad[i % pad_str_len];
""")]
demo = r'''
#include "events.h"
int main(void) { _exit(strcmp(str_pad("x", 5, "abc", STR_PAD_BOTH), "abxab") ? 1 : 0); }
'''
