prop = "T01"
needs = "a text in which the pattern begins inside a failed partial match, as aab in aaab"
breaks = "counting occurrences skips the whole partial match and misses the one that starts within it"
edits = [("src/arrays.c", """				return p;
			}
		} else {
			return null;
		}
		p++;
""", """				return p;
			}
		} else {
			return null;
		}
		p += (p[1] == needle[1]) ? 2 : 1;
""")]
demo = r'''
#include "events.h"
int main(void) { _exit(str_subcount("xaaab", "aab") == 1 && str_subcount("aabaab", "aab") == 2 ? 0 : 1); }
'''
