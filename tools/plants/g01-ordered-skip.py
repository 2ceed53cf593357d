prop = "G01"
needs = "options asked for in order, with an argument nobody asks for in front of the second of them"
breaks = "the search does not go on behind the option found, so the same or an earlier argument is found again"
edits = [("src/getopt.c", """				if (command_line_ordered)
					command_line_index = i + 1;
				return true;
			} else if (is_help""", """				if (command_line_ordered)
					command_line_index++;
				return true;
			} else if (is_help""")]
demo = r'''
#include "events.h"
int main(void) {
	char *a[] = {"prog", "other", "-x", "-y", "-x", NULL};
	getopt_arguments_set(5, a);
	getopt_message_set("", 1, true);
	if (!getopt_has("-x", true)) _exit(1);
	/* behind the first -x there is another one, and nothing behind that */
	if (!getopt_has("-x", true)) _exit(2);
	if (getopt_has("-y", true)) _exit(3);
	_exit(0);
}
'''
