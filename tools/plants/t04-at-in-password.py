prop = "T04"
needs = "a URL whose password (or user) contains an '@'"
breaks = "the first instead of the last '@' ends the login part, so user, password and host are cut at the wrong places"
edits = [("src/arrays.c", "if ((p = str_memrchr(s, '@', (e - s)))) {", "if ((p = memchr(s, '@', (e - s)))) {")]
demo = r'''
#include "events.h"
int main(void) {
	scope_init();
	uri_t *u = parse_uri_ex("http://us:pa@ss@host.org:81/x");
	if (!u || strcmp(u->user, "us") || strcmp(u->pass, "pa@ss") || strcmp(u->host, "host.org") || u->port != 81) _exit(1);
	_exit(0);
}
'''
