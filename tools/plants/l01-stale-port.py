prop = "L01"
needs = "the library stopped, a descriptor of the program's own taking the number just given back, the library started and stopped once more"
breaks = "the closed completion port is remembered over a stop, so the next stop closes a descriptor of the program"
edits = [("src/os_unix.c", "		close(hIoCompPort);\n		hIoCompPort = -1;\n	}\n", "		close(hIoCompPort);\n	}\n")]
demo = r'''
#include "events.h"
#include <fcntl.h>
#undef open
int main(void) {
	int own[20], i, bad = 0;
	if (events_init(64)) _exit(99);
	events_deinit();
	for (i = 0; i < 20; i++) own[i] = open("/dev/null", 0);
	if (events_init(64)) _exit(99);
	events_deinit();
	for (i = 0; i < 20; i++) if (fcntl(own[i], F_GETFD) < 0) bad = 1;
	_exit(bad);
}
'''
