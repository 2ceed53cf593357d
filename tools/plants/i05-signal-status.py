prop = "I05"
needs = "a child that is ended by a signal"
breaks = "its status is reported like an exit code"
edits = [("src/os_unix.c", "		if (s.si_code == CLD_EXITED)\n", "		if (s.si_code != CLD_STOPPED)\n")]
demo = r'''
#include "events.h"
int main(void) {
	int code = 99;
	process_t p;
	if (events_init(64)) _exit(99);
	execinfo_t *i = exec_info(null, false, inherit, inherit, inherit);
	p = exec("/bin/sh", "-c,kill -KILL $$", i);
	if (exec_wait(p, 20000, &code)) _exit(98);
	_exit(code == -9 ? 0 : 1);
}
'''
