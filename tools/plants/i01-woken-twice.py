prop = "I01"
needs = "two tasks waiting to read from one descriptor when less arrives than both of them want"
breaks = "the second reader gives up with an error instead of waiting for its data"
edits = [("src/async_io.c", """	while ((m = read(fd, buf, n)) < 0 && os_geterror() == EAGAIN)
		async_wait(fd, 'r');
	return m;
""", """	if ((m = read(fd, buf, n)) < 0 && os_geterror() == EAGAIN) {
		async_wait(fd, 'r');
		m = read(fd, buf, n);
	}
	return m;
""")]
demo = r'''
#include "events.h"
#include <fcntl.h>
#undef write
static int p[2], bad, sum;
static void *reader(param_t a) { char c = 0; int n = async_read(p[0], &c, 1); if (n != 1) bad = 1; else sum += c; return 0; }
static void *mainly(param_t a) {
	int i;
	uint32_t x = async_task((param_func_t)reader, 0), y = async_task((param_func_t)reader, 0);
	for (i = 0; i < 4; i++) yield();
	write(p[1], "\1", 1);
	delay(30);
	write(p[1], "\2", 1);
	await_for(x);
	await_for(y);
	_exit(!bad && sum == 3 ? 0 : 1);
}
int main(void) {
	if (events_init(64) || pipe(p)) _exit(99);
	fcntl(p[0], F_SETFL, O_NONBLOCK);
	events_t *l = events_create(60);
	async_task((param_func_t)mainly, 0);
	async_run(l);
	_exit(98);
}
'''
