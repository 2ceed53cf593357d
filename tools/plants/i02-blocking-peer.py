prop = "I02"
needs = "a connection accepted on a Unix-domain address that is read before its peer has written"
breaks = "the accepted descriptor is left in blocking mode, so that the read stops every other task of the thread, the peer among them"
edits = [("src/async_io.c", """	events_set_nonblocking(cfd);
	one = 1;
	if (is_unix)
		events_get_sockaddr(cfd)->sa.sa_family = AF_UNIX;
	else
		setsockopt(cfd, IPPROTO_TCP, TCP_NODELAY, (char *)&one, sizeof one);
""", """	if (is_unix) {
		events_get_sockaddr(cfd)->sa.sa_family = AF_UNIX;
		return cfd;
	}

	events_set_nonblocking(cfd);
	one = 1;
	setsockopt(cfd, IPPROTO_TCP, TCP_NODELAY, (char *)&one, sizeof one);
""")]
demo = r'''
#include "events.h"
#include <stdlib.h>
#include <sys/socket.h>
static char path[80], dir[40];
static void gone(void) { unlink(path); rmdir(dir); }
static void late(int s) { (void)s; gone(); _exit(1); }
static void *client(param_t a) {
	(void)a;
	fds_t fd = async_connect(path, 0, -1);
	if (fd < 0) { gone(); _exit(98); }
	delay(50);
	send(fd, "late", 4, 0);
	delay(200);
	return 0;
}
static void *server(param_t a) {
	char b[8] = "";
	(void)a;
	fds_t s = async_bind(path, 0, 4, -1);
	if (s < 0) { gone(); _exit(97); }
	async_task((param_func_t)client, 0);
	fds_t c = async_accept(s, NULL, NULL);
	if (c < 0) { gone(); _exit(96); }
	int n = async_read(c, b, 4);
	gone();
	_exit(n == 4 && !memcmp(b, "late", 4) ? 0 : 2);
}
int main(void) {
	strcpy(dir, "/tmp/i02-XXXXXX");
	if (!mkdtemp(dir)) _exit(99);
	snprintf(path, sizeof path, "%s/s", dir);
	signal(SIGALRM, late);
	alarm(10);
	if (events_init(64)) { gone(); _exit(99); }
	events_t *l = events_create(6);
	async_task((param_func_t)server, 0);
	async_run(l);
	gone();
	_exit(95);
}
'''
