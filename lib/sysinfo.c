/* The non-TLS functions of async_tls.c, as the no-TLS build provides them. */
#include "events_internal.h"
#include <netdb.h>
const char *events_uname(void) { return "uname"; }
const char *events_sysname(void) { return "Linux"; }
const char *events_hostname(void) { return "localhost"; }
void tls_closer(int socket) { if (socket) close(socket); }
