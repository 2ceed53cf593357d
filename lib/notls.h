/* Force-included, same role as the repository build's own stand-in: the TLS module needs a
 * library that is not installed, so its header is switched off by its include guard and the
 * few non-TLS names the rest takes from it are declared here. */
#ifndef VP_NOTLS_H
#define VP_NOTLS_H
#define _ASYNC_TLS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
typedef struct tls_config tls_config_t;
typedef struct tls tls_s;
#ifndef MAXHOSTNAMELEN
#	define MAXHOSTNAMELEN 256
#endif
#include <stddef.h>
#define in ,
#include <arrays.h>
#define events_ssl_init() ((void)0)
void tls_closer(int);
const char *events_uname(void);
const char *events_hostname(void);
const char *events_sysname(void);
#endif
