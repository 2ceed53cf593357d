From 9093729fab99a8e731e25e5874c9ca4a92cc6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 01/84] fix: trim() read and wrote in front of an empty or
 all-space text

---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..63c3fdc 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -793,8 +793,8 @@ static EVENTS_INLINE char *ltrim(char *s) {
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace(*(back - 1))) back--;
+	*back = '\0';
 	return s;
 }
 
-- 
2.43.0


From 40445960ded88181f72bbdb8b6b83ab5606f5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 02/84] fix: str_itoa() lost the sign and the upper half of
 64-bit values, and needs no prior scope

---
 src/arrays.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 63c3fdc..6d8538f 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1594,39 +1594,37 @@ static char *___str_itoa(int value, char *result, int base) {
 
 char *str_itoa(int64_t x) {
 #if defined(__s390__) || defined(__s390x__)
-	return ___str_itoa((int)x, scope_local()->scrape, 10);
+	return ___str_itoa((int)x, scope_init()->scrape, 10);
 #else
-	char *buf = scope_local()->scrape;
+	char *buf = scope_init()->scrape, *text = buf;
+	uint64_t u = x;
 	// Handle negatives
 	bool neg = x < 0;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
+	if (neg)
+		u = -u;
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return text;
 #endif
 }
 
-- 
2.43.0


From 0a31bfedc5544cd3bce8cf32beb2ff6eab75cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 03/84] fix: str_cat_argv() joined onto the text of the
 previous call

---
 src/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 6d8538f..33e2f04 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -429,13 +429,15 @@ char *str_cat_argv(int argc, char **argv, int start, char *delim) {
 	}
 
 	char *str = EVENTS_ARGS;
+	str[0] = '\0';
 	for (i = start, j = 0; i < argc; ++i) {
 		if (i > start)
 			j = _str_append(j, delim, 1);
 		j = _str_append(j, argv[i], strlen(argv[i]));
 	}
 
-	str[(sizeof(char) * len) - 1] = '\0';
+	if (len > 0)
+		str[(sizeof(char) * len) - 1] = '\0';
 	return str;
 }
 
-- 
2.43.0


From 088bdb63c451a7a833790815e0e09783a21d80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 04/84] fix: str_explode() lost the text when the delimiter
 does not occur

---
 src/arrays.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 33e2f04..18b5679 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -596,7 +596,9 @@ array_t str_explode(const char *s, const char *delim) {
 		nbWords++;
 	}
 
-	if (nbWords > 0) {
+	if (nbWords == 0) {
+		$append_string(data, str_dup(s));
+	} else {
 		ptrsSize = nbWords * sizeof(char *);
 		if (defer_free(ptrs = events_calloc(1, _mem_align_up(ptrsSize + sLen + 1, 2)))) {
 			first = _s = str_cpy((char *)ptrs, s, sLen);
-- 
2.43.0


From d61499806ebaee2342158b6c8f4fb83468978d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 05/84] fix: pathinfo() gave the file name as directory for a
 path without one

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 18b5679..201597c 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1267,7 +1267,7 @@ fileinfo_t *pathinfo(char *filepath) {
 		file->base = str_dup(basename((char *)file->dirname));
 #else
 		dirname(dir_name);
-		file->dirname = dir_name;
+		file->dirname = str_has(filepath, "/") ? dir_name : ".";
 		file->base = basename((char *)file->dirname);
 		file->filename = basename((char *)filepath);
 #endif
-- 
2.43.0


From d8a5285e3ad312b50c93bbd4452411a1cf0d5ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 06/84] fix: appending to or reserving more than an array holds
 left the caller a released handle

---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 14 +++++++++-----
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..1e0999f 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,10 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +212,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +248,16 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+/* Appending/reserving may move the storage, the handle given is updated. */
+#define $append(arr, value) 			((arr) = data_append((array_t)(arr), (void *)(value)))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_DOUBLE, (double)(value)))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)(arr), DATA_MAXSIZE, (size_t)(value)))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_LLONG, (int64_t)(value)))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_STRING, (char *)(value)))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_FUNC, (data_func_t)(value)))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_CHAR, (char)(value)))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_BOOL, (bool)(value)))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_SHORT, (short)(value)))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)(arr), (size_t)(cap)))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index 201597c..1fc6081 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +152,19 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +205,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
-- 
2.43.0


From 78640a5f26dba39263fb8d270d98be079a51ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 07/84] fix: range() with an end below its start asked for an
 impossible amount of memory

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 1fc6081..1c50550 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -90,7 +90,7 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int i, n = stop > start ? stop - start : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0


From 2bff92350c2bfb4eb626a503bce86ab483bd78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 08/84] fix: parse_uri_ex() and uri_free() leaked rejected URLs
 and those of unknown schemes

---
 src/arrays.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 1c50550..e82a5e5 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1225,7 +1225,7 @@ static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
 
 void uri_free(uri_t *uri) {
 	if ((data_type(uri) > DATA_GENERATOR && data_type(uri) < DATA_WATCH)
-		|| (data_type(uri) == -DATA_MAXCOUNTER) && uri->is_rejected) {
+		|| data_type(uri) == -DATA_MAXCOUNTER) {
 		if (uri->is_autofreeable)
 			return;
 
@@ -1526,10 +1526,13 @@ uri_t *parse_uri_ex(const char *str) {
 		return null;
 
 	uri_t *uri = uri_parse_ex(str, strlen(str), false);
-	if (uri->is_rejected || is_empty(uri->host)
+	if (is_empty(uri) || uri->is_rejected || is_empty(uri->host)
 		|| (!str_has(uri->host, ".") && !str_is(uri->host, events_hostname()))) {
 		errno = EINVAL;
-		uri_free(uri);
+		if (!is_empty(uri)) {
+			uri->type = -DATA_MAXCOUNTER;
+			uri_free(uri);
+		}
 		return null;
 	}
 
-- 
2.43.0


From a48d5973293da472b28f2d33de888f3144595ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 09/84] fix: parse_uri() took a port with trailing junk for a
 shorter port

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index e82a5e5..ea7515b 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1456,7 +1456,7 @@ parse_host:
 				memcpy(port_buf, p, (e - p));
 				port_buf[e - p] = '\0';
 				port = strtol(port_buf, &end, 10);
-				if (port >= 0 && port <= 65535 && end != port_buf) {
+				if (isdigit((unsigned char)*port_buf) && port <= 65535 && *end == '\0') {
 					*has_port = 1;
 					ret->port = (unsigned short)port;
 				} else {
-- 
2.43.0


From d6386cc3f07dcbdcc72c181f50c6d40837db3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 10/84] fix: async_parse_addr() took any text starting with a
 number for port 1, and wrapped octets and ports out of range

---
 src/async_io.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..915f638 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -394,32 +394,36 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	len = 0;
 	/* Test for different ways to format this string */
 	if (sscanf(host,
-		"%u.%u.%u.%u:%u%n",
+		"%3u.%3u.%3u.%3u%n:%5u%n",
 		&a,
 		&b,
 		&c,
 		&d,
+		&len,
 		&port,
 		&len) // NOLINT(cert-err34-c) 'sscanf' used to convert a string
 			  // to an integer value, but function will not report
 			  // conversion errors; consider using 'strtol' instead
-		== 5) {
+		>= 4) {
 		/* Bind to a specific IPv4 address, e.g. 192.168.1.5:8080 */
+		if (a > 255 || b > 255 || c > 255 || d > 255 || port > 0xffff || (size_t)len != ptrlen)
+			return 0;
+
 		dst->sin.sin_addr.s_addr =
 			htonl((a << 24) | (b << 16) | (c << 8) | d);
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
-	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
-		&& ((size_t)len <= ptrlen)
+	} else if (sscanf(host, "[%49[^]]]%n:%5u%n", buf, &len, &port, &len) >= 1
+		&& ((size_t)len == ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if ((portUL = strtoul(host, &endptr, 0)) <= 0xffff
+		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
@@ -446,8 +450,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len)
-				== 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+			if (sscanf(cb + 1, "%5u%n", &port, &len)
+				== 1 && port <= 0xffff && cb[1 + len] == '\0') { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -457,7 +461,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1) {
+			if (sscanf(cb + 1, "%5u%n", &port, &len) == 1 && port <= 0xffff && cb[1 + len] == '\0') {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From f24f0cc2b9095ad27b0bc901d2c815dde754e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 11/84] fix: str_parseip() wrote into the caller's text, lost
 hosts it need not split and returned a text's bytes as pointer

---
 src/arrays.c | 70 +++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index ea7515b..08bf118 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1143,51 +1143,48 @@ static EVENTS_INLINE const void *str_memrchr(const void *s, int c, size_t n) {
 	return null;
 }
 
+static EVENTS_INLINE bool ip_is_port(const char *s) {
+	size_t n = strspn(s, "0123456789");
+	return n > 0 && n < 6 && s[n] == '\0';
+}
+
 #define ip_class(p) ((*(unsigned char*)(p))>>6)
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
-	unsigned char addr[4];
-	char *p, **tmp = null, buf[ARRAY_SIZE] = {0};
+	unsigned char addr[4] = {0};
+	char *p, host[ARRAY_SIZE] = {0};
 	int i, x;
 
-	if ((i = str_pos(name, "//")) > 3) {
-		snprintf(buf, ARRAY_SIZE, "%s", (const char *)((uintptr_t)name + (i + 2)));
-		name = buf;
-	}
-
-	if ((i = str_pos(name, "]:")) > 3) {
-		*port = atoi(trim_at(name, i + 2));
-		name[i + 1] = '\0';
-		return autofree ? str_dup(name) : str_dup_ex(name);
-	} else if ((i = str_pos(name, ":")) > 6) {
-		tmp = str_split_ex(name, ":", null);
-		*port = atoi(tmp[1]);
-		name = tmp[0];
-		if (autofree) {
-			defer_free(tmp);
-		} else {
-			i = snprintf(buf, ARRAY_SIZE, "%s", tmp[0]);
-			events_free(tmp);
-			tmp = null;
-			if (i)
-				tmp = (char **)str_dup_ex(buf);
-		}
-	} else if (!str_is_empty((const char *)buf)) {
-		tmp = (char **)str_dup(buf);
-		name = (char *)tmp;
+	if ((i = str_pos(name, "//")) > 3)
+		name = trim_at(name, i + 2);
+
+	/* the caller's text stays as it is */
+	snprintf(host, ARRAY_SIZE, "%s", (const char *)name);
+	if ((i = str_pos(host, "]:")) > 0 && ip_is_port(host + i + 2)) {
+		*port = atoi(trim_at(host, i + 2));
+		host[i + 1] = '\0';
+	} else if ((i = str_pos(host, ":")) > 6 && ip_is_port(host + i + 1)) {
+		*port = atoi(trim_at(host, i + 1));
+		host[i] = '\0';
 	}
 
+	if (is_empty(name = autofree ? str_dup(host) : str_dup_ex(host)))
+		return name;
+
 	p = name;
 	for (i = 0; i < 4 && *p; i++) {
 		x = strtoul(p, &p, 0);
 		if (x < 0 || x >= 256)
-			return (autofree) ? name : (char *)tmp;
+			return name;
 		if (*p != '.' && *p != 0)
-			return (autofree) ? name : (char *)tmp;
+			return name;
 		if (*p == '.')
 			p++;
 		addr[i] = x;
 	}
 
+	if (i == 0 || *p != 0)
+		return name;
+
 	switch (ip_class(addr)) {
 		case 0:
 		case 1:
@@ -1200,22 +1197,23 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 				addr[2] = 0;
 				addr[1] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return name;
 			break;
 		case 2:
 			if (i == 3) {
 				addr[3] = addr[2];
 				addr[2] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return name;
+			break;
+		default:
+			if (i != 4)
+				return name;
 			break;
 	}
 
-	*ip = *(uint32_t *)addr;
-	if (is_empty(tmp) && autofree)
-		return name;
-
-	return autofree && !is_empty(tmp) ? tmp[0] : (char *)tmp;
+	memcpy(ip, addr, sizeof(addr));
+	return name;
 }
 
 static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
-- 
2.43.0


From 289222cf46efc29e2d238ce67fa2bc9181094083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 12/84] fix: async_bind() used an IPv4 socket for IPv6
 addresses and an uninitialised length

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 915f638..36e3298 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -106,7 +106,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	fds_t fd;
 	int err, proto, n = 0, ip_family = 0;
 	u_saddr_t usa;
-	socklen_t sn;
+	socklen_t sn = sizeof(n);
 	uds_t uds = (protocol == -1)
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -126,7 +126,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
-	if ((fd = socket((is_unix ? AF_UNIX : AF_INET),
+	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
 		if (is_unix)
-- 
2.43.0


From a5845caae6a27c373cf4788e713fd9385e710bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 13/84] fix: getopt_has() stopped at any argument that is part
 of the help texts, and cut values at a second '='

---
 src/getopt.c | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/getopt.c b/src/getopt.c
index ca0b7ed..36e4e0f 100644
--- a/src/getopt.c
+++ b/src/getopt.c
@@ -26,58 +26,47 @@ char *getopts(void) {
 	return command_line_option;
 }
 
+static bool is_help(const char *arg) {
+	return str_is(arg, "-h") || str_is(arg, "--h") || str_is(arg, "?") || str_is(arg, "help");
+}
+
 bool getopt_has(const char *flag, bool is_single) {
-	char *unknown = NULL, **flags = NULL;
-	bool show_help = false, is_unknown = false, is_split = false;
+	char *unknown = NULL, *value = NULL;
+	bool show_help = false, is_unknown = false;
 	int i = 0;
 
 	// Parse command-line flags
 	if (command_line_argc > command_line_required) {
 		for (i = command_line_index; i < command_line_argc; i++) {
-			if (is_single && str_has(command_line_argv[i], "=")) {
-				flags = str_split_ex(command_line_argv[i], "=", NULL);
-				is_split = true;
-			}
-
+			/* text after the first `=` */
+			value = is_single ? strchr(command_line_argv[i], '=') : NULL;
 			if (flag == NULL && i == command_line_index) {
-				if (is_split)
-					events_free(flags);
-
 				command_line_option = command_line_argv[i];
 				if (command_line_ordered)
 					command_line_index = i + 1;
 
 				return true;
-			} else if (str_is(command_line_argv[i], flag) || (is_split && str_is(flags[0], flag))) {
-				if (is_split) {
-					command_line_option = flags[1];
-					defer_free(flags);
-				} else {
+			} else if (str_is(command_line_argv[i], flag)
+				|| (value != NULL && flag != NULL && strlen(flag) == (size_t)(value - command_line_argv[i])
+					&& !strncmp(command_line_argv[i], flag, strlen(flag)))) {
+				if (!str_is(command_line_argv[i], flag))
+					command_line_option = value + 1;
+				else
 					command_line_option = is_single ? command_line_argv[i] : command_line_argv[++i];
-				}
 
 				if (command_line_ordered)
 					command_line_index = i + 1;
 				return true;
-			} else if (str_has("-h, --h, ?, help", command_line_argv[i])) {
+			} else if (is_help(command_line_argv[i])) {
 				show_help = true;
 				break;
 			} else {
 				is_unknown = true;
 				unknown = command_line_argv[i];
 			}
-
-			if (is_split) {
-				events_free(flags);
-				flags = NULL;
-				is_split = false;
-			}
 		}
 	}
 
-	if (is_split && flags != NULL)
-		events_free(flags);
-
 	if (is_unknown)
 		cerr("\nUnknown flag provided: %s", unknown);
 
-- 
2.43.0


From 62ed702009bb2b44f8ab0ad9d5746efd8c935e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 14/84] fix: an unrecovered catch_if handler ran twice and its
 finally block never

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 794e5b0..c3cd59b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -937,7 +937,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
-- 
2.43.0


From 50a6ebcc9acf40146e7ede2b6e4844fef6c3e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 15/84] fix: caught() did not see the exception being handled
 in tasks and after a nested try

---
 src/except.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/except.c b/src/except.c
index c3cd59b..e27d75e 100644
--- a/src/except.c
+++ b/src/except.c
@@ -964,21 +964,17 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
 
 bool try_caught(const char *err) {
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
+	ex_context_t *ctx = ex_local();
+	/* The exception being handled, scopes only know about the latest one recorded. */
+	bool status = !is_empty(ctx) && (str_is(err, ctx->_panic) || str_is(err, ctx->ex));
 
-		return scope->is_recovered;
-	}
+	if (!is_empty(scope))
+		scope->is_recovered = status;
 
-	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
-		ex_local()->state = ex_catch_st;
-		return true;
-	}
+	if (status)
+		ctx->state = ex_catch_st;
 
-	return false;
+	return status;
 }
 
 EVENTS_INLINE const char *try_message(void) {
-- 
2.43.0


From fc1c87b51cc401be504c787ab704071e295d95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 16/84] fix: guard_message() and guard_caught() reported errors
 that were already handled inside the guard

---
 include/except.h |  5 +++++
 src/except.c     | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/except.h b/include/except.h
index b215fde..7d752e0 100644
--- a/include/except.h
+++ b/include/except.h
@@ -248,6 +248,11 @@ struct ex_context_s {
     void *data;
     void *prev;
 
+    /* The enclosing guard's scope, and its error condition, at the start of the `try` block. */
+    void *scope;
+    void *scope_err;
+    const char *scope_panic;
+
     /* The handler in the stack (which is a FILO container). */
     ex_context_t *next;
     ex_ptr_t *stack;
diff --git a/src/except.c b/src/except.c
index e27d75e..08f8d01 100644
--- a/src/except.c
+++ b/src/except.c
@@ -899,6 +899,11 @@ ex_jmp_buf *try_start(ex_stage acquire, ex_error_t *err, ex_context_t *ex_err) {
     ex_err->ex = 0;
     ex_err->unstack = 0;
     ex_err->is_rethrown = false;
+    ex_err->scope = is___scope_null() ? null : scope_local()->arena;
+    if (!is_empty(ex_err->scope)) {
+        ex_err->scope_err = ((ex_memory_t *)ex_err->scope)->err;
+        ex_err->scope_panic = ((ex_memory_t *)ex_err->scope)->_panic;
+    }
     /* global context updated */
     ex_update(ex_err);
     /* return/save jump location */
@@ -918,6 +923,12 @@ void try_finish(ex_context_t *ex_err) {
     /* deallocate or propagate its exception */
     if ((ex_err->state & ex_throw_st) != 0)
         try_rethrow(ex_err);
+
+    /* handled, no longer the error condition of the `guard` section around this block */
+    if (!is_empty(ex_err->scope) && ex_err->scope == scope_local()->arena) {
+        ((ex_memory_t *)ex_err->scope)->err = ex_err->scope_err;
+        ((ex_memory_t *)ex_err->scope)->_panic = ex_err->scope_panic;
+    }
 }
 
 bool try_next(ex_error_t *err, ex_context_t *ex_err) {
-- 
2.43.0


From 5addcc1b80dc1e9694065f2fe5220f56d9f85b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 17/84] fix: an error recovered in a guard holding protected
 memory propagated anyway

---
 src/except.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 08f8d01..96fdee9 100644
--- a/src/except.c
+++ b/src/except.c
@@ -487,6 +487,9 @@ void ex_throw(const char *ex, const char *file, int line, const char *function,
     if (ctx->unstack)
         ex_terminate();
 
+    /* a deferred function recovering while unwinding changes the state */
+    int state = ctx->state;
+
     ex_signal_block(all);
     if (is_empty(dump))
         ex_trace_set(ctx, NULL);
@@ -519,7 +522,7 @@ void ex_throw(const char *ex, const char *file, int line, const char *function,
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
-    ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
+    ex_longjmp(ctx->buf, state | ex_throw_st);
 }
 
 #ifdef _WIN32
@@ -1204,6 +1207,10 @@ void guard_reset(ex_guard_t *block, void *scope, ex_setup_func set, ex_unwind_fu
 	if (!is_empty(block) && data_type(block) == DATA_GUARD) {
 		block->type = DATA_INVALID;
 		scope_unwind(block->scope);
+		/* recovered already, the `throw` itself had to unwind, for protected memory */
+		if (block->scope->is_recovered && ex_local()->state == ex_throw_st)
+			ex_local()->state = ex_catch_st;
+
 		if (is_empty(scope))
 			scope_local()->status = DATA_UNGUARDED_STATUS;
 
-- 
2.43.0


From 1a8ef702fba4045f82e5746e14c57dc5f181ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 18/84] fix: a null protected pointer kept the ones protected
 before it from being released

---
 src/except.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/except.c b/src/except.c
index 96fdee9..213e1c0 100644
--- a/src/except.c
+++ b/src/except.c
@@ -167,15 +167,12 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
-                break;
-
-            if (*p->ptr) {
-				p->type = DATA_INVALID;
-                p->func(*p->ptr);
+            p->type = DATA_INVALID;
+            if (*p->ptr && temp != *p->ptr) {
+                temp = *p->ptr;
+                p->func(temp);
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 5f97ab1a39ebc83e6eb16217ffa478c3c077205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 19/84] fix: guard_caught() with another error's name took back
 a recovery

---
 src/except.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/except.c b/src/except.c
index 213e1c0..5d1a2d3 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1179,10 +1179,12 @@ EVENTS_INLINE bool guard_caught(const char *err) {
 	ex_memory_t *scope = scope_local()->arena;
     const char *exception = (const char *)(!is_empty((void *)scope->_panic) ? scope->_panic : scope->err);
 #endif
-    if ((scope->is_recovered = str_is(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if (!str_is(err, exception))
+        return false;
 
-    return scope->is_recovered;
+    scope->is_recovered = true;
+    ex_local()->state = ex_catch_st;
+    return true;
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-- 
2.43.0


From 2966b97934869a28d7cf5fc3d64a7ec330000bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 20/84] fix: fence() in a task outside guards was not released
 with the task, and misread the memory as a pointer on exceptions

---
 src/except.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/except.c b/src/except.c
index 5d1a2d3..7ea2853 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1113,8 +1113,16 @@ void *fence(void *ptr, func_t func) {
 	if (is_empty(ptr))
 		return null;
 
+	/* not in a `guard`, the task is the scope */
+	if (tasks_is_active() && !scope_is_guarded()) {
+		deferred(func, ptr, true);
+		return ptr;
+	}
+
 	ex_memory_t *scope = get_scope();
 	ex_protect_ptr(scope->protector, ptr, func);
+	/* unwinding is by scope, there is no pointer to `ptr` for the exception stack to follow */
+	ex_unprotected_ptr(scope->protector);
 	scope->is_protected = true;
 	scope_deferred(scope, func, ptr);
 
-- 
2.43.0


From 7ae8f752f567417cb9bcc0bab209d0bb10fa9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 21/84] fix: try and guard blocks of tasks interleaved by
 yields took over each other's handlers and clean-ups

---
 src/events.c          |  7 +++++
 src/events_internal.h |  6 +++++
 src/except.c          | 62 ++++++++++++++++++++++++++++---------------
 3 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/events.c b/src/events.c
index f988d59..5ca3ead 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1441,6 +1441,7 @@ void task_switch(tasks_t *handle) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_task_switch(coro_previous_handle, handle, __thrd()->active_buffer);
 	SwitchToFiber(handle->type->fiber);
 }
 
@@ -1462,6 +1463,7 @@ void task_switch(tasks_t *co) {
 		if (__thrd()->current_handle->status != TASK_SLEEPING)
 			__thrd()->current_handle->status = TASK_NORMAL;
 
+		ex_task_switch(task_previous_handle, co, __thrd()->active_buffer);
 		siglongjmp(((coroutine_t *)__thrd()->active_handle)->sig_ctx, 1);
 	}
 }
@@ -1538,6 +1540,7 @@ void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_task_switch(task_previous_handle, co, __thrd()->active_buffer);
 	if (swapcontext((ucontext_t *)__thrd()->current_handle, (ucontext_t *)__thrd()->active_handle))
 		perror("Error! `swapcontext`");
 }
@@ -1554,6 +1557,7 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	ex_task_switch(task_previous_handle, co, __thrd()->active_buffer);
 	coro_swap(__thrd()->active_handle, task_previous_handle);
 }
 #endif
@@ -1734,6 +1738,9 @@ tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thre
 	co->sleeping = NULL;
 	co->task_group = NULL;
 	co->scope = NULL;
+	co->except = NULL;
+	co->arena = NULL;
+	co->arena_status = DATA_INVALID;
 	co->garbage = NULL;
 	co->generator = NULL;
 	co->results = NULL;
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..30142ed 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -453,6 +453,10 @@ struct events_task_s {
 	generator_t generator;
 	task_group_t *task_group;
 	ex_memory_t *scope;
+	/* the `try` and `guard` blocks entered, these are the thread's while running */
+	ex_context_t *except;
+	void *arena;
+	data_types arena_status;
 	array_t garbage;
 	data_func_t func;
 	void *args;
@@ -614,6 +618,8 @@ int fsevents_init(const char *name, watch_cb handler, void *filter);
 int fsevents_stop(uint32_t rid);
 
 bool scope_is_guarded(void);
+/* Leave the `try` and `guard` blocks of task ~from~, enter those of task ~to~, `thread` is the one running them. */
+void ex_task_switch(tasks_t *from, tasks_t *to, tasks_t *thread);
 int scope_deferred(ex_memory_t *scope, func_t func, void *data);
 void deferred_unwind(array_t garbage);
 
diff --git a/src/except.c b/src/except.c
index 7ea2853..242229b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -153,14 +153,21 @@ static EVENTS_INLINE bool is_except_root(ex_context_t *ctx) {
 #endif
 }
 
+/* Is the running ~thread~ or ~task~ inside an `guard` section, another one might not be. */
+static EVENTS_INLINE bool is_guarding(void) {
+	return !is___scope_null() && !is_empty(scope_local()->arena);
+}
+
 static void ex_unwind_stack(ex_context_t *ctx) {
     ex_ptr_t *p = ctx->stack;
     void *temp = NULL;
 
     ctx->unstack = 1;
 
-	if (ctx->is_unwind && guard_unwind_func) {
+	if (ctx->is_unwind && is_guarding() && guard_unwind_func) {
 		guard_unwind_func(ctx->data);
+	} else if (ctx->is_unwind && is_guarding()) {
+		scope_unwind(ctx->data);
 	} else if (ctx->is_unwind && exception_unwind_func) {
 		exception_unwind_func(ctx->data);
 	} else if (ctx->is_unwind && ctx->is_scoped && ctx->data == (void *)scope_local()) {
@@ -394,6 +401,18 @@ static void scope_unwind_set(ex_context_t *ctx, const char *ex, const char *mess
 	ex_unwind_set(ctx, scope->is_protected);
 }
 
+/* Record the exception in the innermost scope. */
+static void ex_setup(ex_context_t *ctx) {
+	if (is_guarding() && guard_setup_func)
+		guard_setup_func(ctx, ctx->ex, ctx->_panic);
+	else if (is_guarding())
+		guard_set(ctx, ctx->ex, ctx->_panic);
+	else if (exception_setup_func)
+		exception_setup_func(ctx, ctx->ex, ctx->_panic);
+	else if (ctx->is_scoped)
+		scope_unwind_set(ctx, ctx->ex, ctx->_panic);
+}
+
 EVENTS_INLINE ex_context_t *ex_local(void) {
     thrd_local_return(ex_context_t *, except)
 }
@@ -443,6 +462,24 @@ ex_context_t *ex_init(void) {
     return context;
 }
 
+void ex_task_switch(tasks_t *from, tasks_t *to, tasks_t *thread) {
+	from->except = ex_init();
+	from->arena = is___scope_null() ? null : scope_local()->arena;
+	from->arena_status = is___scope_null() ? DATA_RAII : scope_local()->status;
+	/* not started yet, begins in the blocks its thread is in */
+	if (is_empty(to->except)) {
+		to->except = is_empty(thread->except) ? from->except : thread->except;
+		to->arena = thread->arena;
+		to->arena_status = is_empty(thread->except) ? from->arena_status : thread->arena_status;
+	}
+
+	ex_update(to->except);
+	if (!is___scope_null()) {
+		scope_local()->arena = to->arena;
+		scope_local()->status = to->arena_status;
+	}
+}
+
 int ex_uncaught_exception(void) {
     return ex_init()->unstack;
 }
@@ -498,13 +535,7 @@ void ex_throw(const char *ex, const char *file, int line, const char *function,
     ctx->function = function;
 	ctx->_panic = message;
 
-	if (guard_setup_func)
-		guard_setup_func(ctx, ctx->ex, ctx->_panic);
-	else if (exception_setup_func)
-		exception_setup_func(ctx, ctx->ex, ctx->_panic);
-	else if (ctx->is_scoped)
-		scope_unwind_set(ctx, ctx->ex, ctx->_panic);
-
+	ex_setup(ctx);
     ex_unwind_stack(ctx);
     ex_signal_unblock(all);
 
@@ -563,12 +594,7 @@ int catch_seh(const char *exception, DWORD code, struct _EXCEPTION_POINTERS *ep)
                     ctx->ex = ex_sig[i].ex;
             }
 
-			if (guard_setup_func)
-				guard_setup_func(ctx, ctx->ex, ctx->_panic);
-			else if (exception_setup_func)
-				exception_setup_func(ctx, ctx->ex, ctx->_panic);
-			else if (ctx->is_scoped)
-				scope_unwind_set(ctx, ctx->ex, ctx->_panic);
+			ex_setup(ctx);
             return EXCEPTION_EXECUTE_HANDLER;
         }
     }
@@ -597,13 +623,7 @@ int catch_filter_seh(DWORD code, struct _EXCEPTION_POINTERS *ep) {
             ctx->line = 0;
             ctx->function = NULL;
 
-            if (guard_setup_func)
-                guard_setup_func(ctx, ctx->ex, ctx->_panic);
-            else if (exception_setup_func)
-				exception_setup_func(ctx, ctx->ex, ctx->_panic);
-			else if (ctx->is_scoped)
-				scope_unwind_set(ctx, ctx->ex, ctx->_panic);
-
+			ex_setup(ctx);
 			if (!ctx->is_guarded || ctx->is_scoped)
                 ex_unwind_stack(ctx);
             return EXCEPTION_EXECUTE_HANDLER;
-- 
2.43.0


From aa942150312614d3e7266c3512d48c5f39affcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 22/84] fix: sleeping tasks never woke while another task kept
 yielding or awaiting

---
 src/events.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/events.c b/src/events.c
index 5ca3ead..29e0051 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1286,15 +1286,6 @@ static EVENTS_INLINE void task_system(void) {
 	}
 }
 
-/* The current task will be scheduled again once all the
-other currently-ready tasks have a chance to run. Returns
-the number of other tasks that ran while the current task was waiting. */
-static EVENTS_INLINE int task_yielding_active(void) {
-	int n = __thrd()->num_others_ran;
-	yield();
-	return __thrd()->num_others_ran - n - 1;
-}
-
 static void *task_wait_system(void *v) {
 	tasks_t *t;
 	tasklist_t *l;
@@ -1311,9 +1302,8 @@ static void *task_wait_system(void *v) {
 #ifdef _WIN32
 		__thrd()->active_timer++;
 #endif
-		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		/* let everyone else run, they might never all be waiting */
+		yield();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
-- 
2.43.0


From f440b28320953a22e7d2556ff477481bf226cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 23/84] fix: task_is_canceled() in a task without result id
 read another task's record

---
 src/events.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 29e0051..9c17579 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1822,7 +1822,9 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 }
 
 EVENTS_INLINE bool task_is_canceled(void) {
-	return task_result_get(task_id())->is_canceled;
+	uint32_t id = active_task()->rid;
+	/* without a result there is no id to cancel */
+	return id == NO_RESULT ? false : task_result_get(id)->is_canceled;
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-- 
2.43.0


From dec702a57140ac7356b06cfdd0971a18f044fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 24/84] fix: delay() reported too little after sleeping more
 than 4.29 seconds

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 9c17579..ecbee08 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1381,7 +1381,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 69a9d6677350d0aaeea29de0fe558f68d9308113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 25/84] fix: tasks_wait() queued waiting tasks twice and ended
 the run before its caller

---
 src/events.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index ecbee08..6a3e5bb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2281,9 +2281,7 @@ array_t tasks_wait(task_group_t *wg) {
 	}
 
 	tasks_t *worker, *t = active_task();
-	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2300,10 +2298,8 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					/* others are in the `run queue`, or whatever they wait for puts them there */
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2326,8 +2322,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From c15737e86dfc55c25c656c3755d8ce73b9e32562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 26/84] fix: generators lost values their consumer had not
 pulled yet, broke the run queue and were used after release

---
 src/events.c          | 22 ++++++++++++----------
 src/events_internal.h |  1 +
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6a3e5bb..7aebb62 100644
--- a/src/events.c
+++ b/src/events.c
@@ -347,8 +347,10 @@ EVENTS_INLINE void events_deinit(void) {
 	results_data_t *r = atomic_get(results_data_t *, &sys_event.results);
 	if (r != NULL) {
 		size_t i, count = atomic_load(&sys_event.result_id_generate);
-		for (i = 0; i < count; i++)
+		for (i = 0; i < count; i++) {
+			events_free(r[i]->generator);
 			events_free(r[i]);
+		}
 
 		atomic_init(&sys_event.results, NULL);
 		events_free((void *)r);
@@ -1164,6 +1166,9 @@ void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
 	tasks_result_set(co, co->func(args));
+	if (co->is_generator)
+		co->generator->context = NULL;
+
 	data_delete(args);
 	deferred_unwind(co->garbage);
 	co->garbage = null;
@@ -1591,8 +1596,9 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			/* consumers still use it after the task is gone, it's released with the result */
+			results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+			results[rid]->generator = gen;
 		}
 	}
 
@@ -1617,17 +1623,12 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
+	while (!gen->is_ready && !is_empty(gen->context)) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
 	active_task()->gen_id = gen->rid;
@@ -1655,6 +1656,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_canceled = false;
 	result->id = id;
 	result->result.object = NULL;
+	result->generator = NULL;
 	result->type = DATA_RESULT;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
diff --git a/src/events_internal.h b/src/events_internal.h
index 30142ed..b749e28 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -216,6 +216,7 @@ typedef struct results_data {
 	bool is_ready;
 	bool is_terminated;
 	values_t result;
+	generator_t generator;
 } _results_data_t, *results_data_t;
 #if __APPLE__ && __MACH__
 make_atomic(results_data_t *, atomic_results_t)
-- 
2.43.0


From 3b094f816d0c85ac96993fe009462150646d9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 27/84] fix: registering a descriptor again counted it twice
 and left its earlier timeout armed

---
 src/events.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 7aebb62..28940aa 100644
--- a/src/events.c
+++ b/src/events.c
@@ -543,7 +543,7 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	events_fd_t *target;
 	fd_types type = FD_UNKNOWN;
 	int sig_idx, fd = socket2fd(sfd);
-	bool is_io = false;
+	bool is_io = false, is_new;
 
 	if (!EVENTS_IS_INITD_AND_FD_IN_RANGE(fd)) { return -1; }
 
@@ -584,13 +584,15 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 		target->is_iodispatch = true;
 	}
 #endif
-	//assert(target->loop_id == 0);
+	is_new = target->loop_id != loop->loop_id;
 	target->callback = callback;
 	target->cb_arg = cb_arg;
 	target->loop = loop;
 	target->loop_id = loop->loop_id;
 	target->events = 0;
-	target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
+	if (is_new)
+		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
+
 	if (is_io) {
 		events_update_polling(loop, fd, event | EVENTS_ADD);
 	} else {
@@ -602,7 +604,9 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	}
 
 	events_set_timeout(fd, timeout_in_secs);
-	loop->active_descriptors++;
+	if (is_new)
+		loop->active_descriptors++;
+
 	return 0;
 }
 
-- 
2.43.0


From c71acdff523477aea3086cbf3103f00df0f45787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 28/84] fix: events of a replaced registration or interest
 reached the new callback within the same turn

---
 src/epoll.c           | 23 +++++++++++++++--------
 src/events.c          |  4 +++-
 src/events_internal.h |  2 ++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..7d7bfd7 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -105,7 +105,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 		? (EPOLLIN | EPOLLET)
 		: (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
 			| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0)));
-	ev.data.fd = fd;
+	ev.data.u64 = ((uint64_t)target->added << 32) | (uint32_t)fd;
 
 #define SET(op, check_error) do {		    \
     epoll_ret = epoll_ctl(loop->epfd, op, fd2socket(fd), &ev); \
@@ -157,32 +157,39 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	}
 	for (i = 0; i < nevents; ++i) {
 		struct epoll_event *event = loop->events + i;
-		events_fd_t *target = events_target(event->data.fd);
+		int fd = (int)(event->data.u64 & 0xffffffff);
+		events_fd_t *target = events_target(fd);
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
+			/* of an earlier registration, removed by a callback of this turn */
+			if (target->added != (uint32_t)(event->data.u64 >> 32))
+				continue;
+
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
-				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
+				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0);
+			/* a callback of this turn might have changed the interest */
+			revents &= target->events;
+			revents |= ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
+					if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
 						events_free(buffer);
 						return -1;
 					}
 
-					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
+					async_task(inotify_task, 5, casting(fd), buffer, casting(len), target->callback, target->cb_arg);
 					return 0;
 				}
 
 				return -1;
 			} else if (revents != 0) {
-				(*target->callback)(event->data.fd, revents, target->cb_arg);
+				(*target->callback)(fd, revents, target->cb_arg);
 			}
 		} else {
 #if EVENTS_EPOLL_DEFER_DELETES
 			event->events = 0;
-			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, event->data.fd, event);
+			epoll_ctl(loop->epfd, EPOLL_CTL_DEL, fd, event);
 #endif
 		}
 	}
diff --git a/src/events.c b/src/events.c
index 28940aa..597ded8 100644
--- a/src/events.c
+++ b/src/events.c
@@ -590,8 +590,10 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	target->loop = loop;
 	target->loop_id = loop->loop_id;
 	target->events = 0;
-	if (is_new)
+	if (is_new) {
+		target->added++;
 		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
+	}
 
 	if (is_io) {
 		events_update_polling(loop, fd, event | EVENTS_ADD);
diff --git a/src/events_internal.h b/src/events_internal.h
index b749e28..1a5d945 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -230,6 +230,8 @@ struct events_fd_s {
 	events_id_t loop_id;
 	char events;
 	unsigned char timeout_idx; /* EVENTS_TIMEOUT_IDX_UNUSED if not used */
+	/* number of registrations so far, tells events of an earlier one */
+	uint32_t added;
 	int signal_idx;
 	bool signal_set;
 	bool is_iodispatch;
-- 
2.43.0


From 6f9dee26c2a277385cd65f25166bcf65cf9c5fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 29/84] fix: timeouts of descriptors changed by a callback of
 the same sweep fired or aborted, long ones fired early

---
 src/events.c          | 17 ++++++++++++-----
 src/events_internal.h |  1 +
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 597ded8..c982984 100644
--- a/src/events.c
+++ b/src/events.c
@@ -436,6 +436,7 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 		if (delta >= EVENTS_TIMEOUT_VEC_SIZE) {
 			delta = EVENTS_TIMEOUT_VEC_SIZE - 1;
 		}
+		target->timeout_at = loop->now + secs;
 		target->timeout_idx = (loop->timeout.base_idx + delta) % EVENTS_TIMEOUT_VEC_SIZE;
 		vec = EVENTS_TIMEOUT_VEC_OF(loop, target->timeout_idx);
 		vec[vi] |= (unsigned short)SHRT_MIN >> (fd % EVENTS_SHORT_BITS);
@@ -797,22 +798,28 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
 							if (v < 0) {
 								events_fd_t *fd = events_target(k);
-								assert(fd->loop_id == loop->loop_id);
-								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
+								/* a callback just before might have changed or removed it */
+								if (fd->loop_id != loop->loop_id || fd->timeout_idx != loop->timeout.base_idx)
+									continue;
+
+								events_set_timeout(k, 0);
+								/* it was too far away for this round */
+								if (fd->timeout_at > loop->now) {
+									events_set_timeout(k, (int)(fd->timeout_at - loop->now));
+									continue;
+								}
+
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
 								if (loop_id != loop->loop_id)
 									return;
 							}
 						}
-						vec[j] = 0;
 					}
 				}
-				vec_of_vec[i] = 0;
 			}
 		}
 	}
diff --git a/src/events_internal.h b/src/events_internal.h
index 1a5d945..b5fa181 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -230,6 +230,7 @@ struct events_fd_s {
 	events_id_t loop_id;
 	char events;
 	unsigned char timeout_idx; /* EVENTS_TIMEOUT_IDX_UNUSED if not used */
+	time_t timeout_at;
 	/* number of registrations so far, tells events of an earlier one */
 	uint32_t added;
 	int signal_idx;
-- 
2.43.0


From 1bc3de2c41156f3bb117b188a1e064d5e19cdb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 30/84] fix: user timers of more than 2147 ms fired at once

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index c982984..c74f12c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -904,7 +904,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (int64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From e4673c5d8830a497243b2e48415e95189af39964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 31/84] fix: cleared timers fired again, and a timer that
 stopped repeating was never released

---
 src/events.c          | 22 +++++++++++++++++++++-
 src/events_internal.h |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index c74f12c..8928d20 100644
--- a/src/events.c
+++ b/src/events.c
@@ -931,13 +931,23 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		else
 			loop->timers->tail = t;
 
+		t->pending = true;
 		loop->active_timers++;
 	}
 
 	return t;
 }
 
+static EVENTS_INLINE void events_actor_unqueue(actor_t *actor) {
+	timerlist_t *l = actor->loop->timers;
+	if (actor->pending) {
+		dequeue(l, actor);
+		actor->pending = false;
+	}
+}
+
 EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
+	events_actor_unqueue(actor);
 	actor->repeating = 1;
 	actor->loop->active_timers--;
 	return events_actor_timeout(actor->loop, ms, actor->actor, actor->args, actor);
@@ -945,6 +955,13 @@ EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
 
 EVENTS_INLINE void events_clear_actor(actor_t *actor) {
 	actor->repeating = 0;
+	if (actor->pending) {
+		events_actor_unqueue(actor);
+		if (!actor->running) {
+			actor->loop->active_timers--;
+			events_free(actor);
+		}
+	}
 }
 
 EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void *args) {
@@ -977,8 +994,11 @@ static int events_execute(events_t *loop, int max_wait) {
 	now = events_nsec();
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
-		dequeue(l, t);
+		events_actor_unqueue(t);
+		t->repeating = 0;
+		t->running = true;
 		t->actor(t, t->args);
+		t->running = false;
 		if (!t->repeating) {
 			events_free(t);
 			loop->active_timers--;
diff --git a/src/events_internal.h b/src/events_internal.h
index b5fa181..096fd20 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -298,6 +298,8 @@ struct sys_events_s {
 
 struct actors_s {
 	int repeating;
+	/* in the timers list, callback running */
+	bool pending, running;
 	size_t alarmtime;
 	actor_cb actor;
 	void *args;
-- 
2.43.0


From de43aa034e82ae65c21341126cacc958afb74b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 32/84] fix: registering a signal again took a second slot and
 was counted twice

---
 src/events.c  | 5 ++++-
 src/os_unix.c | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 8928d20..ba2d925 100644
--- a/src/events.c
+++ b/src/events.c
@@ -555,9 +555,12 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 #endif
 	target = events_target(fd);
 	if (event == EVENTS_SIGNAL) {
+		is_new = !target->signal_set || events_signals()[target->signal_idx].sig != fd;
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
-			loop->active_signals++;
+			if (is_new)
+				loop->active_signals++;
+
 			loop->signal_handlers[sig_idx].loop = loop;
 			target->loop = loop;
 			target->signal_idx = sig_idx;
diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..25a12e3 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -689,10 +689,17 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
-		if (!events_sig[i].proc || events_sig[i].sig == sig)
+		if (events_sig[i].proc && events_sig[i].sig == sig)
 			break;
 	}
 
+	if (i == max_event_sig) {
+		for (i = 0; i < max_event_sig; i++) {
+			if (!events_sig[i].proc)
+				break;
+		}
+	}
+
 	if (i == max_event_sig) {
 		cerr("Cannot install exception handler for signal no (%d), "
 			"too many signal exception handlers installed (max %d)"CLR_LN,
-- 
2.43.0


From adaf3b8b45f6718aac59d8ef7b7b225ac655e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 33/84] fix: a signal could be removed only from inside its own
 callback

---
 src/events.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index ba2d925..15b0f15 100644
--- a/src/events.c
+++ b/src/events.c
@@ -627,10 +627,12 @@ int events_del(fds_t sfd) {
 	if (target->signal_set) {
 		signal_handlers = events_signals();
 		if (signal_handlers[target->signal_idx].sig == fd
-			&& signal_handlers[target->signal_idx].is_running) {
+			/* in its callback, or not the number of a descriptor */
+			&& (signal_handlers[target->signal_idx].is_running || target->loop_id == 0)) {
+			loop = signal_handlers[target->signal_idx].loop;
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			loop->active_signals--;
 			return 0;
 		}
 	}
-- 
2.43.0


From 69ab5192f5e32e52cb98a6a8b35e3f8d5e64a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 34/84] fix: signals delivered at the same time, or during a
 callback, ended the process or were lost

---
 src/os_unix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 25a12e3..09aafe1 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -664,8 +664,8 @@ static void events_sig_handler(int sig) {
 			break;
 		}
 	}
-	events_sigunblock;
 	signal_running = false;
+	events_sigunblock;
 }
 
 void events_del_signal(int sig, int i) {
@@ -713,7 +713,8 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 	 */
 	events_sig_sa.sa_handler = events_sig_handler;
 	events_sig_sa.sa_flags = SA_RESTART;
-	if (sigemptyset(&events_sig_sa.sa_mask) != 0) {
+	/* one after the other, also those delivered at the same time */
+	if (sigfillset(&events_sig_sa.sa_mask) != 0) {
 		cerr("Cannot setup handler for signal no (%d)"CLR_LN, sig);
 		events_sigunblock;
 		return -1;
-- 
2.43.0


From 86820f62f4756cdb3fe4bc3e944cac65d7f25835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 35/84] fix: waitfor() queued waiting tasks twice, looked at
 one task per thread only and ended the run before its caller

---
 src/events.c | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/events.c b/src/events.c
index 15b0f15..848eb0e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2185,7 +2185,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
 	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
@@ -2205,7 +2204,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
@@ -2214,10 +2213,8 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
+				/* others are in the `run queue`, or whatever they wait for puts them there */
+				if (co->status == TASK_SLEEPING) {
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2229,7 +2226,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2244,7 +2240,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2277,10 +2272,8 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					/* others are in the `run queue`, or whatever they wait for puts them there */
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2307,8 +2300,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 54cd9eea23cbaaa3f76fe406d0b2b9500681bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 36/84] fix: queued jobs used their promise after it was
 released

---
 src/events.c          |  5 ++++-
 src/events_internal.h |  2 ++
 src/future.c          | 15 ++++++++++++---
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/events.c b/src/events.c
index 848eb0e..31cad58 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2667,9 +2667,12 @@ static int __future_wrapper(void *arg) {
 
 			if (worker && worker->func)
 				res->object = worker->func(worker->args);
+			/* once set, the `promise` is the submitter's */
+			param_t args = worker->args;
+			worker->args = null;
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
+			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 096fd20..9275cf4 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -192,6 +192,8 @@ struct _promise {
 	ex_memory_t *scope;
 	atomic_spinlock mutex;
 	atomic_flag done;
+	/* the task that sent it to the thread is not through with it */
+	atomic_flag working;
 };
 
 struct future_s {
diff --git a/src/future.c b/src/future.c
index d291fc5..4843666 100644
--- a/src/future.c
+++ b/src/future.c
@@ -57,7 +57,7 @@ void promise_set(promise *p, void *res) {
 }
 
 EVENTS_INLINE values_t promise_wait(promise *p) {
-	while (is_promise(p) && !atomic_flag_load(&p->done))
+	while (is_promise(p) && (!atomic_flag_load(&p->done) || atomic_flag_load(&p->working)))
 		yield_active_info();
 
 	return p->result->value;
@@ -65,6 +65,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 
 EVENTS_INLINE void promise_clean(promise *p) {
 	if (is_promise(p) && atomic_flag_load(&p->done)) {
+		while (atomic_flag_load(&p->working))
+			yield();
+
 		if (is_data(p->args)) {
 			$delete(p->args);
 			p->args = null;
@@ -263,6 +266,8 @@ static void queue_work_handler(param_t args) {
 
 	if (job->erred)
 		errno = job->erred;
+
+	atomic_flag_clear(&job->working);
 }
 
 promise *alloc_promise(void) {
@@ -273,6 +278,7 @@ promise *alloc_promise(void) {
 		f->result->value.integer = 0;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
+		atomic_flag_clear(&f->working);
 		f->type = DATA_PROMISE;
 	}
 
@@ -315,7 +321,9 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 
 			array_t data = arrays(2, thrd, f);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
+			atomic_flag_test_and_set(&f->working);
 			if (task_push(t, false) == TASK_ERRED) {
+				atomic_flag_clear(&f->working);
 				promise_clean(f);
 				if (!is_empty(data))
 					$delete(data);
@@ -367,6 +375,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 
 			array_t data = arrays(2, thrd, f);
 			tasks_t *t = create_task(Kb(32), (data_func_t)queue_work_handler, data, false, true);
+			atomic_flag_test_and_set(&f->working);
 			if (task_push(t, false) == TASK_ERRED) {
 				events_free(f);
 				$delete(args);
@@ -394,7 +403,7 @@ void queue_wait(array_t work, then_cb then) {
 	if (is_data(work)) {
 		while ($size(work) > 0) {
 			foreach(worker in work) {
-				if (!queue_is_valid(worker.object)) {
+				if (!queue_is_valid(worker.object) && !atomic_flag_load(&((promise *)worker.object)->working)) {
 					if (!is_empty(then)) {
 						defer_free(worker.object);
 						promise *value = (promise *)worker.object;
@@ -430,7 +439,7 @@ values_t queue_get(void *self) {
 	}
 
 	if (!is_empty(p)) {
-		while (!atomic_flag_load(&p->done))
+		while (!atomic_flag_load(&p->done) || atomic_flag_load(&p->working))
 			yield_active_info();
 
 		if (p->result->is_array == 1) {
-- 
2.43.0


From 4fd22e6b845a541009c79999014392d490e72d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 37/84] fix: a queued job returning an array crashed its thread

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 31cad58..0b47322 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2673,7 +2673,7 @@ static int __future_wrapper(void *arg) {
 			promise_set(worker, res->object);
 
 			$delete(args);
-			if (is_data(res->object) && is_empty(scope_local()->local))
+			if (is_data(res->object) && (is_empty(scope_local()) || is_empty(scope_local()->local)))
 				$delete(res->object);
 
 			scope_unwind(scope_local());
-- 
2.43.0


From dca11ac1e03717ec17f9c75bdd5e6a187b0094a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 38/84] fix: what a thread wrote was not ordered before
 thrd_is_done()

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 4843666..87b8044 100644
--- a/src/future.c
+++ b/src/future.c
@@ -202,7 +202,7 @@ param_t thrd_data(size_t numof, ...) {
 }
 
 EVENTS_INLINE bool thrd_is_done(future_t f) {
-	return atomic_flag_load_explicit(&f->promise->done, memory_order_relaxed);
+	return atomic_flag_load(&f->promise->done);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 8b4068db4af9c4964433eaa7139c6ee3b24b8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 39/84] fix: thrd_get() lost or mixed up the exceptions of
 threads

---
 src/events_internal.h | 14 ++++++++------
 src/future.c          |  5 +++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/events_internal.h b/src/events_internal.h
index 9275cf4..9d3a504 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -196,12 +196,6 @@ struct _promise {
 	atomic_flag working;
 };
 
-struct future_s {
-	data_types type;
-	os_thread_t thread;
-	promise promise[1];
-};
-
 struct sys_signal_s {
 	int sig;
 	bool is_running;
@@ -535,6 +529,14 @@ struct ex_memory_s {
 	ex_backtrace_t backtrace[1];
 };
 
+struct future_s {
+	data_types type;
+	os_thread_t thread;
+	promise promise[1];
+	/* where the thread leaves its exception */
+	ex_memory_t caught[1];
+};
+
 struct ex_guard_s {
 	data_types type;
 	ex_memory_t scope[1];
diff --git a/src/future.c b/src/future.c
index 87b8044..9396e0f 100644
--- a/src/future.c
+++ b/src/future.c
@@ -3,7 +3,7 @@
 static future_t future_create(thrd_func_t func, void *args) {
 	future_t fut = events_calloc(1, _mem_align_up(sizeof(struct future_s), 2));
 	if (defer_free(fut)) {
-		fut->promise->scope = get_scope();
+		fut->promise->scope = fut->caught;
 		fut->promise->result->is_array = false;
 		fut->promise->args = args;
 		fut->promise->func = func;
@@ -140,7 +140,8 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		/* it `set` the promise, but may not be through yet */
+		if (os_join(f->thread, (uint32_t)-1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
-- 
2.43.0


From e201e4353108a0ec1825b01b8c8ced28fe901635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 40/84] fix: the task queue's storage was released under its
 thieves, an empty one yielded garbage and taking raced stealing

---
 src/deque.c           | 22 +++++++++++++---------
 src/events_internal.h |  4 +++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..897ce2c 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -55,7 +55,8 @@ void deque_resize(events_deque_t *q) {
 	for (i = t; i < b; i++)
 		new->buffer[i % new_size] = a->buffer[i % old_size];
 
-	atomic_store_explicit(&q->array, new, memory_order_relaxed);
+	new->retired = a;
+	atomic_store_explicit(&q->array, new, memory_order_release);
 	/* The question arises as to the appropriate timing for releasing memory
 	 * associated with the previous array denoted by *a. In the original Chase
 	 * and Lev paper, this task was undertaken by the garbage collector, which
@@ -64,23 +65,22 @@ void deque_resize(events_deque_t *q) {
 	 *
 	 * In our context, the responsible deallocation of *a cannot occur at this
 	 * point, as another thread could potentially be in the process of reading
-	 * from it. Thus, we opt to abstain from freeing *a in this context,
-	 * resulting in memory leakage. It is worth noting that our expansion
+	 * from it. Thus, we opt to abstain from freeing *a in this context, it is
+	 * released together with the queue. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
-	 * this design choice ensures that any leaked memory remains bounded by the
+	 * this design choice ensures that any memory kept remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
-	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
-	if (t <= b) {
+	if ((ptrdiff_t)(b - t) >= 0) {
 		/* Non-empty queue */
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[b % a->size], memory_order_relaxed);
 		if (t == b) {
@@ -118,7 +118,7 @@ tasks_t *deque_steal(events_deque_t *q) {
 	atomic_thread_fence(memory_order_seq_cst);
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_acquire);
 	tasks_t *x = TASK_EMPTY_T;
-	if (t < b) {
+	if ((ptrdiff_t)(b - t) > 0) {
 		/* Non-empty queue */
 		deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_consume);
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[t % a->size], memory_order_relaxed);
@@ -137,7 +137,11 @@ void deque_free(events_deque_t *q) {
 		a = atomic_get(deque_array_t *, &q->array);
 		if (a != NULL) {
 			atomic_store(&q->array, NULL);
-			events_free((void *)a);
+			while (a != NULL) {
+				deque_array_t *retired = a->retired;
+				events_free((void *)a);
+				a = retired;
+			}
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index 9d3a504..16e1cbc 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,7 +148,9 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
+	/* the smaller one before it, `thieves` may still be reading */
+	struct deque_array_s *retired;
 	atomic_size_t size;
 	atomic_tasks_t buffer[];
 } deque_array_t;
-- 
2.43.0


From 1a3f8065a3d24d5ee36bfc38700316a6172d48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 41/84] fix: tasks sent to the pool were used after their
 thread could have released them

---
 src/events.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index 0b47322..d6b0af9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1791,8 +1791,10 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 	if (t && t->status == TASK_SUSPENDED && t->cid == DATA_INVALID) {
 		tasks_t *c = active_task();
 		bool is_group = false;
+		uint32_t id;
 		t->cid = (uint32_t)atomic_fetch_add(&sys_event.id_generate, 1) + 1;
 		t->rid = (has_result) ? tasks_create_result()->id : NO_RESULT;
+		id = has_result ? t->rid : t->cid;
 		t->taken = false;
 
 		/* keep track of tasks in waitgroup */
@@ -1820,8 +1822,11 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
+			/* once there, the task is its thread's, which might be through with it already */
 			enqueue_tasks(t);
 		}
+
+		return id;
 	}
 
 	return (t == NULL) ? TASK_ERRED : (has_result ? t->rid : t->cid);
@@ -1844,8 +1849,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2091,10 +2094,7 @@ uint32_t go(param_func_t fn, size_t num_of_args, ...) {
 		param_t params = data_ex(num_of_args, ap);
 		va_end(ap);
 
-		uint32_t rid = task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
-		events_deque_t *q = sys_event.local[results_tid(rid)];
-		atomic_flag_test_and_set(&q->started);
-		return rid;
+		return task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
 	}
 
 	panic("MUST call `events_create_pool()` at startup!");
@@ -2116,8 +2116,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2509,6 +2507,7 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_unlock(&sys_event.lock);
 	deque_push(queue, t);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From 0f268d63b2613fa99d515f289f951d09e86f130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 42/84] fix: tasks sent to the same pool thread by several
 threads overwrote each other

---
 src/events.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index d6b0af9..2caee5c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2502,10 +2502,11 @@ static bool task_take(events_deque_t *queue) {
 
 static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
-	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* a queue has one owner, here whoever holds the lock */
+	atomic_lock(&sys_event.lock);
 	deque_push(queue, t);
+	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
 	atomic_flag_test_and_set(&queue->started);
 }
-- 
2.43.0


From d82327b01127da929ec1f8bceaa92cb8dd6d1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 43/84] fix: the table of task results was released, replaced
 and overrun under other threads

---
 src/events.c          | 36 +++++++++++++++++++++++++++---------
 src/events_internal.h |  2 ++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2caee5c..b7f698c 100644
--- a/src/events.c
+++ b/src/events.c
@@ -353,7 +353,11 @@ EVENTS_INLINE void events_deinit(void) {
 		}
 
 		atomic_init(&sys_event.results, NULL);
-		events_free((void *)r);
+		while (r != NULL) {
+			results_data_t *kept = (results_data_t *)r[-1];
+			events_free((void *)(r - 1));
+			r = kept;
+		}
 	}
 
 	if (events_fsevents_tasks != null) {
@@ -1189,7 +1193,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1682,12 +1685,26 @@ static EVENTS_INLINE void task_yielding(tasks_t *co) {
 }
 
 static results_data_t tasks_create_result(void) {
-	results_data_t result, *results;
-	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
+	results_data_t result, *results, *grown;
+	size_t id;
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
+	atomic_lock(&sys_event.lock);
+	id = atomic_load(&sys_event.result_id_generate);
 	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
+	if (results == NULL || id == sys_event.results_size) {
+		/* other threads might still use the current table, it is kept
+		in front of the first entry until `events_deinit()` */
+		sys_event.results_size = id ? id * 2 : sys_event.queue_size;
+		grown = events_malloc((sys_event.results_size + 1) * sizeof(results[0]));
+		if (grown == NULL)
+			abort();
+
+		grown[0] = (results_data_t)results;
+		if (results != NULL)
+			memcpy((void *)(grown + 1), (void *)results, id * sizeof(results[0]));
+
+		results = grown + 1;
+	}
 
 	result->is_ready = false;
 	result->is_terminated = false;
@@ -1698,6 +1715,8 @@ static results_data_t tasks_create_result(void) {
 	result->type = DATA_RESULT;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_store(&sys_event.result_id_generate, id + 1);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1819,7 +1838,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			/* once there, the task is its thread's, which might be through with it already */
@@ -1857,7 +1875,8 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 }
 
 static EVENTS_INLINE results_data_t task_result_get(uint32_t id) {
-	return (results_data_t)atomic_load_explicit(&sys_event.results[id], memory_order_relaxed);
+	results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+	return (results_data_t)results[id];
 }
 
 EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
@@ -1874,7 +1893,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 16e1cbc..19da0a0 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -255,6 +255,8 @@ struct sys_events_s {
 	int max_fd;
 	size_t cpu_count;
 	size_t queue_size;
+	/* entries `results` has room for */
+	size_t results_size;
 	size_t timeout_vec_size; /* #of elements in events_t.timeout.vec[0] */
 	size_t timeout_vec_of_vec_size; /* ... in timeout.vec_of_vec[0] */
 #if defined(_WIN32)
-- 
2.43.0


From 2448fa8f990d6d2285defb8b8fd1329ae9cfb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 44/84] fix: what a pool task wrote was not ordered before its
 result became ready

---
 src/events.c          | 21 +++++++++++----------
 src/events_internal.h |  6 +++---
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/events.c b/src/events.c
index b7f698c..3fb698e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1185,12 +1185,12 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 		atomic_thread_fence(memory_order_seq_cst);
 		if (data != NULL && co->rid != NO_RESULT) {
 			results[co->rid]->result.object = data;
-			results[co->rid]->is_ready = true;
+			atomic_store_explicit(&results[co->rid]->is_ready, true, memory_order_release);
 			co->results = &results[co->rid]->result;
 		}
 
 		if (co->rid != NO_RESULT) {
-			results[co->rid]->is_terminated = true;
+			atomic_store_explicit(&results[co->rid]->is_terminated, true, memory_order_release);
 			co->status = TASK_FINISH;
 		}
 	}
@@ -1706,9 +1706,9 @@ static results_data_t tasks_create_result(void) {
 		results = grown + 1;
 	}
 
-	result->is_ready = false;
-	result->is_terminated = false;
-	result->is_canceled = false;
+	atomic_init(&result->is_ready, false);
+	atomic_init(&result->is_terminated, false);
+	atomic_init(&result->is_canceled, false);
 	result->id = id;
 	result->result.object = NULL;
 	result->generator = NULL;
@@ -1886,18 +1886,18 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 EVENTS_INLINE bool task_is_canceled(void) {
 	uint32_t id = active_task()->rid;
 	/* without a result there is no id to cancel */
-	return id == NO_RESULT ? false : task_result_get(id)->is_canceled;
+	return id == NO_RESULT ? false : atomic_load_explicit(&task_result_get(id)->is_canceled, memory_order_acquire);
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-		results[id]->is_canceled = true;
+		atomic_store_explicit(&results[id]->is_canceled, true, memory_order_release);
 	}
 }
 
 EVENTS_INLINE values_t await_for(uint32_t id) {
-	while (!task_result_get(id)->is_terminated)
+	while (!atomic_load_explicit(&task_result_get(id)->is_terminated, memory_order_acquire))
 		yield();
 
 	return results_for(id);
@@ -1905,7 +1905,8 @@ EVENTS_INLINE values_t await_for(uint32_t id) {
 
 EVENTS_INLINE bool task_is_ready(uint32_t id) {
 	results_data_t ready = task_result_get(id);
-	return ready->is_ready || ready->is_terminated;
+	return atomic_load_explicit(&ready->is_ready, memory_order_acquire)
+		|| atomic_load_explicit(&ready->is_terminated, memory_order_acquire);
 }
 
 EVENTS_INLINE uint32_t task_id(void) {
@@ -1919,7 +1920,7 @@ int results_tid(uint32_t rid) {
 
 EVENTS_INLINE values_t results_for(uint32_t id) {
 	results_data_t result = task_result_get(id);
-	if (result->is_ready)
+	if (atomic_load_explicit(&result->is_ready, memory_order_acquire))
 		return result->result;
 
 	return data_values_empty->value;
diff --git a/src/events_internal.h b/src/events_internal.h
index 19da0a0..537fb63 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -210,9 +210,9 @@ typedef struct results_data {
 	data_types type;
 	int id;
 	int tid;
-	bool is_canceled;
-	bool is_ready;
-	bool is_terminated;
+	atomic_bool is_canceled;
+	atomic_bool is_ready;
+	atomic_bool is_terminated;
 	values_t result;
 	generator_t generator;
 } _results_data_t, *results_data_t;
-- 
2.43.0


From e4b4bdff3764ccf67b70cf7a918d819243185648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 45/84] fix: waitgroup tasks crashed when fewer than planned,
 their results and locks were used after release, and a group waiting for
 another pool task never ended

---
 src/events.c          | 31 ++++++++++++++++++-------------
 src/events_internal.h |  3 ++-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/events.c b/src/events.c
index 3fb698e..d99721d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -104,7 +104,8 @@ struct task_group_s {
 	bool threaded;
 	bool taken;
 	size_t capacity;
-	size_t count;
+	/* threads still working on it */
+	atomic_size_t count;
 	array_t results;
 	array_t group;
 };
@@ -2064,7 +2065,7 @@ static EVENTS_INLINE task_group_t *create_task_group(void) {
 	wg->threaded = false;
 	wg->taken = false;
 	wg->capacity = 0;
-	wg->count = 0;
+	atomic_init(&wg->count, 0);
 	wg->type = DATA_TASKGROUP;
 	return wg;
 }
@@ -2085,15 +2086,16 @@ static void tasks_poster(waitgroup_t wg) {
 		int c, i, k;
 		if (t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
 			t->task_group->taken = true;
+			atomic_store(&wg->count, $size(sys_event.tasks_cpu_idx));
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
 				}
-				q->tasks = wg;
+				atomic_store(&q->tasks, wg);
 			}
 
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
@@ -2165,9 +2167,8 @@ waitgroup_t waitgroup(uint32_t capacity) {
 
 		wg->threaded = true;
 		wg->capacity = resized;
-		wg->count = active_cores;
 
-		for (i = 0; i < active_cores; i++) {
+		for (i = 0; __thrd()->is_main && i < active_cores; i++) {
 			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
 			if (is_ptr_usable(q) && is_data(q->jobs)) {
 				if ($capacity(q->jobs) < resized) {
@@ -2197,12 +2198,13 @@ EVENTS_INLINE size_t tasks_count(task_group_t *wg) {
 	return 0;
 }
 
+static bool task_take(events_deque_t *queue);
 static void __thrd_waitfor(events_deque_t *q) {
 	tasks_t *co, *t = active_task();
-	waitgroup_t wg = q->tasks;
+	waitgroup_t wg = atomic_get(waitgroup_t, &q->tasks);
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	q->tasks = NULL;
+	atomic_store(&q->tasks, NULL);
 
 	foreach(task in q->jobs) {
 		co = (tasks_t *)task.object;
@@ -2237,15 +2239,16 @@ static void __thrd_waitfor(events_deque_t *q) {
 				}
 
 				tasks_info(t, 1);
+				/* the group might wait for other tasks sent here */
+				task_take(q);
 				yield();
 			}
 		}
 		igroup = 0;
 	}
 
-	atomic_lock($lock(wg->group));
-	wg->count--;
-	atomic_unlock($lock(wg->group));
+	/* from here on the group might be gone */
+	atomic_fetch_sub(&wg->count, 1);
 }
 
 array_t waitfor(waitgroup_t wg) {
@@ -2261,6 +2264,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* shared by all threads, is not to be moved */
+		$reserve(wgr, $size(wg->group) + 1);
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
@@ -2302,7 +2307,7 @@ array_t waitfor(waitgroup_t wg) {
 			itask = 0;
 		}
 
-		while ((int)wg->count > 0)
+		while (atomic_load(&wg->count) > 0)
 			yield();
 
 		if ($size(wgr) == 0) {
@@ -2541,7 +2546,7 @@ static void __tasks_pool_main(param_t args) {
 	while (!atomic_flag_load_explicit(&queue->shutdown, memory_order_relaxed)) {
 		active_info();
 		task_take(queue);
-		if (!is_empty(queue->tasks))
+		if (!is_empty(atomic_get(waitgroup_t, &queue->tasks)))
 			__thrd_waitfor(queue);
 		else if (__thrd()->task_count > 1 || __thrd()->loop != NULL)
 			yield();
diff --git a/src/events_internal.h b/src/events_internal.h
index 537fb63..a4d23dd 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -160,7 +160,8 @@ typedef struct events_deque_s {
 	data_types type;
 	os_thread_t thread;
 	array_t jobs;
-	waitgroup_t tasks;
+	/* `waitgroup_t` posted to this thread */
+	atomic_ptr_t tasks;
 	events_t *loop;
 	future *pool;
 	events_cacheline_t _pad;
-- 
2.43.0


From 890aee956f3e4349f91b15655b6cb8d3058adef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 46/84] fix: the task with the first result id could not be
 canceled

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index d99721d..af78323 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1891,7 +1891,7 @@ EVENTS_INLINE bool task_is_canceled(void) {
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
+	if ((int)id >= 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		atomic_store_explicit(&results[id]->is_canceled, true, memory_order_release);
 	}
-- 
2.43.0


From 9547cf6031cd839427236f816a516d5c1f4723a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 47/84] fix: rpmemalign(), rpposix_memalign(),
 rpaligned_calloc() and rpmalloc_thread_collect() were declared but not in the
 library

---
 src/rpmalloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index ca12460..133f56a 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -3005,7 +3005,7 @@ rpaligned_alloc(size_t alignment, size_t size) {
 	return _rpmalloc_aligned_allocate(heap, alignment, size);
 }
 
-extern inline RPMALLOC_ALLOCATOR void *
+extern RPMALLOC_ALLOCATOR void *
 rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	size_t total;
 #if ENABLE_VALIDATE_ARGS
@@ -3031,11 +3031,11 @@ rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	return block;
 }
 
-extern inline RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
+extern RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
 	return rpaligned_alloc(alignment, size);
 }
 
-extern inline int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
+extern int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
 	if (memptr)
 		*memptr = rpaligned_alloc(alignment, size);
 	else
@@ -3068,7 +3068,7 @@ extern size_t rpmalloc_usable_size(void *ptr) {
 	return 0;
 }
 
-extern inline void
+extern void
 rpmalloc_thread_collect(void) {}
 
 void
-- 
2.43.0


From e5f232b0a57ed38fbe58ebd1425ccbbf807268ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 48/84] fix: allocations of impossible sizes and overflowing
 element counts gave small blocks or crashed

---
 src/rpmalloc.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 133f56a..a9f6c46 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -496,11 +496,9 @@ _Static_assert((SMALL_GRANULARITY &(SMALL_GRANULARITY - 1)) == 0, "Small granula
 _Static_assert((SPAN_HEADER_SIZE &(SPAN_HEADER_SIZE - 1)) == 0, "Span header size must be power of two");
 #endif
 
-#if ENABLE_VALIDATE_ARGS
-//! Maximum allocation size to avoid integer overflow
+//! Maximum allocation size, what is added for headers, alignment and padding cannot overflow
 #undef  MAX_ALLOC_SIZE
-#define MAX_ALLOC_SIZE            (((size_t)-1) - _memory_span_size)
-#endif
+#define MAX_ALLOC_SIZE            (((size_t)-1) >> 1)
 
 #define pointer_offset(ptr, ofs) (void*)((char*)(ptr) + (ptrdiff_t)(ofs))
 #define pointer_diff(first, second) (ptrdiff_t)((const char*)(first) - (const char*)(second))
@@ -2198,6 +2196,10 @@ static void *_rpmalloc_allocate(heap_t *heap, size_t size) {
 		return _rpmalloc_allocate_medium(heap, size);
 	else if (size <= LARGE_SIZE_LIMIT)
 		return _rpmalloc_allocate_large(heap, size);
+	if (UNEXPECTED(size >= MAX_ALLOC_SIZE)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	return _rpmalloc_allocate_huge(heap, size);
 }
 
@@ -2205,6 +2207,11 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 	if (alignment <= SMALL_GRANULARITY)
 		return _rpmalloc_allocate(heap, size);
 
+	if (UNEXPECTED(size >= MAX_ALLOC_SIZE)) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 #if ENABLE_VALIDATE_ARGS
 	if ((size + alignment) < size) {
 		errno = EINVAL;
@@ -2482,6 +2489,11 @@ static void _rpmalloc_deallocate(void *p) {
 
 //! Reallocate the given block to the given size
 static void *_rpmalloc_reallocate(heap_t * heap, void *p, size_t size, size_t oldsize, unsigned int flags) {
+	if (UNEXPECTED(size >= MAX_ALLOC_SIZE)) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	if (p) {
 		//Grab the span using guaranteed span alignment
 		span_t *span = (span_t *)((uintptr_t)p & _memory_span_mask);
@@ -2966,6 +2978,10 @@ rpcalloc(size_t num, size_t size) {
 	}
 #endif
 #else
+	if (UNEXPECTED(size && num > MAX_ALLOC_SIZE / size)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	total = num * size;
 #endif
 	heap_t *heap = get_thread_heap();
@@ -3023,6 +3039,10 @@ rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	}
 #endif
 #else
+	if (UNEXPECTED(size && num > MAX_ALLOC_SIZE / size)) {
+		errno = ENOMEM;
+		return 0;
+	}
 	total = num * size;
 #endif
 	void *block = rpaligned_alloc(alignment, total);
-- 
2.43.0


From e8e36334571a7c7cc549809b637e44e085f2510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 49/84] fix: a descriptor in error state was not reported to
 its callback

---
 src/epoll.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/epoll.c b/src/epoll.c
index 7d7bfd7..b6b2847 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -167,6 +167,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0);
+			/* whoever waits is to try again and see the error */
+			if ((event->events & EPOLLERR) != 0)
+				revents |= EVENTS_READWRITE;
 			/* a callback of this turn might have changed the interest */
 			revents &= target->events;
 			revents |= ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
-- 
2.43.0


From 1651cdd0a48f37ad1b007f6e725626fad2b82624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 50/84] fix: of two tasks waiting for one descriptor only the
 second was resumed

---
 src/events.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index af78323..a4ded65 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1431,16 +1431,42 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
+/* A task waiting for a descriptor; several might wait for the same one.
+Lives on the stack of that task. */
+typedef struct waiter_s waiter_t;
+struct waiter_s {
+	int bits;
+	tasks_t *task;
+	waiter_t *next;
+};
+
 static void wait_cb(fds_t fd, int event, void *arg) {
-	tasks_t *t = (tasks_t *)arg;
+	waiter_t *next, *waiting = null, **last = &waiting, *w = (waiter_t *)arg;
 	tasklist_t *l = __thrd()->run_queue;
-	t->ready = true;
-	enqueue(l, t);
+	int bits = 0;
 	events_del(fd);
-	events_target(fd)->events = event;
+	for (; w != null; w = next) {
+		next = w->next;
+		if ((event & w->bits) != 0 || (event & EVENTS_CLOSED) == EVENTS_CLOSED) {
+			w->task->ready = true;
+			enqueue(l, w->task);
+		} else {
+			w->next = null;
+			*last = w;
+			last = &w->next;
+			bits |= w->bits;
+		}
+	}
+
+	if (waiting != null)
+		events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)waiting);
+	else
+		events_target(socket2fd(fd))->events = event;
 }
 
 void async_wait(int fd, int rw) {
+	waiter_t *w, self = {0, __thrd()->running, null}, *first = &self;
+	events_fd_t *target;
 	int bits = 0;
 	switch (rw) {
 		case 'r':
@@ -1451,7 +1477,22 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	self.bits = bits;
+	if (EVENTS_IS_INITD_AND_FD_IN_RANGE(socket2fd(fd))) {
+		target = events_target(socket2fd(fd));
+		if (target->loop_id == __thrd()->loop->loop_id && target->callback == wait_cb) {
+			first = (waiter_t *)target->cb_arg;
+			for (w = first; true; w = w->next) {
+				bits |= w->bits;
+				if (w->next == null)
+					break;
+			}
+
+			w->next = &self;
+		}
+	}
+
+	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)first);
 	task_switch(__thrd()->current_handle);
 }
 
-- 
2.43.0


From 80b8107d6cd6ba726e668a3b4ee69848c4b87a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 51/84] fix: freed pseudo descriptors stayed in use and closing
 one could close an unrelated descriptor

---
 src/os_unix.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 09aafe1..c817e89 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -346,17 +346,11 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r, can_clear = events_valid_fd(fd);
-	if (can_clear)
+	int real = events_get_fd(fd);
+	if (events_valid_fd(fd))
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
-	if (can_clear) {
-		fdTable[fd].type = (fd_types)FD_UNUSED;
-		fdTable[fd].fd = TASK_ERRED;
-	}
-
-	return r;
+	return close(real);
 }
 
 EVENTS_INLINE int os_connect(fds_t s, const struct sockaddr *name, int namelen) {
@@ -505,6 +499,8 @@ void events_free_fd(int pseudo) {
 			events_free(fdTable[pseudo].path);
 			fdTable[pseudo].path = NULL;
 		}
+		fdTable[pseudo].type = (fd_types)FD_UNUSED;
+		fdTable[pseudo].fd = TASK_ERRED;
 		release_lock(pseudo);
 	}
 }
-- 
2.43.0


From 3225b641d7aa33354728b1a7e3c2f652040cd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 52/84] fix: assigning a handle to a pseudo descriptor lost its
 event descriptor

---
 src/os_unix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_unix.c b/src/os_unix.c
index c817e89..cdcb2f8 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -466,6 +466,8 @@ EVENTS_INLINE bool events_assign_fd(filefd_t handle, int pseudo) {
 			return false;
 		}
 #else
+		if (fdTable[pseudo].type == FD_FILE_ASYNC || fdTable[pseudo].type == FD_CHILD)
+			close(fdTable[pseudo].event_fd);
 		fdTable[pseudo].event_fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
 #endif
 		return true;
-- 
2.43.0


From aa7f255772a75b65b0cac45b3cb91c410bceee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 53/84] fix: errno of a queued job was lost when it returned
 null or other tasks ran before its waiter

---
 src/future.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 9396e0f..919edb9 100644
--- a/src/future.c
+++ b/src/future.c
@@ -41,10 +41,10 @@ void promise_free(ex_memory_t *scope, void *data) {
 
 void promise_set(promise *p, void *res) {
 	atomic_lock(&p->mutex);
-	if (!is_empty(res)) {
-		if (res == casting(DATA_INVALID))
-			p->erred = errno;
+	if (is_empty(res) || res == casting(DATA_INVALID))
+		p->erred = errno;
 
+	if (!is_empty(res)) {
 		if (is_data(res)) {
 			p->result->is_array = true;
 			p->result->value.object = data_tuple(data_copy((array_t)p->result->extended, res));
@@ -60,6 +60,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 	while (is_promise(p) && (!atomic_flag_load(&p->done) || atomic_flag_load(&p->working)))
 		yield_active_info();
 
+	if (p->erred)
+		errno = p->erred;
+
 	return p->result->value;
 }
 
@@ -443,6 +446,10 @@ values_t queue_get(void *self) {
 		while (!atomic_flag_load(&p->done) || atomic_flag_load(&p->working))
 			yield_active_info();
 
+		/* others ran since the job was through */
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From 824340afadd059a8e7bf66026e131fea020b56a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 54/84] fix: fs_close() refused a descriptor number that was
 reused since

---
 src/async_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 36e3298..3c5de70 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -623,11 +623,13 @@ EVENTS_INLINE ssize_t fs_sendfile(int fd_out, int fd_in, off_t *offset, size_t l
 
 EVENTS_INLINE int fs_close(int fd) {
 	future *thrd = futures_pool();
+#ifdef _WIN32
 	if (thrd->last_fd == fd) {
 		thrd->last_fd = TASK_ERRED;
 		return TASK_ERRED;
 	}
 
+#endif
 	int r = queue_get(queue_work(thrd, _os_close, 1, casting(fd))).integer;
 	thrd->last_fd = fd;
 	fd = TASK_ERRED;
-- 
2.43.0


From c27f32887df2c7bfbeb39c552f8136d23432f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 55/84] fix: fs_readfile() took partial and failed reads for
 the file

---
 src/async_io.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 3c5de70..8691522 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -713,13 +713,18 @@ int fs_writefile(const char *path, char *text) {
 
 char *fs_readfile(const char *path) {
 	char *buffer = null;
-	int fd = 0;
-	size_t len = fs_filesize(path);
-	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) > 0) {
+	int fd, n = 0;
+	size_t done = 0, len = fs_filesize(path);
+	if (len > 0 && (fd = fs_open(path, O_RDONLY, 0)) != TASK_ERRED) {
 		if (defer_free(buffer = events_calloc(1, _mem_align_up(len + 1, 2)))) {
-			fs_read(fd, buffer, len);
-			fs_close(fd);
+			while (done < len && (n = fs_read(fd, buffer + done, (uint32_t)(len - done))) > 0)
+				done += n;
+
+			if (n < 0)
+				buffer = null;
 		}
+
+		fs_close(fd);
 	}
 
 	return buffer;
-- 
2.43.0


From 3871ac32ccf01b4cacddee7c7d465794e51028f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 56/84] fix: fs_writefile() and fs_touch() kept old contents
 and reported failed and partial writes as success

---
 src/async_io.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 8691522..d092062 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -674,7 +674,8 @@ EVENTS_INLINE size_t fs_filesize(const char *path) {
 }
 
 EVENTS_INLINE bool fs_touch(const char *path) {
-	return fs_writefile(path, "") == 0;
+	int fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR);
+	return fd != TASK_ERRED && fs_close(fd) == 0;
 }
 
 static EVENTS_INLINE void *_os_rename(param_t args) {
@@ -699,16 +700,21 @@ EVENTS_INLINE int fs_copyfile(const char *oldfile, const char *newfile) {
 }
 
 int fs_writefile(const char *path, char *text) {
-	int len, fd;
-	if ((fd = fs_open(path, O_WRONLY | O_CREAT, S_IRUSR | S_IWUSR)) > 0) {
-		if ((len = (int)strlen(text)) > 0)
-			len = fs_write(fd, text, len);
+	int err, n = 0, done = 0, fd, len = (int)strlen(text);
+	if ((fd = fs_open(path, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR)) == TASK_ERRED)
+		return TASK_ERRED;
+
+	while (done < len && (n = fs_write(fd, text + done, len - done)) > 0)
+		done += n;
 
-		if (!fs_close(fd))
-			return len;
+	err = os_geterror();
+	if (done < len) {
+		fs_close(fd);
+		errno = err;
+		return TASK_ERRED;
 	}
 
-	return task_code();
+	return fs_close(fd) == 0 ? len : TASK_ERRED;
 }
 
 char *fs_readfile(const char *path) {
-- 
2.43.0


From e12eb5eae9f13afb38762cfc2d5e0a7288b13131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 57/84] fix: copyfile() skipped parts after partial transfers,
 could run for ever and hid errors

---
 src/os_unix.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index cdcb2f8..a023ed4 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1440,14 +1440,16 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 
 #if !defined(__APPLE__)
 int copyfile(const char *source, const char *destination) {
-	int result = 0;
+	int result = 0, saved_errno;
 	int input, output;
 	if ((input = open(source, O_RDONLY)) == -1) {
 		return -1;
 	}
 	// Create new or truncate existing at destination
 	if ((output = creat(destination, 0660)) == -1) {
+		saved_errno = errno;
 		close(input);
+		errno = saved_errno;
 		return -1;
 	}
 
@@ -1472,16 +1474,22 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		/* this moves the offset on */
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			/* the source got shorter meanwhile */
+			break;
 		}
 	}
 
+	saved_errno = errno;
 	close(input);
-	close(output);
+	if (close(output) == -1 && result == 0)
+		return -1;
 
+	errno = saved_errno;
 	return result;
 }
 #endif
-- 
2.43.0


From 5d7f64750ff3e5239141e215948fbd8b5bdedb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 58/84] fix: async_connect did not report the error of the
 failed connection

---
 src/async_io.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index d092062..f526a12 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -227,6 +227,10 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 			errno = EDESTADDRREQ;
 			return -1;
 		}
+	} else if (strlen(hostname) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
@@ -248,6 +252,7 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	// start connecting
 	if (is_unix) {
 		uds->addr = events_get_sockaddr(fd);
+		memset(uds->addr, 0, sizeof(*uds->addr));
 		strncpy(uds->addr->sun.sun_path, hostname, sizeof(uds->addr->sun.sun_path) - 1);
 		uds->addr->sun.sun_family = AF_UNIX;
 		uds->socket= fd;
@@ -270,9 +275,11 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	}
 
 	if (err < 0 && (os_geterror() != EINPROGRESS && os_geterror() != EAGAIN)) {
+		err = os_geterror();
 		close(fd);
 		if (is_unix)
 			events_free(uds);
+		errno = err;
 		return -1;
 	}
 
@@ -280,19 +287,20 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	async_wait(fd, 'w');
 	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
 		events_target(socket2fd(fd))->uds = uds;
+		events_target(socket2fd(fd))->udp = null;
 		return fd;
 	}
 
 	// report error
+	err = os_geterror();
+	n = 0;
 	sn = (int)sizeof(n);
 	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
-	if (n == 0)
-		errno = os_geterror();
-
 	if (is_unix)
 		events_free(uds);
 
 	close(fd);
+	errno = n ? n : err;
 	return -1;
 }
 
-- 
2.43.0


From 29820648f8cf145ac45bc334c29c6358cf303ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 59/84] fix: async_accept failed when the connection was gone,
 and kept the former kind of the descriptor

---
 src/async_io.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index f526a12..4e4eb54 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -173,21 +173,26 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 fds_t async_accept(fds_t fd, char *server, int *port) {
 	fds_t cfd;
 	int one;
-	u_saddr_t usa, *s_usa = events_get_sockaddr(fd);
-	uchar *ip;
+	u_saddr_t usa;
 	socklen_t len;
 	bool is_unix = socket_is_uds(socket2fd(fd));
 
 	memset(&usa, 0, sizeof(usa));
-	async_wait(fd, 'r');
-	len = is_unix ? sizeof(s_usa->sun)
-		: (s_usa->sa.sa_family == AF_INET6 ? sizeof(s_usa->sin6) : sizeof(s_usa->sin));
-	if ((cfd = accept(fd, (is_unix ? (struct sockaddr *)&usa.sun : (struct sockaddr *)&usa.sa), &len)) < 0) {
+	do {
+		async_wait(fd, 'r');
+		len = sizeof(usa);
+		/* the connection may be gone by now */
+	} while ((cfd = accept(fd, &usa.sa, &len)) < 0 && os_geterror() == EAGAIN);
+
+	if (cfd < 0) {
 		errno = os_geterror();
 		return -1;
 	}
 
 	memcpy(&events_get_sockaddr(cfd)->storage, &usa.storage, sizeof(usa.storage));
+	/* the number may have been another kind of socket */
+	events_target(socket2fd(cfd))->uds = null;
+	events_target(socket2fd(cfd))->udp = null;
 	if (!is_unix && server) {
 		async_sockaddr_str(server, 16, &usa);
 	} else if (is_unix && server) {
-- 
2.43.0


From e9fdb8636f210520c48fc058cce68d22d0da25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 60/84] fix: async_bind and async_socket hid a failed listen
 and cut over-long paths and addresses

---
 src/async_io.c | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 4e4eb54..996d23a 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -33,12 +33,15 @@ void async_sockaddr_str(char *dst, size_t dst_len, const u_saddr_t *usa) {
 
 fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol) {
 	fds_t fd;
-	int len, err, proto, off = 0, on = 1;
-	char ipbuf[22] = {0};
-	char *ip = ipbuf;
+	int err, proto, off = 0, on = 1;
 	u_saddr_t usa;
 	memset(&usa, 0, sizeof(usa));
 	socklen_t sn = 0;
+	if (protocol == -1 && strlen(address) >= sizeof(usa.sun.sun_path)) {
+		errno = ENAMETOOLONG;
+		return DATA_INVALID;
+	}
+
 	uds_t uds = (protocol == -1) || sa->sa_family == AF_UNIX
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -65,12 +68,11 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
-		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
+		err = bind(fd, (struct sockaddr *)&usa.sa, sizeof(usa.sun));
 	} else {
 		sn = sa->sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
 		err = bind(fd, (struct sockaddr *)sa, sn);
-		events_get_sockaddr(fd)->sa = *sa;
+		memcpy(&usa, sa, sn);
 		if (!err && sa->sa_family == AF_INET6) {
 			/* Could be 6 for IPv6 only or 10 (4+6) for IPv4+IPv6 */
 			/* Set IPv6 only option, but don't abort on errors. */
@@ -80,25 +82,19 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		}
 	}
 
-	if (err < 0) {
-		errno = os_geterror();
+	if (err < 0 || (proto == SOCK_STREAM && listen(fd, backlog) != 0)) {
+		err = os_geterror();
 		close(fd);
 		if (is_unix)
 			events_free(uds);
+		errno = err;
 		return -1;
 	}
 
-	if (proto == SOCK_STREAM) {
-		if (listen(fd, backlog) != 0) {
-			cerr("Cannot listen to %s: %d (%s)"CLR_LN, address, os_geterror(), strerror(errno));
-			close(fd);
-			fd = INVALID_SOCKET;
-			return fd;
-		}
-	}
-
+	memcpy(&events_get_sockaddr(fd)->storage, &usa.storage, sizeof(usa.storage));
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -114,7 +110,9 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
-		if (port)
+		if (is_empty(address))
+			snprintf(host, sizeof(host) - 1, "%d", port);
+		else if (port)
 			snprintf(host, sizeof(host) - 1, "%s:%d", address, port);
 		else
 			snprintf(host, sizeof(host) - 1, "%s", address);
@@ -123,6 +121,10 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 			errno = EDESTADDRREQ;
 			return -1;
 		}
+	} else if (strlen(address) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
@@ -146,27 +148,26 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
+		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
 		sn = usa.sa.sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
 		err = bind(fd, &usa.sa, sn);
 	}
 
-	if (err < 0) {
-		errno = os_geterror();
+	if (err < 0 || (proto == SOCK_STREAM && listen(fd, backlog) != 0)) {
+		err = os_geterror();
 		close(fd);
 		if (is_unix)
 			events_free(uds);
+		errno = err;
 		return -1;
 	}
 
 	memcpy(&events_get_sockaddr(fd)->storage, &usa.storage, sizeof(usa.storage));
-	if (proto == SOCK_STREAM)
-		listen(fd, backlog);
-
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
-- 
2.43.0


From 105b91b7fb3cba03cf85477fbc63335247a62e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 61/84] fix: udp_send answered the last sender, async_sendto
 cut IPv6 addresses short

---
 src/async_udp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..11ca2d2 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,7 +58,8 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
-	socklen_t client_len = sizeof(sockaddr_t);
+	socklen_t client_len = !is_empty(packet->addr) && packet->addr->sa.sa_family == AF_INET6
+		? sizeof(packet->addr->sin6) : sizeof(packet->addr->sin);
 
 	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
@@ -69,7 +70,8 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	/* others may have sent since */
+	u_saddr_t *addr = is_empty(packet->addr) ? events_get_sockaddr(fd2socket(packet->socket)) : packet->addr;
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
-- 
2.43.0


From 0a5f8055d5c0b6fcb1e4e90e8f448b9e6621b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 62/84] fix: udp_recv overflowed the stack of the task and lost
 empty and large datagrams

---
 src/async_udp.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 11ca2d2..9e23a8d 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -95,21 +95,25 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 }
 
 udp_t udp_recv(int fd) {
-	int m;
-	uchar *ip;
-	char buf[Kb(48)] = {0}, buf1[64] = {0};
+	int m, err;
 	udp_t client = null, packet = events_target(fd)->udp;
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
-	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
+	socklen_t client_len = sizeof(*usa);
+	/* more than there is room for on a task's stack */
+	char *buf = events_malloc(Kb(64));
+	if (is_empty(buf))
+		return null;
 
-	while ((m = recvfrom(socket2fd(fd), buf, sizeof(buf), packet->flags, &usa->sa, &client_len)) < 0
+	while ((m = recvfrom(socket2fd(fd), buf, Kb(64), packet->flags, &usa->sa, &client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'r');
+		client_len = sizeof(*usa);
 	}
 
-	if (m > 0) {
-		errno = ENOMEM;
+	err = os_geterror();
+	if (m >= 0) {
+		err = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
 		if (!is_empty(client)) {
 			client->socket = fd;
@@ -122,8 +126,7 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
-				errno = 0;
+				err = 0;
 			} else {
 				if (!is_empty(client->message))
 					events_free(client->message);
@@ -132,11 +135,13 @@ udp_t udp_recv(int fd) {
 					events_free(client->addr);
 
 				events_free(client);
-				return null;
+				client = null;
 			}
 		}
 	}
 
+	events_free(buf);
+	errno = err;
 	return client;
 }
 
-- 
2.43.0


From c8bb16a6495a37ba632be6a66ca091e906338447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 63/84] fix: closing or reading a descriptor with the number of
 a watch acted on the watch

---
 src/os_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a023ed4..2774c12 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -310,7 +310,7 @@ void *inotify_task(param_t args) {
 #endif
 
 int os_read(int fd, char *buf, size_t len) {
-	if (events_valid_fd(fd)) {
+	if (events_valid_fd(fd) && fdTable[fd].type != FD_MONITOR_SYNC) {
 		int ret;
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
 		if (fdTable[fd].type == FD_MONITOR_ASYNC)
@@ -347,6 +347,11 @@ int os_read(int fd, char *buf, size_t len) {
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	int real = events_get_fd(fd);
+#if __linux__
+	/* a descriptor, not the watch of that number */
+	if (events_valid_fd(fd) && fdTable[fd].type == FD_MONITOR_SYNC)
+		return close(fd);
+#endif
 	if (events_valid_fd(fd))
 		events_free_fd(fd);
 
-- 
2.43.0


From 89930f81e5c7b6e1cfa071a077b2d818330728a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 64/84] fix: inotify_next never found the next event

---
 src/os_unix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 2774c12..23cc64f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1261,11 +1261,11 @@ EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
 	int i;
 	for (i = 0; i < ioTableSize; ++i) {
-		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].buf == (char *)event) {
-			char *buf = fdTable[i].buf;
-			size_t numRead = fdTable[i].process->rid;
-			event += sizeof(inotify_t) + event->len;
-			return ((char *)event < buf + numRead) ? event : NULL;
+		if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].buf != NULL) {
+			char *buf = fdTable[i].buf, *next = (char *)event + sizeof(inotify_t) + event->len;
+			int numRead = fdTable[i].process->rid;
+			if ((char *)event >= buf && (char *)event < buf + numRead)
+				return (next < buf + numRead) ? (inotify_t *)next : NULL;
 		}
 	}
 
-- 
2.43.0


From 0fa2e48bfca1d0ab0278c6656a17150f90415d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 65/84] fix: directory watches were never polled, and events
 were given to the wrong or no watch

---
 src/epoll.c           |  32 ++++----
 src/events.c          |   2 +
 src/events_internal.h |   5 +-
 src/os_unix.c         | 172 +++++++++++++++++++++++++++---------------
 4 files changed, 136 insertions(+), 75 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index b6b2847..6d82c67 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,14 +97,15 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
+	if ((event & EVENTS_PATHWATCH) != 0)
+		event |= EVENTS_READ;
+
 	if ((event & EVENTS_READWRITE) == target->events) {
 		return 0;
 	}
 
-	ev.events = ((event & EVENTS_PATHWATCH) != 0
-		? (EPOLLIN | EPOLLET)
-		: (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
-			| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0)));
+	ev.events = ((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
+		| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0);
 	ev.data.u64 = ((uint64_t)target->added << 32) | (uint32_t)fd;
 
 #define SET(op, check_error) do {		    \
@@ -174,18 +175,19 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			revents &= target->events;
 			revents |= ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
-				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-				if (!is_empty(buffer)) {
-					if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
-						events_free(buffer);
-						return -1;
-					}
+				/* the next ones after these */
+				if (target->is_watching)
+					continue;
 
-					async_task(inotify_task, 5, casting(fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
-				}
-
-				return -1;
+				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
+				if (is_empty(buffer))
+					return -1;
+
+				if ((len = read(fd, buffer, Kb(8) + sizeof(inotify_t))) > 0) {
+					target->is_watching = true;
+					async_task(inotify_task, 6, casting(fd), buffer, casting(len), target->callback, target->cb_arg, casting(target->added));
+				} else
+					events_free(buffer);
 			} else if (revents != 0) {
 				(*target->callback)(fd, revents, target->cb_arg);
 			}
diff --git a/src/events.c b/src/events.c
index a4ded65..9ba682f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -536,6 +536,7 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 	if (inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		return -1;
 #else
+	inotify_watch_init(loop, handler, filter);
 	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		|| (events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
@@ -601,6 +602,7 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	target->events = 0;
 	if (is_new) {
 		target->added++;
+		target->is_watching = false;
 		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	}
 
diff --git a/src/events_internal.h b/src/events_internal.h
index a4d23dd..815d75c 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -236,6 +236,8 @@ struct events_fd_s {
 	bool signal_set;
 	bool is_iodispatch;
 	bool is_pathwatcher;
+	/* a task is passing events to their handlers */
+	bool is_watching;
 	bool backend_used;
 	intptr_t _backend; /* can be used by backends (never modified by core) */
 	events_cb callback;
@@ -626,7 +628,8 @@ watch_cb kqueue_watch_callback(events_t *loop);
 void *kqueue_watch_filter(events_t *loop);
 void kqueue_watch_init(events_t *loop, watch_cb handler, void *filter);
 #elif __linux__
-void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter);
+void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter, uint32_t added);
+void inotify_watch_init(events_t *loop, watch_cb handler, void *filter);
 #endif
 
 int fsevents_init(const char *name, watch_cb handler, void *filter);
diff --git a/src/os_unix.c b/src/os_unix.c
index 23cc64f..8fd062a 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -901,7 +901,7 @@ EVENTS_INLINE int os_geterror(void) {
 }
 
 EVENTS_INLINE int events_watch_count(int inotify) {
-	return is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
+	return events_valid_fd(inotify) && is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
 }
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
@@ -1278,22 +1278,71 @@ EVENTS_INLINE const char *fs_events_path(int wd) {
 
 void *inotify_task(param_t args) {
 	inotify_t *event = (inotify_t *)args[1].object;
-	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
+	inotify_handler(args[0].integer, event, args[2].integer,
+		(watch_cb)args[3].func, args[4].object, args[5].u_int);
 	events_free((void *)event);
+	if (events_target(args[0].integer)->added == args[5].u_int)
+		events_target(args[0].integer)->is_watching = false;
 
 	return 0;
 }
 
-void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
+/* The pseudo number of what the kernel calls `wd`. */
+static int inotify_watched(int realfd, int wd) {
+	int i;
+	for (i = 0; i < ioTableSize; ++i) {
+		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].fd == wd
+			&& fdTable[fdTable[i]._fd].type == FD_MONITOR_ASYNC && fdTable[fdTable[i]._fd].fd == realfd)
+			return i;
+	}
+
+	return TASK_ERRED;
+}
+
+static void inotify_forget(int pseudo) {
+	int fd = fdTable[pseudo]._fd;
+	events_fd_t *target = events_target(events_get_fd(fd));
+
+	if (fdTable[fd].inotify_wd == NULL) {
+		events_free_fd(pseudo);
+		return;
+	}
+
+	foreach(watch in fdTable[fd].inotify_wd) {
+		if (watch.integer == pseudo) {
+			$remove(fdTable[fd].inotify_wd, iwatch);
+			break;
+		}
+	}
+
+	events_free_fd(pseudo);
+	if ($size(fdTable[fd].inotify_wd) == 0 && target->loop != null && target->is_pathwatcher)
+		events_del(fd2socket(fdTable[fd].fd));
+}
+
+void inotify_watch_init(events_t *loop, watch_cb handler, void *filter) {
+	fdTable[loop->inotify_fd].proc = (os_cb)handler;
+	fdTable[loop->inotify_fd].data = filter;
+}
+
+void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter, uint32_t added) {
 	char subpath[PATH_MAX] = {0};
 	char *buffer = (char *)event;
 	char *p = buffer;
 
-	while (p < buffer + len) {
+	/* until the descriptor is closed, its number might be in use again */
+	while (p < buffer + len && events_target(fd)->loop != null && events_target(fd)->added == added) {
 		events_monitors action = WATCH_INVALID;
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
-		if (evt->len) {
+		int wd = inotify_watched(fd, evt->wd);
+		p += sizeof(inotify_t) + evt->len;
+		if (wd < 0) {
+			continue;
+		} else if (evt->mask & IN_IGNORED) {
+			/* the directory is gone */
+			inotify_forget(wd);
+		} else if (evt->len) {
 			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
 				action = WATCH_ADDED;
 			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
@@ -1304,13 +1353,17 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 				action = WATCH_MODIFIED;
 
 			if (action) {
-				if (!fdTable[evt->wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[evt->wd].path, SYS_DIRSEP, evt->name);
+				if (fdTable[wd].proc != NULL) {
+					handler = (watch_cb)fdTable[wd].proc;
+					filter = fdTable[wd].data;
+				}
+
+				if (!fdTable[wd].changes)
+					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 
-				handler(evt->wd, action | ~mask, (const char *)(fdTable[evt->wd].changes ? evt->name : subpath), filter);
+				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
 		}
-		p += sizeof(inotify_t) + evt->len;
 	}
 }
 
@@ -1333,11 +1386,8 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 }
 
 int inotify_del_monitor(int wd) {
-	if (fdTable[wd].type == FD_MONITOR_SYNC) {
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC) {
 		__inotify_rm_watch(fdTable[wd]._fd, wd);
-		if ($size(fdTable[fdTable[wd]._fd].inotify_wd) == 0)
-			return events_del(fdTable[wd]._fd);
-
 		return 0;
 	}
 
@@ -1346,12 +1396,8 @@ int inotify_del_monitor(int wd) {
 
 int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			events_free_fd(watch.integer);
-			fdTable[watch.integer].type = FD_UNUSED;
-			fdTable[watch.integer].fd = TASK_ERRED;
-			$remove(fdTable[fd].inotify_wd, iwatch);
-		}
+		while (fdTable[fd].inotify_wd != NULL && $size(fdTable[fd].inotify_wd) > 0)
+			inotify_forget(fdTable[fd].inotify_wd[0].integer);
 
 		os_close(fd);
 		return 0;
@@ -1360,7 +1406,35 @@ int inotify_close(int fd) {
 	return TASK_ERRED;
 }
 
-static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max) {
+static int inotify_attach(int fd, const char *name, uint32_t mask) {
+	int pseudo, wd = inotify_add_watch(events_get_fd(fd), name, mask);
+	if (wd == -1)
+		return wd;
+
+	/* the same directory is the same watch */
+	if ((pseudo = inotify_watched(events_get_fd(fd), wd)) == TASK_ERRED) {
+		/* the kernel never uses a number twice, it is no index of a descriptor */
+		if ((pseudo = events_new_fd(FD_MONITOR_SYNC, fd, wd)) == -1) {
+			inotify_rm_watch(events_get_fd(fd), wd);
+			return -1;
+		}
+
+		fdTable[pseudo]._fd = fd;
+		if (events_is_active()) {
+			if (fdTable[fd].inotify_wd == NULL)
+				fdTable[fd].inotify_wd = array();
+
+			$append_signed(fdTable[fd].inotify_wd, pseudo);
+			fdTable[pseudo].path = str_dup_ex(name);
+		}
+	}
+
+	fdTable[pseudo].proc = fdTable[fd].proc;
+	fdTable[pseudo].data = fdTable[fd].data;
+	return pseudo;
+}
+
+static void inotify_recursive(array_t *found, const char *path, char *subpath, size_t path_max) {
 	DIR *dir;				/* dir structure we are reading */
 	struct dirent *entry;	/* directory entry currently being processed */
 
@@ -1372,16 +1446,10 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 		if (entry->d_type == DT_DIR) {
 			if (str_is("..", entry->d_name) || str_is(".", entry->d_name)) {
 				continue;
-			} else if (snprintf(subpath, path_max, "%s%s%s", path, SYS_DIRSEP, entry->d_name)) {
-				int wd = inotify_add_watch(events_get_fd(fd), subpath, mask);
-				if (wd == -1)
-					continue;
-
-				int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-				$append_signed(fdTable[fd].inotify_wd, pseudo);
-				fdTable[pseudo]._fd = fd;
-				fdTable[pseudo].path = str_dup_ex(subpath);
-				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
+			} else if (snprintf(subpath, path_max, "%s%s%s", path, SYS_DIRSEP, entry->d_name) < (int)path_max) {
+				char *sub = str_dup_ex(subpath);
+				$append(*found, sub);
+				inotify_recursive(found, (const char *)sub, subpath, path_max);
 			}
 		}
 	}
@@ -1390,8 +1458,7 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 }
 
 static EVENTS_INLINE void *_inotify_recursive(param_t args) {
-	inotify_recursive(args[0].integer, args[1].const_char_ptr, args[2].u_int,
-		args[3].char_ptr, args[4].max_size);
+	inotify_recursive((array_t *)args[0].object, args[1].const_char_ptr, args[2].char_ptr, args[3].max_size);
 	return 0;
 }
 
@@ -1400,20 +1467,19 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	mask = (events_is_active()
 		? (IN_ONLYDIR | IN_ACCESS | IN_MODIFY | IN_ATTRIB | IN_MOVE | IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MOVE_SELF)
 		: mask);
-	int wd = inotify_add_watch(events_get_fd(fd), name, mask);
-	if (wd == -1)
-		return wd;
-
-	int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-	if (events_is_active()) {
-		if (fdTable[fd].inotify_wd == NULL)
-			fdTable[fd].inotify_wd = array();
-
-		$append_signed(fdTable[fd].inotify_wd, pseudo);
-		fdTable[pseudo]._fd = fd;
+	int pseudo = inotify_attach(fd, name, mask);
+	if (pseudo >= 0 && events_is_active()) {
+		int wd = fdTable[pseudo].fd;
+		array_t found = array();
 		fdTable[pseudo].changes = 1;
-		fdTable[pseudo].path = str_dup_ex(name);
-		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
+		queue_get(queue_work(futures_pool(), _inotify_recursive, 4, &found, name, subpath, sizeof(subpath)));
+		foreach(sub in found) {
+			/* meanwhile it might have been removed */
+			if (fdTable[pseudo].type == FD_MONITOR_SYNC && fdTable[pseudo]._fd == fd && fdTable[pseudo].fd == wd)
+				inotify_attach(fd, sub.const_char_ptr, mask);
+			events_free(sub.object);
+		}
+		$delete(found);
 	}
 
 	return pseudo;
@@ -1424,20 +1490,8 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 		return inotify_close(fd);
 
 	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
-	if (events_is_active() && events_valid_fd(wd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			if (watch.integer == wd) {
-				$remove(fdTable[fd].inotify_wd, iwatch);
-				break;
-			}
-		}
-	}
-
-	if (events_valid_fd(wd)) {
-		events_free_fd(wd);
-		fdTable[wd].type = FD_UNUSED;
-		fdTable[wd].fd = TASK_ERRED;
-	}
+	if (events_valid_fd(wd) && fdTable[wd].type == FD_MONITOR_SYNC)
+		inotify_forget(wd);
 
 	return inotify_rm_watch(realFd, realWd);
 }
-- 
2.43.0


From 969dda322e7f6390ee7a873961e51303da88f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 66/84] fix: the event queue's descriptor was open in child
 processes

---
 src/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 6d82c67..76f3e5e 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -61,7 +61,7 @@ events_t *events_create(int max_timeout) {
 
 	/* init myself */
 #ifndef _WIN32
-	if ((loop->epfd = epoll_create(sys_event.max_fd)) == -1)
+	if ((loop->epfd = epoll_create1(EPOLL_CLOEXEC)) == -1)
 #else
 	if ((loop->epfd = epoll_create(sys_event.max_fd)) == NULL)
 #endif
-- 
2.43.0


From 35df861af66e7d1a586cb5f4025bdfbac4eb8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 67/84] fix: exec_addenv built a text without end and cut long
 values

---
 src/async_io.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 996d23a..fd8ec44 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -842,20 +842,24 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
-	int i, len;
+	char *k, *v, *grown, *data = env;
+	uint32_t i;
+	size_t len;
 	va_list ap;
 
 	if (num_pairs > 0) {
 		va_start(ap, num_pairs);
 		for (i = 0; i < num_pairs; i++) {
-			/* Copy VARIABLE=VALUE;\0 string into the free space */
+			/* Append VARIABLE=VALUE; to what is there */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = strlen(k) + strlen(v) + 2;
+			if ((grown = events_realloc(data, *size + len + 1)) == NULL)
+				break;
+
+			data = grown;
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 6106cf87351914ba473a33e8e7d15b97f3faace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 68/84] fix: exec gave the wrong arguments and environment,
 exec_wait ignored the time and closed the descriptor with the process's
 number

---
 src/os_unix.c | 109 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 90 insertions(+), 19 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 8fd062a..676971f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -49,7 +49,7 @@ typedef struct {
 	watch_dir_t *dir; /* for watched directory entries */
 #endif
 	array_t inotify_wd; /* for watched directory handles */
-	execinfo_t process[1];
+	execinfo_t *process; /* stays where it is when the table grows */
 } FD_TABLE;
 
 static int ioTableSize = 256;
@@ -118,6 +118,12 @@ void os_shutdown(void) {
 		hIoCompPort = -1;
 	}
 
+	int i;
+	for (i = 0; i < ioTableSize; ++i) {
+		if (fdTable[i].process != NULL)
+			events_free(fdTable[i].process);
+	}
+
 	events_free(fdTable);
 	fdTable = NULL;
 }
@@ -352,6 +358,12 @@ EVENTS_INLINE int os_close(int fd) {
 	if (events_valid_fd(fd) && fdTable[fd].type == FD_MONITOR_SYNC)
 		return close(fd);
 #endif
+	/* a process has no descriptor, `real` is its id */
+	if (events_valid_fd(fd) && fdTable[fd].type == FD_CHILD) {
+		events_free_fd(fd);
+		return 0;
+	}
+
 	if (events_valid_fd(fd))
 		events_free_fd(fd);
 
@@ -413,6 +425,10 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 		}
 	}
 
+	if (index != -1 && fdTable[index].process == NULL
+		&& (fdTable[index].process = events_calloc(1, sizeof(execinfo_t))) == NULL)
+		index = -1;
+
 	if (index != -1) {
 		fdTable[index].proc = NULL;
 		fdTable[index].data = NULL;
@@ -434,7 +450,9 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 		fdTable[index].inUse = 0;
 		fdTable[index].type = (fd_types)type;
 		fdTable[index].process->fd = index;
+		fdTable[index].process->argv = NULL;
 		fdTable[index].process->env = NULL;
+		fdTable[index].process->context = NULL;
 		fdTable[index].process->io_func = NULL;
 		fdTable[index].process->exit_func = NULL;
 		fdTable[index].process->detached = false;
@@ -513,18 +531,26 @@ void events_free_fd(int pseudo) {
 }
 
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
+	char **env = info->env != NULL ? (char **)info->env : environ;
 	process_t p = vfork();
 	if (p != 0) {
+		int saved = errno;
 		if (info->argv != NULL)
 			events_free(info->argv);
 
 		if (info->env != NULL)
 			events_free(info->env);
 
-		fdTable[info->fd].fd = p;
-		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			events_free_fd(info->fd);
+			errno = saved;
+			return -1;
+		}
+
+		fdTable[info->fd].fd = p;
+		info->ps = p;
 		return (process_t)info->fd;
 	}
 
@@ -573,7 +599,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, env);
 
 end:
 	_exit(255);
@@ -585,12 +611,27 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 #if __APPLE__ && __MACH__
 	int pseudofd = events_new_fd((FILE_TYPE)FD_CHILD, hIoCompPort_token, -1);
 #else
-	int pseudofd = events_new_fd(FD_CHILD, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
+	int efd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), pseudofd = efd == -1 ? -1 : events_new_fd(FD_CHILD, efd, -1);
+	if (pseudofd == -1 && efd != -1)
+		close(efd);
 #endif
+	if (pseudofd == -1)
+		return NULL;
+
 	execinfo_t *info = fdTable[pseudofd].process;
 	info->detached = is_detached;
-	if (env != NULL && str_has(env, "=") && str_has(env, ";"))
-		info->env = (const char **)str_split_ex(env, ";", NULL);
+	if (env != NULL && str_has(env, "=")) {
+		int i, count = 0, kept = 0;
+		info->env = (const char **)str_split_ex(env, ";", &count);
+		/* nothing follows the last separator */
+		for (i = 0; info->env != NULL && i < count; i++) {
+			if (*info->env[i])
+				info->env[kept++] = info->env[i];
+		}
+
+		if (info->env != NULL)
+			info->env[kept] = NULL;
+	}
 
 	if (io_in)
 		info->write_input[1] = io_in;
@@ -606,32 +647,62 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	int i, count = 0;
+	char **list = args == NULL ? NULL : str_split_ex(args, ",", &count);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
-	info->argv = str_split_ex(cmd_arg, ",", NULL);
-	events_free(cmd_arg);
+	if (info != NULL)
+		info->argv = events_calloc(count + 3, sizeof(char *));
+	if (info == NULL || info->argv == NULL) {
+		events_free(list);
+		return -1;
+	}
 
-	return os_exec_info(command, info);
+	/* the command is one argument, whatever it contains */
+	info->argv[0] = (char *)command;
+	info->argv[1] = (char *)args; /* none, or empty */
+	for (i = 0; i < count; i++)
+		info->argv[i + 1] = list[i];
+
+	process_t pid = os_exec_info(command, info);
+	i = errno;
+	events_free(list);
+	errno = i;
+	return pid;
 }
 
 int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	siginfo_t s;
-	int r, f = 0;
+	int r, f = WEXITED;
+	uint32_t waited = 0;
+
+	if (ps < 0 || ps >= ioTableSize || fdTable[(intptr_t)ps].type != FD_CHILD) {
+		errno = ECHILD;
+		return -1;
+	}
 
 	if (fdTable[(intptr_t)ps].process->detached)
 		return 0;
 
-	if (timeout_ms == 0) {
-		f = WNOHANG;
+	/* without end, or looking every millisecond until the time is up */
+	if (timeout_ms != (uint32_t)-1)
+		f |= WNOHANG;
+
+	for (;;) {
 		s.si_pid = 0;
+		do {
+			r = waitid(P_PID, (id_t)fdTable[(intptr_t)ps].process->ps, &s, f);
+		} while (r != 0 && errno == EINTR);
+		if (r != 0)
+			return -1;
+
+		if (s.si_pid != 0 || waited >= timeout_ms)
+			break;
+
+		os_sleep(1);
+		waited++;
 	}
-	do {
-		r = waitid(P_PID, (id_t)fdTable[(intptr_t)ps].process->ps, &s, WEXITED | f);
-	} while (r != 0 && errno == EINTR);
-	if (r != 0)
-		return -1;
 
 	if (s.si_pid == 0) {
 		errno = ETIMEDOUT;
-- 
2.43.0


From 9784bff8daec9a4e38a34d64963d3adbeacd1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 69/84] fix: spawn lost output, gave the program non-blocking
 pipes, reported codes as signals and leaked descriptors

---
 src/async_io.c | 100 ++++++++++++++++++++++++++++++++++++++++---------
 src/os_unix.c  |   4 +-
 2 files changed, 85 insertions(+), 19 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index fd8ec44..d3c0b50 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -1,4 +1,7 @@
 #include "events_internal.h"
+#ifndef _WIN32
+#	include <sys/ioctl.h>
+#endif
 #if defined(_MSC_VER) && !defined(ssize_t)
 #	ifdef _WIN64
 #		define ssize_t SSIZE_T
@@ -776,15 +779,42 @@ static void spawn_io(fds_t fd, int events, void *arg) {
 	execinfo_t *info = (execinfo_t *)arg;
 	spawn_cb func = info->io_func;
 #ifndef _WIN32
-	char data[Kb(32)] = {0};
+	char data[Kb(32)];
 	int count;
-	if ((count = read((fds_t)info->read_output[0], data, sizeof(data))) > 0)
+	if ((count = read((fds_t)info->read_output[0], data, sizeof(data) - 1)) > 0) {
+		data[count] = 0;
 		func((fds_t)info->write_input[1], count, data);
+	} else if (count == 0) {
+		/* no more output, though the process may go on */
+		events_del((fds_t)info->read_output[0]);
+	}
 #else
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
 #endif
 }
 
+#ifndef _WIN32
+static void spawn_close(filefd_t *fd) {
+	if (*fd != inherit) {
+		close(*fd);
+		*fd = inherit;
+	}
+}
+
+static void spawn_cleanup(execinfo_t *info) {
+	if (info->read_output[0] != inherit
+		&& events_is_registered(futures_pool()->queue->loop, (fds_t)info->read_output[0]))
+		events_del((fds_t)info->read_output[0]);
+
+	spawn_close(&info->read_output[0]);
+	spawn_close(&info->read_output[1]);
+	spawn_close(&info->write_input[0]);
+	spawn_close(&info->write_input[1]);
+	spawn_close(&info->error[0]);
+	spawn_close(&info->error[1]);
+}
+#endif
+
 static void *spawning(param_t args) {
 	process_t pid;
 	execinfo_t *info = (execinfo_t *)args[2].object;
@@ -795,18 +825,27 @@ static void *spawning(param_t args) {
 	HANDLE ioThread = NULL;
 #endif
 	task_name("spawn #%d", task_id());
-	pid = exec((const char *)command, args[1].const_char_ptr, info);
-	if (info->io_func) {
 #ifndef _WIN32
-		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
+	if (info->io_func)
+		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
+
+	pid = status ? -1 : exec((const char *)command, args[1].const_char_ptr, info);
+	if (info->io_func) {
+		/* the ends of the process, which tells when it has closed them */
+		spawn_close(&info->write_input[0]);
+		spawn_close(&info->read_output[1]);
+		spawn_close(&info->error[1]);
+	}
 #else
+	pid = exec((const char *)command, args[1].const_char_ptr, info);
+	if (info->io_func) {
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
 			status = events_add(futures_pool()->queue->loop, (fds_t)pid, EVENTS_READ, 0, spawn_io, info);
 			ioThread = CreateThread(0, Kb(16), spawn_io_thread, info, 0, NULL);
 		}
-#endif
 	}
+#endif
 
 	if (!status && pid > 0) {
 		info->context = t;
@@ -816,14 +855,18 @@ static void *spawning(param_t args) {
 			yield();
 		}
 
-		info->context = NULL;
 		if (info->io_func) {
 #ifndef _WIN32
-			events_del((fds_t)info->read_output[1]);
-			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->read_output[1]);
-			close((uintptr_t)info->write_input[0]);
-			close((uintptr_t)info->write_input[1]);
+			/* what the process left behind */
+			while (events_is_registered(futures_pool()->queue->loop, (fds_t)info->read_output[0])) {
+				int left = 0;
+				if (ioctl(info->read_output[0], FIONREAD, &left) || left <= 0)
+					break;
+
+				spawn_io((fds_t)info->read_output[0], EVENTS_READ, info);
+			}
+
+			spawn_cleanup(info);
 #else
 			CloseHandle(ioThread);
 			CloseHandle(info->write_input[1]);
@@ -832,9 +875,23 @@ static void *spawning(param_t args) {
 #endif
 		}
 
+		info->context = NULL;
+#ifndef _WIN32
+		exit_cb exit_func = info->exit_func;
+		events_free_fd(info->fd);
+		if (exit_func)
+			exit_func(status < 0 ? 0 : status, status < 0 ? -status : 0);
+#else
 		if (info->exit_func)
 			info->exit_func(status, status);
+#endif
 	} else {
+#ifndef _WIN32
+		status = os_geterror();
+		spawn_cleanup(info);
+		events_free_fd(info->fd);
+		errno = status;
+#endif
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
 
@@ -882,6 +939,9 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
 	bool is_datached, spawn_cb io_func, exit_cb exit_func) {
 	execinfo_t *info = exec_info(env, is_datached, inherit, inherit, inherit);
+	if (info == NULL)
+		return NULL;
+
 	if (io_func) {
 #ifdef _WIN32
 		if (os_create_pipe("spawn_in", &info->write_input[0], &info->write_input[1])
@@ -914,17 +974,21 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 			events_set_nonblocking(info->error[1]);
 		}
 #else
-		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
-			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
+		/* only the ends kept here are non blocking, and no other process gets any */
+		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
+			|| pipe2(_2fd(info->read_output), O_CLOEXEC)
+			|| (!is_empty(env) && pipe2(_2fd(info->error), O_CLOEXEC))) {
 			perror("pipe2");
+			spawn_cleanup(info);
+			events_free_fd(info->fd);
 			return NULL;
 		}
 
+		events_set_nonblocking(info->write_input[1]);
+		events_set_nonblocking(info->read_output[0]);
 		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
-				perror("pipe2");
-				return NULL;
-			}
+			events_set_nonblocking(info->error[0]);
+			events_set_nonblocking(info->error[1]);
 		}
 #endif
 	}
diff --git a/src/os_unix.c b/src/os_unix.c
index 676971f..9e85333 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -716,7 +716,9 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 			*exit_code = -s.si_status;
 	}
 
-	os_close((intptr_t)ps);
+	if (!fdTable[(intptr_t)ps].process->is_spawn)
+		os_close((intptr_t)ps);
+
 	return 0;
 }
 
-- 
2.43.0


From 7cb49b20e2a5e3e062819324fefa0fcbaf6e8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:04 +0000
Subject: [PATCH 70/84] fix: a loop that pool threads share was destroyed more
 than once

---
 src/events.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 9ba682f..c103a74 100644
--- a/src/events.c
+++ b/src/events.c
@@ -790,6 +790,13 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 }
 
 void events_deinit_loop_internal(events_t *loop) {
+	events_deque_t *queue;
+
+	/* a thread sharing this loop would destroy it again */
+	if (sys_event.local != NULL && loop->loop_id <= sys_event.cpu_count
+		&& (queue = sys_event.local[loop->loop_id]) != NULL && queue->loop == loop)
+		queue->loop = NULL;
+
 	events_free(loop->timeout._free_addr);
 }
 
@@ -2716,7 +2723,7 @@ int events_create_pool(events_t *loop) {
 static int __future_wrapper(void *arg) {
 	future *work = (future *)arg;
 	events_deque_t *queue = work->queue;
-	events_t *loop = work->queue->loop;
+	events_t *loop = NULL;
 	values_t res[1] = {0};
 	int status = 0, tid = work->id;
 
@@ -2751,6 +2758,7 @@ static int __future_wrapper(void *arg) {
 
 	__thrd()->pool = NULL;
 	$delete(queue->jobs);
+	loop = queue->loop;
 	events_free(work);
 	events_destroy(loop);
 
-- 
2.43.0


From abfe30023ad7a22803337c5f74117f86ca74cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:04 +0000
Subject: [PATCH 71/84] fix: a second start used the task queues and helper
 task of the first

---
 src/events.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/events.c b/src/events.c
index c103a74..c031268 100644
--- a/src/events.c
+++ b/src/events.c
@@ -370,6 +370,8 @@ EVENTS_INLINE void events_deinit(void) {
 #ifdef _WIN32
 	WSACleanup();
 #endif
+	atexit_ctr_c_task = null;
+	events_tasks_started = false;
 	events_startup_set = false;
 }
 
@@ -1113,6 +1115,9 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->main_handle = NULL;
 	__thrd()->loop = NULL;
 	__thrd()->pool = NULL;
+	__thrd()->running = NULL;
+	memset(__thrd()->run_queue, 0, sizeof(__thrd()->run_queue));
+	memset(__thrd()->sleep_queue, 0, sizeof(__thrd()->sleep_queue));
 	__thrd()->sleep_handle = create_task(Kb(18), (data_func_t)task_wait_system, null, false, true);
 	__thrd()->sleep_activated = (int)task_push(__thrd()->sleep_handle, true) > 0;
 }
-- 
2.43.0


From 978c4207fb75e29ffbc70d9b2a8d87b2ec91bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:04 +0000
Subject: [PATCH 72/84] fix: a task pool thread used its main task after the
 scheduler released it

---
 src/events.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index c031268..b7558ad 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2593,7 +2593,7 @@ static void enqueue_tasks(tasks_t *t) {
 static void __tasks_pool_main(param_t args) {
 	events_deque_t *queue = args[0].object;
 	events_t *loop = args[1].object;
-	tasks_t *t = active_scheduler_task();
+	tasks_t *t = active_scheduler_task(), **started = (tasks_t **)args[2].object;
 
 	__thrd()->started = true;
 	task_name("thread_tasks_pool #%d", (int)__thrd()->thrd_id);
@@ -2609,6 +2609,8 @@ static void __tasks_pool_main(param_t args) {
 			break;
 	}
 	t->user_data = null;
+	/* the scheduler releases the task next */
+	*started = null;
 }
 
 static int __tasks_pool_wrapper(void *arg) {
@@ -2623,8 +2625,9 @@ static int __tasks_pool_wrapper(void *arg) {
 
 	if (!atomic_flag_load(&queue->shutdown)) {
 		__thrd()->loop = loop;
-		param_t params = arrays(2, queue, loop);
-		tasks_t *t = create_task(Kb(32), (data_func_t)__tasks_pool_main, params, false, true);
+		tasks_t *t = NULL;
+		param_t params = arrays(3, queue, loop, &t);
+		t = create_task(Kb(32), (data_func_t)__tasks_pool_main, params, false, true);
 		(void)task_push(t, false);
 		t->user_data = params;
 		__thrd()->pool = work->queue->pool;
-- 
2.43.0


From c0fcebb3d5f6ed00a65d6a3e78c35831e3ce44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:25 +0000
Subject: [PATCH 73/84] fix: the end of one fs_events watch ended the others,
 its path was read after the call, and removal kept the program running

---
 src/events.c          | 32 ++++++++++++++++++++++++++++----
 src/events_internal.h |  2 +-
 src/os_unix.c         |  6 +++---
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index b7558ad..7573032 100644
--- a/src/events.c
+++ b/src/events.c
@@ -483,19 +483,44 @@ EVENTS_INLINE bool events_is_watching(int inotify) {
 
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
+#if __linux__
+	/* a descriptor of its own, the end of this watch is not the end of the others */
+	int fd = inotify_init1(IN_NONBLOCK);
+	if (fd >= 0) {
+		inotify_watch_init(fd, (watch_cb)args[1].func, args[2].object);
+		if (inotify_add_watch(fd, args[0].const_char_ptr, IN_ALL_EVENTS) < 0
+			|| events_add(loop, fd, EVENTS_PATHWATCH, 0, (events_cb)args[1].func, args[2].object) < 0) {
+			inotify_close(fd);
+			fd = DATA_INVALID;
+		}
+	}
+#else
 	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+#endif
+	events_free(args[0].object);
 	while (events_is_watching(fd) && !task_is_canceled()) {
 		active_info();
 		yield();
 	}
 
+#if __linux__
+	(void)inotify_close(fd);
+#else
 	(void)events_del_watch(loop);
+#endif
+	return 0;
+}
+
+/* The program goes on while the directory is watched. */
+static void *fsevents_waiting(param_t args) {
+	(void)await_for(args[0].u_int);
 	return 0;
 }
 
 int fsevents_init(const char *name, watch_cb handler, void *filter) {
+	/* the caller's text might be gone when the task runs */
 	int rid = task_push(create_task(Kb(26),
-		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
+		(data_func_t)fsevents_task, arrays(3, str_dup_ex(name), handler, filter), true, true), true);
 	if (rid > 0) {
 		if (events_fsevents_tasks == null)
 			events_fsevents_tasks = array();
@@ -503,7 +528,7 @@ int fsevents_init(const char *name, watch_cb handler, void *filter) {
 		atomic_lock($lock(events_fsevents_tasks));
 		$append_signed(events_fsevents_tasks, rid);
 		atomic_unlock($lock(events_fsevents_tasks));
-		__thrd()->task_count++;
+		async_task((param_func_t)fsevents_waiting, 1, rid);
 	}
 
 	return rid;
@@ -517,7 +542,6 @@ int fsevents_stop(uint32_t rid) {
 			if (watch.integer == rid) {
 				$remove(events_fsevents_tasks, iwatch);
 				task_set_canceled(rid);
-				__thrd()->task_count--;
 				found = 0;
 				break;
 			}
@@ -538,7 +562,7 @@ EVENTS_INLINE int events_watch(events_t *loop, const char *name, watch_cb handle
 	if (inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		return -1;
 #else
-	inotify_watch_init(loop, handler, filter);
+	inotify_watch_init(loop->inotify_fd, handler, filter);
 	if ((inotify_add_watch(loop->inotify_fd, name, IN_ALL_EVENTS) < 0)
 		|| (events_add(loop, loop->inotify_fd, EVENTS_PATHWATCH, 0, (events_cb)handler, filter) < 0))
 		return -1;
diff --git a/src/events_internal.h b/src/events_internal.h
index 815d75c..544b5d8 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -629,7 +629,7 @@ void *kqueue_watch_filter(events_t *loop);
 void kqueue_watch_init(events_t *loop, watch_cb handler, void *filter);
 #elif __linux__
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter, uint32_t added);
-void inotify_watch_init(events_t *loop, watch_cb handler, void *filter);
+void inotify_watch_init(int fd, watch_cb handler, void *filter);
 #endif
 
 int fsevents_init(const char *name, watch_cb handler, void *filter);
diff --git a/src/os_unix.c b/src/os_unix.c
index 9e85333..8fd4415 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1393,9 +1393,9 @@ static void inotify_forget(int pseudo) {
 		events_del(fd2socket(fdTable[fd].fd));
 }
 
-void inotify_watch_init(events_t *loop, watch_cb handler, void *filter) {
-	fdTable[loop->inotify_fd].proc = (os_cb)handler;
-	fdTable[loop->inotify_fd].data = filter;
+void inotify_watch_init(int fd, watch_cb handler, void *filter) {
+	fdTable[fd].proc = (os_cb)handler;
+	fdTable[fd].data = filter;
 }
 
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter, uint32_t added) {
-- 
2.43.0


From 2cdbbb9c9113d0da9aaacc1076a9fb07d1d08272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:25 +0000
Subject: [PATCH 74/84] fix: descriptors of directory watches stayed open when
 the library was stopped

---
 src/os_unix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/os_unix.c b/src/os_unix.c
index 8fd4415..45c84f8 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -379,6 +379,11 @@ static void clear_pseudo_events(void) {
 	acquire_lock(hIoCompPort);
 	for (i = 0; i < ioTableSize; ++i) {
 		if (fdTable[i].type != FD_UNUSED) {
+#if __linux__
+			/* still watching */
+			if (fdTable[i].type == FD_MONITOR_ASYNC)
+				close(fdTable[i].fd);
+#endif
 			events_free_fd(i);
 			fdTable[i].type = (fd_types)FD_UNUSED;
 		}
-- 
2.43.0


From 6e376075bf0fe0bba01cc925df4d2ebc08143b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 75/84] fix: opening a named pipe took over the descriptor with
 its pseudo number

os_open() set the opened descriptor on the pipe's pseudo number. Pseudo numbers
of pipes are plain small numbers, so the next os_read() or os_close() of the
unrelated descriptor with that number worked on the pipe instead, or closed it.
---
 src/os_unix.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 45c84f8..6ed56f6 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -177,7 +177,6 @@ EVENTS_INLINE int os_open(const char *path, int flags, mode_t mode) {
 	if (fake != -1) {
 		if (fdTable[fake].type == FD_PIPE_ASYNC) {
 			sys_event.pHandle = open(fdTable[fake].path, flags, mode);
-			fdTable[fake].fd = sys_event.pHandle;
 			return sys_event.pHandle;
 		}
 	}
-- 
2.43.0


From dbc298218113fb7bd3e70dec06598d71e5fe28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:43 +0000
Subject: [PATCH 76/84] fix: os_mkfifo() recorded pipes it could not make, cut
 long names and used up the table

A failed mkfifo() left an entry behind, a name too long for the buffer made a
pipe with another name, and every call took another pseudo number, also for a
pipe made before or long removed, until none was left for anybody.
---
 src/os_unix.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 6ed56f6..c88097f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -162,14 +162,32 @@ EVENTS_INLINE int os_iodispatch(int ms) {
 	return 0;
 }
 
-EVENTS_INLINE int os_mkfifo(const char *name, mode_t mode) {
+int os_mkfifo(const char *name, mode_t mode) {
 	events_init(256);
-	int fake;
-	snprintf(sys_event.pNamed, sizeof(sys_event.pNamed), "%s%s", SYS_PIPE, name);
-	if ((fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, - 1)) != -1)
+	int i, fake, err, len, r;
+	len = snprintf(sys_event.pNamed, sizeof(sys_event.pNamed), "%s%s", SYS_PIPE, name);
+	if (len >= (int)sizeof(sys_event.pNamed)) {
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+
+	/* one that exists already can be opened by its name, too */
+	if ((r = mkfifo(sys_event.pNamed, mode)) == -1 && errno != EEXIST)
+		return -1;
+
+	err = errno;
+	/* forget those that are gone */
+	for (i = 0; i < ioTableSize; i++) {
+		if (fdTable[i].type == FD_PIPE_ASYNC && fdTable[i].path != NULL && access(fdTable[i].path, F_OK) == -1)
+			events_free_fd(i);
+	}
+
+	if (events_pseudo_fd(sys_event.pNamed) == -1
+		&& (fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, -1)) != -1)
 		fdTable[fake].path = str_dup_ex(sys_event.pNamed);
 
-	return mkfifo(sys_event.pNamed, mode);
+	errno = err;
+	return r;
 }
 
 EVENTS_INLINE int os_open(const char *path, int flags, mode_t mode) {
@@ -392,12 +410,13 @@ static void clear_pseudo_events(void) {
 
 int events_pseudo_fd(const char *name) {
 	char buffer[260] = {0};
-	int i;
+	int i, len;
 
-	snprintf(buffer, sizeof(buffer), "%s%s", SYS_PIPE, name);
+	/* a longer name is none of them */
+	len = snprintf(buffer, sizeof(buffer), "%s%s", SYS_PIPE, name);
 	for (i = 0; i < ioTableSize; ++i) {
 		if (fdTable[i].type != FD_UNUSED && fdTable[i].path != NULL
-			&& (str_is(buffer, fdTable[i].path) || str_is(name, fdTable[i].path)))
+			&& ((len < (int)sizeof(buffer) && str_is(buffer, fdTable[i].path)) || str_is(name, fdTable[i].path)))
 			return i;
 	}
 
-- 
2.43.0


From e9aa697ad4d3a9020e00b31a1028099f58601c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 77/84] fix: async_gethostbyname() gave concurrent tasks each
 other's answers

---
 src/async_io.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index d3c0b50..bd673a9 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -344,6 +344,29 @@ int async_write(int fd, void *buf, int n) {
 	return tot;
 }
 
+#if defined(__linux__)
+/* The answer in memory of its own, `gethostbyname` keeps one for the whole process. */
+static void *os_gethostbyname(param_t name) {
+	struct hostent *he = NULL, *found = NULL;
+	size_t len = 1024;
+	int err, status;
+
+	do {
+		events_free(he);
+		if ((he = (struct hostent *)events_calloc(1, sizeof(struct hostent) + len)) == NULL)
+			return NULL;
+
+		status = gethostbyname_r(name->char_ptr, he, (char *)(he + 1), len, &found, &err);
+		len *= 2;
+	} while (status == ERANGE);
+
+	if (status == 0 && found != NULL)
+		return (void *)he;
+
+	events_free(he);
+	return NULL;
+}
+#else
 static EVENTS_INLINE void *os_gethostbyname(param_t name) {
 	struct hostent *he = {0};
 	if ((he = gethostbyname(name->char_ptr)) != NULL)
@@ -351,6 +374,7 @@ static EVENTS_INLINE void *os_gethostbyname(param_t name) {
 
 	return NULL;
 }
+#endif
 
 int async_inet_pton(int af, const char *src, void *dst, size_t dstlen, int resolve_src) {
 	struct addrinfo hints, *res, *ressave;
@@ -510,7 +534,13 @@ EVENTS_INLINE char *gethostbyname_ip(struct hostent *host) {
 
 EVENTS_INLINE struct hostent *async_gethostbyname(char *hostname) {
 	future *thrd = futures_pool();
-	return (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, thrd->buffer)).object;
+	struct hostent *he = (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, thrd->buffer)).object;
+#if defined(__linux__)
+	if (he != NULL)
+		defer_free(he);
+#endif
+
+	return he;
 }
 
 static EVENTS_INLINE void *os_getnameinfo(param_t args) {
-- 
2.43.0


From a81e0ce4397b616ea8ebe905ec2916b41dd54cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 78/84] fix: errno of a queued job was lost when it returned
 another negative result than -1

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 919edb9..9d8b5ef 100644
--- a/src/future.c
+++ b/src/future.c
@@ -41,7 +41,7 @@ void promise_free(ex_memory_t *scope, void *data) {
 
 void promise_set(promise *p, void *res) {
 	atomic_lock(&p->mutex);
-	if (is_empty(res) || res == casting(DATA_INVALID))
+	if ((intptr_t)res <= 0)
 		p->erred = errno;
 
 	if (!is_empty(res)) {
-- 
2.43.0


From a003b495bd9f5d1ffe3b71ff654ed09ea07c4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 79/84] fix: a null result of a later job of a promise kept
 half of the earlier result

---
 src/future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 9d8b5ef..fadf74b 100644
--- a/src/future.c
+++ b/src/future.c
@@ -279,7 +279,7 @@ promise *alloc_promise(void) {
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = NULL;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		atomic_flag_clear(&f->working);
@@ -305,7 +305,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = NULL;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From a8c2161f1832eea2d5c6992388a75e822e65147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 80/84] fix: async_fwrite() and async_fprintf() reported
 success when the file was not written

---
 src/async_io.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index bd673a9..956d87a 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -1077,11 +1077,13 @@ static EVENTS_INLINE void *_os_fprintf(param_t args) {
 	if ((fi = fopen(args[0].const_char_ptr, args[1].const_char_ptr)) != NULL) {
 		flockfile(fi);
 		int count = fprintf(fi, "%s", args[2].const_char_ptr);
-		if (count > 0)
-			fflush(fi);
+		if (count > 0 && fflush(fi))
+			count = 0;
 
 		funlockfile(fi);
-		fclose(fi);
+		if (fclose(fi))
+			count = 0;
+
 		if (count > 0)
 			return casting(count);
 	}
@@ -1101,11 +1103,13 @@ static EVENTS_INLINE void *_os_fwriter(param_t args) {
 	if ((fi = fopen(args[0].const_char_ptr, args[1].const_char_ptr)) != NULL) {
 		flockfile(fi);
 		int count = fwrite((const void *)args[2].object, args[3].max_size, args[4].max_size, fi);
-		if (count > 0)
-			fflush(fi);
+		if (count > 0 && fflush(fi))
+			count = 0;
 
 		funlockfile(fi);
-		fclose(fi);
+		if (fclose(fi))
+			count = 0;
+
 		if (count > 0)
 			return casting(count);
 	}
-- 
2.43.0


From a7a19c40dd8a0a49f0671537bd681f17fe1781f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 81/84] fix: a job without arguments given to queue_work() or
 promise_work() was dropped

---
 src/future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index fadf74b..970c391 100644
--- a/src/future.c
+++ b/src/future.c
@@ -295,7 +295,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 		future *thrded, *thrd = futures_pool();
 
 		va_start(ap, num_args);
-		array_t args = data_ex(num_args, ap);
+		array_t args = num_args ? data_ex(num_args, ap) : array();
 		va_end(ap);
 
 		if (!is_empty(args)) {
@@ -353,7 +353,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 	future *thrded = null;
 
 	va_start(ap, num_args);
-	array_t args = data_ex(num_args, ap);
+	array_t args = num_args ? data_ex(num_args, ap) : array();
 	va_end(ap);
 
 	if (!is_empty(args)) {
-- 
2.43.0


From f025e79ba8373b3e6ca17d3e44def2147c4fbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 82/84] fix: an empty delimiter or needle kept split, explode
 and swap running for ever

---
 src/arrays.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 08bf118..3e8d066 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -454,6 +454,10 @@ char *str_swap_ex(const char *haystack, const char *needle, const char *swap) {
 	size_t newWlen = strlen(swap);
 	size_t oldWlen = strlen(needle);
 
+	/* nothing to find, an empty needle would be found over and over */
+	if (oldWlen == 0)
+		return NULL;
+
 	for (i = 0; haystack[i] != '\0'; i++) {
 		if (strstr(&haystack[i], needle) == &haystack[i]) {
 			cnt++;
@@ -511,7 +515,7 @@ void **mem_split_ex(const void *src, size_t src_len, const char *delim, int *cou
 	void *data;
 	char **ptrs, *_s = (char *)src;
 	char *haystack = _s;
-	while ((_s = memmem(haystack, sLen, delim, delimLen))) {
+	while (delimLen && (_s = memmem(haystack, sLen, delim, delimLen))) {
 		_s += delimLen;
 		sLen -= (_s - haystack);
 		haystack = _s;
@@ -556,7 +560,7 @@ char **str_split_ex(const char *s, const char *delim, int *count) {
 
 	void *data;
 	char **ptrs, *_s = (char *)s;
-	while ((_s = strstr(_s, delim))) {
+	while (delimLen && (_s = strstr(_s, delim))) {
 		_s += delimLen;
 		++nbWords;
 	}
@@ -595,7 +599,7 @@ array_t str_explode(const char *s, const char *delim) {
 	bool is_first = true;
 	size_t ptrsSize, nbWords = 0, sLen = strlen(s), delimLen = strlen(delim);
 
-	while ((_s = strstr(_s, delim))) {
+	while (delimLen && (_s = strstr(_s, delim))) {
 		_s += delimLen;
 		nbWords++;
 	}
-- 
2.43.0


From bc88a5f525357ecee23aa822830cfac078c3f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 83/84] fix: blanks and signs were taken for part of a network
 address

---
 src/async_io.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 956d87a..19fc67f 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -423,7 +423,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	int len;
 	const char *cb;
 	char *endptr;
-	char buf[100] = {0};
+	char buf[100] = {0}, digits[6] = "0";
 	size_t ptrlen = strlen(host);
 
 	memset(dst, 0, sizeof(u_saddr_t));
@@ -434,7 +434,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	port = 0;
 	len = 0;
 	/* Test for different ways to format this string */
-	if (sscanf(host,
+	/* `%u` and `strtoul` take blanks and signs for part of a number */
+	if (strspn(host, "0123456789.:") == ptrlen && sscanf(host,
 		"%3u.%3u.%3u.%3u%n:%5u%n",
 		&a,
 		&b,
@@ -455,15 +456,15 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
-	} else if (sscanf(host, "[%49[^]]]%n:%5u%n", buf, &len, &port, &len) >= 1
-		&& ((size_t)len == ptrlen) && port <= 0xffff
+	} else if (sscanf(host, "[%49[^]]]%n:%5[0-9]%n", buf, &len, digits, &len) >= 1
+		&& ((size_t)len == ptrlen) && (port = atoi(digits)) <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0)) <= 0xffff
+	} else if (isdigit((unsigned char)*host) && (portUL = strtoul(host, &endptr, 0)) <= 0xffff
 		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
@@ -491,8 +492,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
-			if (sscanf(cb + 1, "%5u%n", &port, &len)
-				== 1 && port <= 0xffff && cb[1 + len] == '\0') { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+			if (sscanf(cb + 1, "%5[0-9]%n", digits, &len)
+				== 1 && (port = atoi(digits)) <= 0xffff && cb[1 + len] == '\0') { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -502,7 +503,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%5u%n", &port, &len) == 1 && port <= 0xffff && cb[1 + len] == '\0') {
+			if (sscanf(cb + 1, "%5[0-9]%n", digits, &len) == 1 && (port = atoi(digits)) <= 0xffff && cb[1 + len] == '\0') {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From a94ab88ebe6583ac9f6f113355c0b8e5a88bbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:10 +0000
Subject: [PATCH 84/84] fix: resuming a task suspended in its first turn lost
 it

resume() switched straight into a task that had been suspended in its first turn, without making it
the running one: its next yield() queued the resumer again, and its end went unnoticed. It also
queued a task twice that was runnable already.
---
 src/events.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/events.c b/src/events.c
index 7573032..0189857 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2474,17 +2474,17 @@ EVENTS_INLINE void suspend(void) {
 
 EVENTS_INLINE void resume(tasks_t *co) {
 	if (co->magic_number == TASK_MAGIC_NUMBER) {
-		co->ready = true;
 		tasks_t *t = __thrd()->running;
 		tasklist_t *l = __thrd()->run_queue;
-		t->ready = true;
-		if (co->cycles > 1)
+		/* an already runnable task keeps its place in the queue */
+		if (co != t && !co->ready) {
+			co->ready = true;
 			enqueue(l, co);
+		}
+
+		t->ready = true;
 		enqueue(l, t);
-		if (co->cycles > 1)
-			suspend();
-		else
-			task_switch(co);
+		suspend();
 		if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
 #ifndef _WIN32
 			__thrd()->active_timer++;
-- 
2.43.0

