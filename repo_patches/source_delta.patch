From ceaf3a52f190875c110a9309846d0397f0757514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 01/30] fix: bounded substring searches must not look at bytes
 past len nor stop at a leading NUL

---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..a038180 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From dcdfe37dda548cb421626f554172c45df46a7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 02/30] fix: reverse span functions counted the byte that stops
 the run

---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index a038180..4623ce3 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From 143fdb054bfa3076d8d9e7bc3bdfc119f1472f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 03/30] fix: coda_inet_addr accepted octets whose value wraps
 around

---
 coda/socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..7d30443 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -81,6 +81,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
 			continue;
 		}
 
-- 
2.43.0


From ebd2a4ce147c1ae67abc18d9857e751dbfd3ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:31 +0000
Subject: [PATCH 04/30] fix: coda_get_uint64set inserted an uninitialised value
 for an item that is not a number

---
 coda/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..5ae73a1 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -157,8 +157,10 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp))
+		{
+			result.insert(temp);
+		}
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From 7fb23b91f015764a7858609f93ac7c34a0dd6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 05/30] fix: url escapers overran small buffers, indexed tables
 with negative characters and cut escapes

---
 coda/url.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..bd0ee2e 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -266,13 +266,13 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	sz -= 3;
-	while (*s && (ptr < sz))
+	while (*s && (ptr + 3 < sz))
 	{
 		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
+		unsigned char c = *s;
+		if (table_urlenc[c >> 5] & (1 << (c & 0x1f)))
 		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
+			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", c);
 		}
 		else if (*s == ' ')
 		{
@@ -291,7 +291,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 2 < sz))
 	{
 		if (*s == '+')
 		{
@@ -349,7 +349,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 5 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -385,6 +385,7 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			else
 			{
 				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
-- 
2.43.0


From 014c1cbe14c61894b8d315167e283aa48f0b6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:50 +0000
Subject: [PATCH 06/30] fix: coda_random_init leaked the descriptor on read
 failure and accepted short reads

---
 coda/random.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..327ba2c 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -19,10 +19,9 @@ int coda_random_init()
 
 	uint32_t rnd_from_device;
 
-	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
+	ssize_t rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
 	close(fd);
+	if ((ssize_t) sizeof(rnd_from_device) != rc) return -1;
 
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
-- 
2.43.0


From 0c595c3c2b07ea11c56b0713f7ccf81068cbc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 07/30] fix: updating a cached element could leave the cache
 over its size limit

---
 coda/cache.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..30f87e2 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
+
 			return;
 		}
 
@@ -96,6 +98,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
+
 		return;
 	}
 
-- 
2.43.0


From 0b911f80e7b48ebace83c872c548bb6d0de3d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 08/30] fix: coda_base58_decode reported success for text whose
 first character is invalid

---
 coda/base58.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..7fa205b 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -237,7 +237,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
 
     while (inlen)
     {
@@ -253,14 +253,14 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+            return -_inlen + inlen - 1;
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
     }
 
     while (b256len && !*b256_curr)
-- 
2.43.0


From a2d0ddf757093f2d0f932ddf6e931d0cbfcdec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 09/30] fix: coda_url looked for scheme prefixes beyond the end
 of the given text

---
 coda/url_parser.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 2113e1c..804d0c3 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,11 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+static bool url_prefix(const char *u, size_t sz, const char *prefix, size_t prefix_len)
+{
+	return sz >= prefix_len && NULL != coda_strxstr(u, prefix, prefix_len);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -109,7 +114,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (url_prefix(u, sz, "http://", 7) || url_prefix(u, sz, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
 
@@ -133,13 +138,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (url_prefix(u, sz, "https://", 8))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (url_prefix(u, sz, "http://", 7))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -341,8 +346,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (url_prefix(u, sz, "mailto:", 7)) return -1;
+	if (url_prefix(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From 0db29273f20d6c20e353120da6abc2f3176ded9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 10/30] fix: coda_url resolved references wrongly against a
 parent whose scheme is HTTPS in capitals

---
 coda/url_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 804d0c3..744bfef 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -350,7 +350,7 @@ int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda
 	if (url_prefix(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
-	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
+	size_t sz_dom = (tolower(parent.val_str[4]) != 's' ? 7 : 8);
 	size_t sz_pub = sz_dom = coda_strnchr(parent.val_str + sz_dom,
 		'/', parent.val_len - sz_dom) - parent.val_str;
 
-- 
2.43.0


From 69efe67162205ed0f561fa6ddac715134f623290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 11/30] fix: assigning a coda_url to itself used freed memory

---
 coda/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 744bfef..9b9cf8a 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -41,6 +41,8 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u) return *this;
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From 8624fda59163a5db7c7c65107df265d6d2cc46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:18 +0000
Subject: [PATCH 12/30] fix: string storage must count the prefix byte when it
 refuses strings that do not fit a block

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..b804afc 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -142,7 +142,7 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	if (len + 1 + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 42c26b125a4851f9b5744878f97f2ee512051179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:18 +0000
Subject: [PATCH 13/30] fix: string storage must not compare suffixes of
 different depth or wrap the prefix length

---
 coda/stringstorage.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index b804afc..fca8aaa 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 
@@ -97,7 +97,13 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	}
 
 	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes)
+	{
+		common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+
+		/* the number of skipped bytes is kept in one byte */
+		if (common_bytes > (size_t)(UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes;
+	}
 
 	if (common_bytes > 8)
 	{
-- 
2.43.0


From e8e56734023345a4ae84b7849be4b3630bcde1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 14/30] fix: coda_fdopen must close the new descriptor when it
 cannot be moved

---
 coda/system.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..4a84ee8 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -29,7 +29,23 @@ int coda_fdopen(int fd, const char* path, int flags)
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	if (0 > fd || fd == td)
+	{
+		return td;
+	}
+
+	if (0 > dup2(td, fd))
+	{
+		close(td);
+		return -1;
+	}
+
+	if (0 > close(td))
+	{
+		return -1;
+	}
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From 9186933bfb588b07db4de936fc810b5577ec1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 15/30] fix: coda_mkpidf must not report success after a short
 write

---
 coda/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 4a84ee8..8d52997 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -110,7 +110,7 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
+	if (nb != write(fd, buf, nb))
 	{
 		flock(fd, LOCK_UN);
 		close(fd);
-- 
2.43.0


From ab2a351205193972c62599b3c2e883124952e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 16/30] fix: coda_mmap must not leave the region mapped when it
 fails

---
 coda/system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/system.c b/coda/system.c
index 8d52997..4231e3f 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -191,6 +191,7 @@ int coda_mmap(coda_strp area, int prot_flags, int mmap_flags, const char* filena
 
 	if (0 > close(fd))
 	{
+		munmap(area->data, area->size);
 		return -1;
 	}
 
-- 
2.43.0


From 9e34da6b09fb319d77a1f32c8b9daf8205476be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 17/30] fix: coda_daemon_fork must not leave the null device
 open when it fails

---
 coda/daemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..e0787fb 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -84,11 +84,13 @@ int coda_daemon_fork()
 
     if (0 > dup2(fd, STDIN_FILENO))
     {
+        if (fd > STDERR_FILENO) close(fd);
         return -1;
     }
 
     if (0 > dup2(fd, STDOUT_FILENO))
     {
+        if (fd > STDERR_FILENO) close(fd);
         return -1;
     }
 
-- 
2.43.0


From 58db3db863f237e360e4853aab18f555c0643ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 18/30] fix: coda_mkpath must not read beyond the terminator of
 an empty path

---
 coda/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 4231e3f..7242718 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -51,7 +51,7 @@ int coda_fdopen(int fd, const char* path, int flags)
 int coda_mkpath(char* path)
 {
 	int rc;
-	char* p = path + 1;
+	char* p = *path ? path + 1 : path;
 
 	for (; *p; ++p)
 	{
-- 
2.43.0


From 76ac03688e57d57fbd32ca81efcb4f7d335dfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 19/30] fix: log_create must not write into the path it is
 given

---
 coda/logger.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..9e68ad8 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -3,6 +3,8 @@
 #include <fcntl.h>
 #include <stdarg.h>
 #include <unistd.h>
+#include <stdlib.h>
+#include <string.h>
 #include <pthread.h>
 #include "logger.h"
 
@@ -38,7 +40,15 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	int rc;
+	char* copy = strdup(path); /* coda_mkpath modifies its argument */
+
+	if (NULL == copy) return -1;
+
+	rc = coda_mkpath(copy);
+	free(copy);
+
+	if (0 > rc) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From eb0050e4fc0c33980adfdecfc097d29c43e60af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:22 +0000
Subject: [PATCH 20/30] fix: hash_map disconnect must release its attachment
 and forget its semaphores

---
 coda/shm_hash_map.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..e31814b 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -442,18 +442,17 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
-	{
-		return;
-	}
+	uint8_t *ptr = shmem_p;
 
 	detach();
 
 	sem_id = -1;
 	shm_id = -1;
 
-	shmdt(shmem_p);
-	shmem_p = 0;
+	if (ptr)
+	{
+		shmdt(ptr);
+	}
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From efc249906e8438685a800eb344f4d625fa54e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:22 +0000
Subject: [PATCH 21/30] fix: hash_map connect must not release a lock it failed
 to take

---
 coda/shm_hash_map.tcc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index e31814b..894f061 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -418,22 +418,23 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	{
 		connect_sem(key_fname);
 		connect_shm(key_fname);
-	}
-	catch (const std::exception& e)
-	{
-		disconnect();
-		throw;
-	}
 
-	try
-	{
 		lock_write_rw();
-		attach(shmem_p);
+
+		try
+		{
+			attach(shmem_p);
+		}
+		catch (const std::exception& e)
+		{
+			unlock_write_rw();
+			throw;
+		}
+
 		unlock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
-		unlock_write_rw();
 		disconnect();
 		throw;
 	}
-- 
2.43.0


From b83d1daad0c885727939da6406679294fee059b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:08 +0000
Subject: [PATCH 22/30] fix: hash_map must not reset semaphores another process
 may already hold

---
 coda/shm_hash_map.tcc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 894f061..8603af8 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -398,16 +398,8 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 			throw coda_error("error getting sem: %s", coda_strerror(errno));
 		}
 
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
+		// new semaphores are zero, i.e. free; setting them here could wipe the
+		// claim of another process that is already using the set
 	}
 }
 
-- 
2.43.0


From a2c59293370bf72e6a878b7c5ae79b80123bf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 23/30] fix: queue connect must not read the segment it has
 just detached

---
 coda/shm_queue.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..cefa60c 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -163,10 +163,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
+		uint32_t box_size = info->box_size;
+
 		shmdt(info);
 		info = 0;
 
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("box_size(%d) in queue is not equal to %d", box_size, BOX_SIZE);
 	}
 
 	boxes = ptr;
-- 
2.43.0


From f836f4e8a6c4937a130efa5f37b75b2680785c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 24/30] fix: queue connect must release what it took when it
 fails

---
 coda/shm_queue.tcc | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index cefa60c..61b4776 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -223,24 +223,46 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 template <typename _T>
 void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t mbiq)
 {
+	if (-1 != sem_id)
+	{
+		throw coda_error("shm_queue::queue<>: queue already connected");
+	}
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-	connect_sem(key_fname);
-	lock_queue();
-	connect_shm(key_fname);
-	unlock_queue();
+	try
+	{
+		connect_sem(key_fname);
+		lock_queue();
+
+		try
+		{
+			connect_shm(key_fname);
+		}
+		catch (...)
+		{
+			unlock_queue();
+			throw;
+		}
+
+		unlock_queue();
+	}
+	catch (...)
+	{
+		disconnect();
+		throw;
+	}
 }
 
 template <typename _T>
 void shm_queue::queue<_T>::disconnect()
 {
-	if (NULL == info)
+	if (NULL != info)
 	{
-		return;
+		shmdt(info);
 	}
 
-	shmdt(info);
 	info = NULL;
 	boxes = NULL;
 	current_box.deallocate();
-- 
2.43.0


From 09abc43246f645758c22262d7f2527cef0b1c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 25/30] fix: queue must not touch shared data when it could not
 lock it

---
 coda/shm_queue.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 61b4776..b074679 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -413,7 +413,14 @@ void shm_queue::queue<_T>::lock_queue()
 	sem.sem_num = SEM_ID_0;
 	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+
+	while (-1 == semop(sem_id, &sem, 1))
+	{
+		if (EINTR != errno)
+		{
+			throw coda_error("shm_queue::queue<>: error locking queue: %s", coda_strerror(errno));
+		}
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From ee2b543c07ec64b4a1e5ad07ac312e1989890fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:11 +0000
Subject: [PATCH 26/30] fix: queue connect must not reset semaphores others may
 already use

---
 coda/shm_queue.tcc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index b074679..1e1b38a 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -203,19 +203,25 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | IPC_EXCL | 0666)))
 		{
+			// somebody else was faster: the set is theirs to initialize
+			if (EEXIST == errno && -1 != (sem_id = semget(key, 2, 0)))
+			{
+				return;
+			}
+
 			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 		}
 
+		// a new set is zero, so the others wait for the lock until it is set to 1
 		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
 		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
+			int err = errno;
 
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
+			semctl(sem_id, 0, IPC_RMID);
+
+			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(err));
 		}
 	}
 }
-- 
2.43.0


From 171e49d78100937ba5893d77e7b9207fa2ff0ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:11 +0000
Subject: [PATCH 27/30] fix: queue connect must accept a segment whose creator
 failed

---
 coda/shm_queue.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 1e1b38a..b85a157 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -152,7 +152,8 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	// a segment of zeroes was created by somebody who failed before this point
+	if (created || (0 == info->box_size && 0 == info->size))
 	{
 		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
-- 
2.43.0


From 4b52f38cbc0c276a3542bcfca7cfa56a4a9525f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 28/30] fix: synque must release its mutex when copying an
 element throws

---
 coda/synque.hpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..e2493c6 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,14 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	struct guard
+	{
+		pthread_mutex_t &m;
+
+		explicit guard(pthread_mutex_t &mutex) : m(mutex) { pthread_mutex_lock(&m); }
+		~guard() { pthread_mutex_unlock(&m); }
+	};
+
 public:
 	synque()
 	{
@@ -29,28 +37,25 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		guard g(m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
 	{
-		pthread_mutex_lock(&m);
+		guard g(m);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,7 +63,6 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -66,26 +70,22 @@ public:
 		e = d.back();
 		d.pop_back();
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -100,16 +100,13 @@ public:
 			d.pop_back();
 		}
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	size_t size()
 	{
-		pthread_mutex_lock(&m);
+		guard g(m);
 		size_t sz = d.size();
-		pthread_mutex_unlock(&m);
 		return sz;
 	}
 };
-- 
2.43.0


From c37da5422a1b25fed1476a8f7a867dd5eb8cd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:19 +0000
Subject: [PATCH 29/30] fix: txml must keep an element's own text apart from
 its children's

---
 coda/txml.cpp | 3 ++-
 coda/txml.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 1434912..2159bbc 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -146,7 +146,7 @@ void coda::txml_parser::setValue(long double& var) { var = strtold   (current_va
 
 void coda::txml_parser::characters(const char* szChars, unsigned int iLength)
 {
-	current_value.append(szChars, iLength);
+	levels.back().text.append(szChars, iLength);
 }
 
 void coda::txml_parser::begelement(const char* szName, const char** pszAttributes)
@@ -173,6 +173,7 @@ void coda::txml_parser::begelement(const char* szName, const char** pszAttribute
 
 void coda::txml_parser::endelement(const char*)
 {
+	current_value = levels.back().text;
 	determine();
 	current_value.clear();
 	levels.pop_back();
diff --git a/coda/txml.hpp b/coda/txml.hpp
index c0d47a8..a345a5f 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -27,6 +27,7 @@ struct txml_parser
 	struct level_desc
 	{
 		std::string key;
+		std::string text; /* character data of the element itself */
 		int pushed;
 
 		level_desc(const char *k)
-- 
2.43.0


From 4ea9c12de2d29030af7dc19871fb57077e3060dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:05 +0000
Subject: [PATCH 30/30] fix: bounded formatting must work for bounds from 2^31
 on

---
 coda/string.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 5ae73a1..545f948 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -68,13 +68,20 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		va_list aq;
+		va_copy(aq, ap);
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if (0 < bytes && num < (size_t) bytes)
 		{
 			bytes = num;
 		}
 
+		char* BUF = new char [bytes + 1];
+
+		vsnprintf(BUF, bytes + 1, fmt, ap);
+
 		out.append(BUF, bytes);
 
 		delete [] BUF;
@@ -107,13 +114,20 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		va_list aq;
+		va_copy(aq, ap);
+		bytes = vsnprintf(NULL, 0, fmt, aq);
+		va_end(aq);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if (0 < bytes && num < (size_t) bytes)
 		{
 			bytes = num;
 		}
 
+		char* BUF = new char [bytes + 1];
+
+		vsnprintf(BUF, bytes + 1, fmt, ap);
+
 		out.insert(pos, BUF, bytes);
 
 		delete [] BUF;
-- 
2.43.0

