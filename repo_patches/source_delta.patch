From 34409050e882d79d41580dcfdd45f77b3172fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 01/65] fix: osc_atom_s_getInt read int8 and int16 atoms as
 floats

---
 osc_atom_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..1e1558f 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From 1ea3011b7f2c73e7a283b26cfbd94e358e3ea7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 02/65] fix: osc_atom_s_getInt64/getUInt64 sign extension of
 signed types, 4-byte read of uint8 and uint16

---
 osc_atom_s.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 1e1558f..0717f62 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
-- 
2.43.0


From 0238cac98bce51cca4d8e6cd4044da66175b65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 03/65] fix: osc_atom_s_getStringLen used another format than
 osc_atom_s_getString for uint8

---
 osc_atom_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 0717f62..56be3e2 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
-- 
2.43.0


From 98a6cea2c478a4eba1fca2faf3088ec55861f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:27 +0000
Subject: [PATCH 04/65] fix: osc_timetag_subtract lost the borrow when the
 first timetag is the earlier one

---
 osc_timetag.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..48d58b3 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,11 +77,10 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){
+			r.sec--;
 		}
+		r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
 	}
 
 	return *((t_osc_timetag *)(&r));
-- 
2.43.0


From c36ec47c16103991f5fef261dde46f06bbff4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 05/65] fix: osc_typetag_str and osc_typetag_compare read
 outside their tables for typetags above 127

---
 osc_typetag.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index c4e88d0..f676784 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -33,14 +33,23 @@ static char osc_typetag_indexes[] __attribute__((unused)) = {0, 0, 0, 0, 0, 0, 0
 
 char *osc_typetag_str(int8_t tt)
 {
+	if(tt < 0){
+		return "unknown type: (not ASCII)";
+	}
 	return osc_typetag_strings[tt];
 }
 
+static char osc_typetag_index(char tt)
+{
+	unsigned char i = (unsigned char)tt;
+	return i < sizeof(osc_typetag_indexes) ? osc_typetag_indexes[i] : 0;
+}
+
 int osc_typetag_compare(char tt1, char tt2)
 {
 	if(tt1 == tt2){
 		return 0;
-	}else if(osc_typetag_indexes[(int)tt1] < osc_typetag_indexes[(int)tt2]){
+	}else if(osc_typetag_index(tt1) < osc_typetag_index(tt2)){
 		return -1;
 	}else{
 		return 1;
-- 
2.43.0


From 7b4e299dc9eb2e0b987f3a0440772a8d27ed19e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 06/65] fix: osc_error_bundleSanityCheck read past the end of a
 truncated bundle and accepted message sizes that overflow

---
 osc_error.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..a047188 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -146,12 +146,14 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 		return OSC_ERR_NOBUNDLEID;
 	}
 	char *ptr = bundle + OSC_HEADER_SIZE;
-	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
-		cumsize += 4; // msg size
+		int remaining = len - (ptr - bundle);
+		if(remaining < 4){
+			// no room for the message size
+			return OSC_ERR_MSGTOOSMALL;
+		}
 		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
-		if(cumsize > len){
+		if(size > remaining - 4){
 			return OSC_ERR_MSGTOOLARGE;
 		}
 		int ret;
-- 
2.43.0


From df7cdb04a59f6ba9457e97d91796e6b5c7cc3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 07/65] fix: osc_array_get returned memory before the array for
 a negative index

---
 osc_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..3b74547 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
-- 
2.43.0


From 9d31feacd4c13daec3166a4615d007c7b7d6508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 08/65] fix: osc_array_copyInto did not grow a destination that
 is too small and wrote past its end

---
 osc_array.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3b74547..3be8079 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -105,14 +105,13 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
-- 
2.43.0


From 2a7663c194fb36d14df338fd34827bd028dcb705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 09/65] fix: osc_strfmt_stringWithQuotedMeta wrote past the end
 of a buffer that is too small

---
 osc_strfmt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..3bbdc3e 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -177,8 +177,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n > 0){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
@@ -189,8 +189,8 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!str){
 		return 0;
 	}
-	if(!buf){
-		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
+	if(!buf || n == 0){
+		return osc_strfmt_stringWithQuotedMeta(NULL, 0, str) + 2;
 	}else{
 		char tmp[n];
 		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-- 
2.43.0


From 6bec273fe27527c12c1f1fd86db891c154738ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 10/65] fix: osc_strfmt_addQuotes read before an empty string,
 addQuotesAndQuoteMeta allocated no room for the NUL

---
 osc_strfmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 3bbdc3e..13770c3 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -213,7 +213,7 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len == 0 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -250,7 +250,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
-- 
2.43.0


From dff86d3e1b3bebccf7d6901a2433673e4c141242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 11/65] fix: osc_strfmt_blob wrote past the end of a buffer
 that is too small and read past an empty blob

---
 osc_strfmt.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/osc_strfmt.c b/osc_strfmt.c
index 13770c3..865208e 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -126,20 +126,15 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 {
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
-	int c = 0;
-	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
-		}
-		c += snprintf(buf + c, n - c, ")");
-	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
-		}
-		c += snprintf(NULL, 0, ")");
+	size_t c = 0;
+	if(!buf){
+		n = 0;
+	}
+	c += snprintf(buf, n, "blob(");
+	for(int i = 0; i < len; i++){
+		c += snprintf(c < n ? buf + c : NULL, c < n ? n - c : 0, i ? ", %d" : "%d", *ptr++);
 	}
+	c += snprintf(c < n ? buf + c : NULL, c < n ? n - c : 0, ")");
 	return c;
 }
 
-- 
2.43.0


From a00a5e713535d960492e467128a54c8849222ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 12/65] hook: loop annotations for the contract verifier,
 guarded by LIBO_CONTRACTS

---
 osc_contract.h | 21 +++++++++++++++++++++
 osc_error.c    | 19 +++++++++++++++++--
 2 files changed, 38 insertions(+), 2 deletions(-)
 create mode 100644 osc_contract.h

diff --git a/osc_contract.h b/osc_contract.h
new file mode 100644
index 0000000..d57ddc9
--- /dev/null
+++ b/osc_contract.h
@@ -0,0 +1,21 @@
+/*
+  Annotations for the contract verifier (see the LIBO_CONTRACTS guard).  With the guard off, as in
+  every normal build, they expand to nothing.
+*/
+#ifndef __OSC_CONTRACT_H__
+#define __OSC_CONTRACT_H__
+
+#ifdef LIBO_CONTRACTS
+#define OSC_LOOP_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
+#define OSC_LOOP_INVARIANT(e) __CPROVER_loop_invariant(e)
+#define OSC_LOOP_DECREASES(e) __CPROVER_decreases(e)
+#define OSC_OFFSET(p) ((long)__CPROVER_POINTER_OFFSET(p))
+#define OSC_GHOST(s) s
+#else
+#define OSC_LOOP_ASSIGNS(...)
+#define OSC_LOOP_INVARIANT(e)
+#define OSC_LOOP_DECREASES(e)
+#define OSC_GHOST(s)
+#endif
+
+#endif
diff --git a/osc_error.c b/osc_error.c
index a047188..b1184df 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -28,6 +28,10 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_mem.h"
 #include "osc_bundle_s.h"
 #include "osc_byteorder.h"
+#include "osc_contract.h"
+
+OSC_GHOST(extern unsigned char *osc_ghost_tiles; void osc_ghost_tiles_unfold(int len, char *bundle, char *ptr);)
+OSC_GHOST(extern unsigned char *osc_ghost_illegal; void osc_ghost_illegal_unfold(char *address, int i, int len);)
 
 int osc_error_defaultHandler(void *context, const char * const errorstr)
 {
@@ -146,7 +150,13 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 		return OSC_ERR_NOBUNDLEID;
 	}
 	char *ptr = bundle + OSC_HEADER_SIZE;
-	while((ptr - bundle) < len){
+	while((ptr - bundle) < len)
+	OSC_LOOP_ASSIGNS(ptr)
+	OSC_LOOP_INVARIANT(__CPROVER_same_object(ptr, bundle) && OSC_OFFSET(ptr) >= OSC_HEADER_SIZE && OSC_OFFSET(ptr) <= len
+		&& !osc_ghost_tiles[OSC_OFFSET(ptr)] == !osc_ghost_tiles[OSC_HEADER_SIZE])
+	OSC_LOOP_DECREASES(len - OSC_OFFSET(ptr))
+	{
+		OSC_GHOST(osc_ghost_tiles_unfold(len, bundle, ptr);)
 		int remaining = len - (ptr - bundle);
 		if(remaining < 4){
 			// no room for the message size
@@ -189,7 +199,12 @@ t_osc_err osc_error_validateAddress(char *address){
 		return OSC_ERR_MALFORMEDADDRESS;
 	}
 	int len = strlen(address);
-	for(int i = 0; i < len; i++){
+	for(int i = 0; i < len; i++)
+	OSC_LOOP_ASSIGNS(i)
+	OSC_LOOP_INVARIANT(i >= 0 && i <= len && !osc_ghost_illegal[i] == !osc_ghost_illegal[0])
+	OSC_LOOP_DECREASES(len - i)
+	{
+		OSC_GHOST(osc_ghost_illegal_unfold(address, i, len);)
 		switch(address[i]){
 		case '\0':
 			return OSC_ERR_NONE;
-- 
2.43.0


From ca30cc08391ec58a54d78e65a0d806ab1d689758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 13/65] fix: osc_atom_u_nserialize wrote the low word of the
 union for 8- and 16-bit integers

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..87c0c5f 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			int32_t i = osc_atom_u_getInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 282c3f7c211c8dbf52828a6f365ffe5eed4ced43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 14/65] fix: osc_atom_u_nserialize wrote a bundle that does not
 fit as a timetag

---
 osc_atom_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 87c0c5f..c2a06c6 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1401,6 +1401,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From d2648e5e7d4742f3d661ab8dc92ccff519038b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 15/65] fix: osc_atom_u_clear released a blob as if it were a
 bundle

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c2a06c6..955d43b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -134,7 +134,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
-- 
2.43.0


From b292ad30d55145dd11251c3283a2b828d016a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 16/65] fix: osc_atom_u_getUInt64 read only half of an 8-byte
 blob

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 955d43b..89e4e2b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -644,7 +644,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
-- 
2.43.0


From bb7458f32b46bf4e9472d31a000aac5032fa78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 17/65] fix: osc_atom_u_getStringLen measured an 8-bit
 character as a number

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 89e4e2b..c98c473 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -738,7 +738,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
-- 
2.43.0


From f21dc506ad0e0b17e0938b8f52223b309b24fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 18/65] fix: osc_atom_u_getBlobCopy over-read blobs, overran
 for strings and truncated 64-bit integers

---
 osc_atom_u.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c98c473..dfd5c51 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -941,7 +941,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		memcpy(*blob, a->w.b, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
 	case 'c':
 	case 'C':
@@ -961,7 +961,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -984,7 +984,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		{
 			*((int32_t *)(*blob)) = hton32(*buflen - 4);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, *buflen - 4, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
-- 
2.43.0


From 65e3e2625ccb3977481b9143bffcbb0658e3e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:27 +0000
Subject: [PATCH 19/65] fix: osc_atom_s_getBlobCopy read past the data and
 wrote past the buffer

---
 osc_atom_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 56be3e2..79a8e87 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -699,11 +699,11 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 	}
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+		memcpy(*blob, a->data, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		memcpy((*blob) + 4, a->data, *buflen - 4 < bloblen ? *buflen - 4 : bloblen);
 	}
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From fe5ae19689da6b7f5d7d173fe85c0ab1d75bf02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:45 +0000
Subject: [PATCH 20/65] fix: osc_atom_u_setString and setBlob leaked what the
 atom owned

---
 osc_atom_u.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index dfd5c51..e9fe1e0 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1122,6 +1122,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 		}
 	}else{
 		if(v){
+			osc_atom_u_clear(a);
 			a->w.s = osc_mem_alloc(strlen(v) + 1);
 			strcpy(a->w.s, v);
 			a->typetag = 's';
@@ -1237,6 +1238,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
-- 
2.43.0


From 16c2f3eec379ed84d321f2e508c08e8b3e9fe605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 21/65] fix: osc_atom_u_getBlobLen took an atom whose value is
 zero for missing data

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index e9fe1e0..36764ac 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -909,7 +909,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_sizeof(osc_atom_u_getTypetag(a), (char *)&(a->w));
 	}
 }
 
-- 
2.43.0


From f823cfec8a1a17bac623ff4dd4665924ec1fe006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 22/65] fix: osc_hashtab_new read past the table of primes for
 152287 slots or more

---
 osc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..a8ea872 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
-- 
2.43.0


From 0fde21f384a4d6bfb3c426b702b601ab25405716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 23/65] fix: osc_hashtab_storeSafe leaked an element when the
 key is present

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index a8ea872..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 94c6ddcb382a286fbefbe4ca8b4606bd085a961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 24/65] fix: osc_message_u_insertAtom lost the new argument at
 a negative position and left a stale link at the end

---
 osc_message_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..b053006 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -279,10 +279,11 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-	if(pos == 0){
+	if(pos <= 0){
 		a->next = m->arghead;
 		if(m->arghead){
 			m->arghead->prev = a;
-- 
2.43.0


From af6cfcb6e2f3c3d366e714f82e9d2b0a145c7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 25/65] fix: osc_message_u_prependString and insertString
 leaked a copy of the string

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index b053006..8bfd1d6 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -596,10 +596,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -765,10 +762,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From d33a313aac52505f1a59a0f975facc9119f487fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 26/65] fix: osc_message_u_setAddress leaked the address when
 it is set to NULL

---
 osc_message_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index 8bfd1d6..c1968ca 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -171,6 +171,7 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		osc_mem_free(m->address);
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From 2b0199c229ab8175b2dd7f26fe29ac1fb75e9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 27/65] fix: osc_bundle_u_removeMsg did not adjust the message
 count

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..94d10c7 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -263,7 +263,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -410,6 +409,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -422,7 +422,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(!strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 2a7cf6ecd2504283c22c9145324dfbf110e79207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 28/65] fix: osc_bundle_u_removeMessage and replaceMessage
 compared a missing address

---
 osc_bundle_u.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 94d10c7..1d08bce 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -275,7 +275,8 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                const char * const messageaddr = osc_message_u_getAddress(m);
+                if(messageaddr && !strcmp(address, messageaddr)){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -419,7 +420,8 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            const char * const messageaddr = osc_message_u_getAddress(m);
+            if(messageaddr && !strcmp(address, messageaddr)){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
             }
-- 
2.43.0


From ec37b37223eb22d507856b58197e07b6c3a5d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 29/65] fix: osc_bundle_u_replaceMessage leaked the address of
 the message it replaces

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 1d08bce..09cbc35 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -283,6 +283,7 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
                     t_osc_msg_u * prev = m->prev;
                     
                     osc_message_u_clearArgs(m);
+                    osc_message_u_setAddress(m, NULL);
                     osc_message_u_deepCopy(&m, msg);
                     
                     m->next = next;
-- 
2.43.0


From 6d4823f0f7f3cfa7076fed8c6d2333129ce8ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 30/65] fix: osc_bundle_u_addMsgList left the backward links
 unset, so that removing a message broke the list

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 09cbc35..5759827 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -385,6 +385,7 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	t_osc_msg_u *last = msgs;
 	bndl->msghead = msgs;
 	while(msgs){
+		msgs->prev = n ? last : NULL;
 		n++;
 		last = msgs;
 		msgs = osc_message_u_next(msgs);
-- 
2.43.0


From b2e1ec498a05f85b0e3925d1f6510d8d48f97ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 31/65] hook: smaller backtracking stack for the contract
 verifier, guarded by OSC_MATCH_CONTRACT_LIMIT

---
 osc_match.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..66fd3ef 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -24,6 +24,12 @@
 #include <stdio.h>
 #include <inttypes.h>
 
+#ifdef OSC_MATCH_CONTRACT_LIMIT
+// the contract verifier expands the whole stack, so it uses a smaller one
+#undef OSC_MATCH_BACKTRACK_LIMIT
+#define OSC_MATCH_BACKTRACK_LIMIT OSC_MATCH_CONTRACT_LIMIT
+#endif
+
 //#define OSC_MATCH_LOGSTATE
 #define OSC_MATCH_RANGE_CAN_BE_NEGATIVE
 
-- 
2.43.0


From b02854bc43b0dc05456e3dc6c67f3e6d7908d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:39 +0000
Subject: [PATCH 32/65] fix: osc_bundle_s_setBundleID_b wrote a 16-byte header
 into 8 bytes; osc_bundle_s_allocEmptyBundle left its fields unset

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..faca4c6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From 97fddcc2cd4dddabdc4d6bf2938848e0201167c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:39 +0000
Subject: [PATCH 33/65] fix: osc_bundle_s_addressIsBound took the length of the
 pattern for that of the message address

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index faca4c6..0472358 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From 69215c2cc0416ac5bdf9424d1b9d6bce21b0af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 34/65] fix: osc_bundle_s_wrapMessage, union and intersection
 left the timetag of a new header unset

---
 osc_bundle_s.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 0472358..f13dc99 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -339,7 +339,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		}
 		*alloc = 1;
 	}
-	osc_bundle_s_setBundleID(*bndl);
+	memcpy(*bndl, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
 	return OSC_ERR_NONE;
@@ -699,7 +699,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
-		osc_bundle_s_setBundleID(bndl_out);
+		memcpy(bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
 	}
@@ -756,7 +756,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0


From a6df6a85bb110153d9173efa13ed649c685721b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 35/65] fix: osc_bundle_s_intersection gave the messages that
 only one of the bundles has

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index f13dc99..6d60c8c 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -830,7 +830,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 			char *address = osc_message_s_getAddress(m);
 			int res = 0;
 			osc_bundle_s_addressExists(lens[(i + 1) % 2], bndls[(i + 1) % 2], address, 1, &res);
-			if(res == 0){
+			if(res != 0){
 				int res = 0;
 				osc_bundle_s_addressExists(len, bndl, address, 1, &res);
 				if(res == 0){
-- 
2.43.0


From e6a719b53599b0c9165c65601f347edbf67475f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 36/65] fix: osc_message_s_getTypetag and getArg read before
 the typetags for a negative index

---
 osc_message_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..66ccce8 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -214,7 +214,7 @@ char *osc_message_s_getPtr(t_osc_msg_s *m){
 char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return 0;
 	}
 #endif
@@ -224,7 +224,7 @@ char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return;
 	}
 #endif
-- 
2.43.0


From d5270239551471779ebc713afd63186d484bd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 37/65] fix: osc_message_s_renameCopy copied from a null
 pointer for a message without typetags

---
 osc_message_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 66ccce8..55df42e 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -150,7 +150,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 8067e685e089bf47a50e40eadc03ea8c975a1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 38/65] fix: osc_bundle_u_nserialize leaked its iterator when
 the buffer has no room for the header

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 5759827..583bf54 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -629,6 +629,7 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 		}
 	}else{
 		if(n < OSC_HEADER_SIZE){
+			osc_bndl_it_u_destroy(it);
 			return 0;
 		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
-- 
2.43.0


From e45ac2a7c5675c4194d8edb55317265b6a61f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 39/65] fix: osc_serial_processByte lost the size of a message
 in a bundle

Only the last two bytes of the size survived, a last byte above 127 or equal to 0
(sizes from 128 to 255 and multiples of 256) derailed the parser, a first byte
above 127 overwrote the whole state, and the negative size check was missing.
---
 osc_serial.c | 38 ++++++++++++++++++++++----------------
 osc_serial.h |  4 ++++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..e5cfa3f 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -269,33 +269,39 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(b & 0xff) << 24));
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
 			{
-				int32_t c = count & 0xff;
-				switch(c){
-				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
-				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
-				default:
-					//count = ntoh32(count);
+				if(micro == OSC_SERIAL_MESSAGE_SIZE_COMPLETE){
+					if(count == 0){
+						OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+					}
 					if(b == '/'){
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
 					}else{
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
 					}
 				}
+				uint32_t c = count & 0xff;
+				switch(c){
+				case 0:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xff000000) | ((uint32_t)(b & 0xff) << 16) | (c + 1));
+				case 1:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count & 0xffff0000) | ((uint32_t)(b & 0xff) << 8) | (c + 1));
+				default:
+					count = (count & 0xffffff00) | (b & 0xff);
+					if(count & 0x80000000){
+						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE);
+					}
+					if(count % 4){
+						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_BADALIGNMENT);
+					}
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_MESSAGE_SIZE_COMPLETE | count);
+				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
 			switch(micro){
@@ -418,7 +424,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
 			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(b & 0xff) << 24));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..eabd42f 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -9,6 +9,7 @@ header	   |	id	   |	<none>	   |
 header	   |    timetag    |	<none>     |
 	   |		   |		   |
 message	   |	size	   |	<none>	   |
+message	   |	size	   |	complete   |
 	   |		   |		   |
 message	   |	address	   |	<none>	   |
 message	   |	address	   |	curly br.  |
@@ -57,6 +58,9 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_TYPETAGS 0x0004000000000000ull
 #define OSC_SERIAL_MESSAGE_DATA 0x0008000000000000ull
 
+// size micro states
+#define OSC_SERIAL_MESSAGE_SIZE_COMPLETE 0x0000010000000000ull
+
 // address micro states
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS 0x0000010000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA 0x0000020000000000ull
-- 
2.43.0


From 99b7f7101a8cc2bebfcf99dea1cb79976cb0974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 40/65] fix: osc_serial_processByte ran past the end of a
 message in a bundle

When the size runs out inside the address or the typetags the counter wrapped
around; a message without data swallowed everything that follows it.
---
 osc_serial.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index e5cfa3f..36a6665 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -304,6 +304,9 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
+			if(count == 0){
+				OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+			}
 			switch(micro){
 			case 0:
 				switch(b){
@@ -386,6 +389,13 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				}
 			}
 		case OSC_SERIAL_MESSAGE_TYPETAGS:
+			if(count == 0){
+				if(micro == OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING){
+					// a message without data: this is the first byte of the next size
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(b & 0xff) << 24));
+				}
+				OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_BUFFEROVERRUN);
+			}
 			switch(micro){
 			case 0:
 				switch(b){
-- 
2.43.0


From 311876ed78c807c335cdf326f81c5ae52116b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 41/65] fix: osc_serial_processByte accepted unmatched brackets
 in a message outside a bundle

---
 osc_serial.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 36a6665..2c47c8b 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -451,6 +451,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -473,6 +477,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -495,6 +501,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
-- 
2.43.0


From 8c4ea9bcb8d517d5673ea16e31420dbaa6a8faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 42/65] fix: osc_serial_processByte took {a,b,c} for a double
 comma and [a-cx-z] for a double dash

---
 osc_serial.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 2c47c8b..6248a04 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -328,6 +328,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case ',':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLECOMMA);
 				}
+				s = (s & ~0x0000ff0000000000ull) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS:
 				switch(b){
@@ -352,6 +353,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '-':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLEDASH);
 				}
+				s = (s & ~0x0000ff0000000000ull) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS:
 				switch(b){
@@ -463,6 +465,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case ',':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLECOMMA);
 				}
+				s = (s & ~0x0000ff0000000000ull) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS:
 				switch(b){
@@ -487,6 +490,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '-':
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_DOUBLEDASH);
 				}
+				s = (s & ~0x0000ff0000000000ull) | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS;
 				// intentional fallthrough to the next case
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS:
 				switch(b){
-- 
2.43.0


From 84bc0223b9658d173b7957f096b7aeb314e5f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 43/65] fix: osc_serial_macroStr and microStr indexed their
 tables by the wrong bits

The check of macroStr was off by one, microStr took the state byte for the micro
byte, and both converted the logarithm of zero to an integer.
---
 osc_serial.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 6248a04..5285825 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -99,10 +99,21 @@ static char *_osc_serial_typetagMicroStr[] = {
 
 #define OSC_SERIAL_NULLSTATE ""
 
+// index of the highest bit in b, or 0xff if b is zero
+static uint32_t _osc_serial_bitIndex(uint64_t b)
+{
+	uint32_t i = 0xff;
+	while(b){
+		b >>= 1;
+		i = (i + 1) & 0xff;
+	}
+	return i;
+}
+
 char *osc_serial_macroStr(uint64_t s)
 {
-	uint32_t state = (uint32_t)log2f((float)((s & 0xff00000000000000) >> 56));
-	if(state <= sizeof(_osc_serial_macroStr) / sizeof(char *)){
+	uint32_t state = _osc_serial_bitIndex((s & 0xff00000000000000) >> 56);
+	if(state < sizeof(_osc_serial_macroStr) / sizeof(char *)){
 		return _osc_serial_macroStr[state];
 	}else{
 		return OSC_SERIAL_NULLSTATE;
@@ -112,7 +123,7 @@ char *osc_serial_macroStr(uint64_t s)
 char *osc_serial_stateStr(uint64_t s)
 {
 	uint64_t macro = (uint64_t)(s & 0xff00000000000000);
-	uint32_t state = (uint32_t)log2f((float)((s & 0x00ff000000000000) >> 48));
+	uint32_t state = _osc_serial_bitIndex((s & 0x00ff000000000000) >> 48);
 	switch(macro){
 	case OSC_SERIAL_BUNDLE_HEADER:
 		if(state < sizeof(_osc_serial_headerStateStr) / sizeof(char *)){
@@ -138,7 +149,7 @@ char *osc_serial_microStr(uint64_t s)
 {
 	uint64_t macro = (uint64_t)(s & 0xff00000000000000);
 	uint64_t state = (uint64_t)(s & 0x00ff000000000000);
-	uint32_t micro = (uint32_t)log2f((float)((s & 0x00ff000000000000) >> 40));
+	uint32_t micro = _osc_serial_bitIndex((s & 0x0000ff0000000000) >> 40);
 	switch(macro){
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 	case OSC_SERIAL_MESSAGE:
-- 
2.43.0


From dbe55ca47ba96f8c4e8b4935611210d339f7ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 44/65] fix: osc_serial_processByte rejected blob arguments

---
 osc_serial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 5285825..e3eb66d 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -423,6 +423,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
@@ -553,6 +554,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'f':
 				case 'd':
 				case 's':
+				case 'b':
 				case 'T':
 				case 'F':
 				case 'N':
-- 
2.43.0


From 2da293e1a6478e1f594cea37a23b93b65f7bdef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 45/65] fix: osc_timetag_toISO8601 gave wrong dates for most of
 the 20th century

The leap year test took the years since 1900 for the year, so 1900 counted as a
leap year and 2000 did not, and the last day of a leap year underflowed.
---
 osc_timetag.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 48d58b3..b95e0aa 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -321,14 +321,13 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
-		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+	for(year = 1900; ; year++){ //determine # years elapse since epoch (1/1/1900, 00:00 is ntp epoch)
+		DWORD len = SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0);
+		if(secs < len){
+			break;
 		}
+		secs -= len;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
-- 
2.43.0


From 7ece95f728c8060f52b4e074b58e1ff84ad1cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:08 +0000
Subject: [PATCH 46/65] fix: osc_timetag_toISO8601 reported one byte more than
 it writes

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index b95e0aa..9c30fe8 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -308,7 +308,7 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		return 18 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
 	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
-- 
2.43.0


From 156aff8b0c4d468a8375eb876fd285647e3e6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:49 +0000
Subject: [PATCH 47/65] hook: loop contracts of the calendar conversions,
 guarded by LIBO_CONTRACTS

---
 osc_timetag.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 9c30fe8..2771a88 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -23,6 +23,7 @@
 #include "osc_timetag.h"
 #include "osc_strfmt.h"
 #include "osc_mem.h"
+#include "osc_contract.h"
 
 #ifdef LINUX_VERSION
 struct timezone {
@@ -303,6 +304,9 @@ unsigned short int osc_timetag_getmonth(unsigned short int *day, unsigned short
 }
 
 #define DWORD uint64_t
+
+// annotations only: seconds from the beginning of 1900 to that of year y
+#define OSC_GHOST_YEAR(y) ((uint64_t)(365 * ((y) - 1900) + ((y) - 1) / 4 - ((y) - 1) / 100 + ((y) - 1) / 400 - 460) * 86400)
 long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 {
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
@@ -321,7 +325,11 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 1900; ; year++){ //determine # years elapse since epoch (1/1/1900, 00:00 is ntp epoch)
+	for(year = 1900; ; year++) //determine # years elapse since epoch (1/1/1900, 00:00 is ntp epoch)
+	OSC_LOOP_ASSIGNS(year, secs)
+	OSC_LOOP_INVARIANT(year >= 1900 && year <= 2036 && secs + OSC_GHOST_YEAR(year) == timetag.sec)
+	OSC_LOOP_DECREASES(2100 - year)
+	{
 		DWORD len = SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0);
 		if(secs < len){
 			break;
@@ -340,13 +348,25 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 	leap = osc_timetag_isleap(year); //Is this a leap year?
 
 
-	for(day = 1; secs >= SEC_PER_DAY; day++){ //determine # days elapsed in current year
+	for(day = 1; secs >= SEC_PER_DAY; day++) //determine # days elapsed in current year
+	OSC_LOOP_ASSIGNS(day, secs)
+	OSC_LOOP_INVARIANT(day >= 1 && day <= 366 && secs + (uint64_t)(day - 1) * 86400 + OSC_GHOST_YEAR(year) == timetag.sec)
+	OSC_LOOP_DECREASES(secs)
+	{
 		secs -= SEC_PER_DAY;
 	}
-	for(hour = 0; secs >= SEC_PER_HR; hour++){  //determine hours elapsed in current day
+	for(hour = 0; secs >= SEC_PER_HR; hour++)  //determine hours elapsed in current day
+	OSC_LOOP_ASSIGNS(hour, secs)
+	OSC_LOOP_INVARIANT(hour <= 23 && secs + (uint64_t)hour * 3600 + (uint64_t)(day - 1) * 86400 + OSC_GHOST_YEAR(year) == timetag.sec)
+	OSC_LOOP_DECREASES(secs)
+	{
 		secs -= SEC_PER_HR;
 	}
-	for(minute = 0; secs >= SEC_PER_MIN; minute++){  //determine minutes elapsed in current hour
+	for(minute = 0; secs >= SEC_PER_MIN; minute++)  //determine minutes elapsed in current hour
+	OSC_LOOP_ASSIGNS(minute, secs)
+	OSC_LOOP_INVARIANT(minute <= 59 && secs + (uint64_t)minute * 60 + (uint64_t)hour * 3600 + (uint64_t)(day - 1) * 86400 + OSC_GHOST_YEAR(year) == timetag.sec)
+	OSC_LOOP_DECREASES(secs)
+	{
 		secs -= SEC_PER_MIN;
 	}
 	
@@ -488,7 +508,11 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	const unsigned short int SEC_PER_MIN = 60;
 
 	uint32_t sec = 0;
-	for(int i = 0; i < t.tm_year; i++){
+	for(int i = 0; i < t.tm_year; i++)
+	OSC_LOOP_ASSIGNS(i, sec)
+	OSC_LOOP_INVARIANT(i >= 0 && i <= t.tm_year && sec == OSC_GHOST_YEAR(i + 1900))
+	OSC_LOOP_DECREASES(t.tm_year - i)
+	{
 		sec += SEC_PER_YEAR;
 		if(osc_timetag_isleap(i + 1900)){
 			sec += SEC_PER_DAY;
-- 
2.43.0


From 7f7445cb34d032c02e204128d2d461f4a66a44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 48/65] fix: osc_vtable_addEntry left the hash table pointing
 into the old entries when they moved

---
 osc_vtable.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..1ea76bf 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -80,12 +80,6 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 			      t_osc_vtable_method method,
 			      void *context)
 {
-	if(vtab->num_entries >= vtab->num_slots){
-		vtab->entries = osc_mem_resize(vtab->entries, ++(vtab->num_slots) * sizeof(t_osc_vtable_entry));
-		if(!(vtab->entries)){
-			return OSC_ERR_OUTOFMEM;
-		}
-	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
 		// already an entry with this selector.  blow away the old one.
@@ -94,6 +88,20 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 
+	if(vtab->num_entries >= vtab->num_slots){
+		t_osc_vtable_entry *entries = osc_mem_resize(vtab->entries, (vtab->num_slots + 1) * sizeof(t_osc_vtable_entry));
+		if(!entries){
+			return OSC_ERR_OUTOFMEM;
+		}
+		vtab->entries = entries;
+		vtab->num_slots++;
+		// the entries may have moved, so the hashtab has to point to where they are now
+		int i;
+		for(i = 0; i < vtab->num_entries; i++){
+			t_osc_vtable_entry *e = &(vtab->entries[i]);
+			osc_hashtab_store(vtab->hashtab, strlen(e->selector), e->selector, e);
+		}
+	}
 	entry = &(vtab->entries[vtab->num_entries]);
 	vtab->num_entries++;
 	if(selector){
-- 
2.43.0


From 4683215780ac6cd17897a9e464f5ab5ae620979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 49/65] fix: osc_vtable_renameEntry overwrote the stored key,
 kept the caller's string and took over another entry's selector

---
 osc_vtable.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 1ea76bf..877c32a 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -185,14 +185,26 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	if(!e){
 		return OSC_ERR_INVAL;
 	}
-	int oldlen = strlen(old_selector);
+	t_osc_vtable_entry *other = osc_vtable_getEntryBySelector(vtab, new_selector);
+	if(other == e){
+		return OSC_ERR_NONE;
+	}
+	if(other){
+		// the new selector belongs to another entry
+		return OSC_ERR_INVAL;
+	}
 	int newlen = strlen(new_selector);
-	if(newlen > oldlen){
-		e->selector = osc_mem_resize(e->selector, newlen + 1);
+	char *selector = osc_mem_alloc(newlen + 1);
+	if(!selector){
+		return OSC_ERR_OUTOFMEM;
 	}
-	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	memcpy(selector, new_selector, newlen + 1);
+	// the hashtab doesn't make a copy of the key, so the old one must leave it before it is freed
+	char *old = e->selector;
+	osc_hashtab_remove(vtab->hashtab, strlen(old), old, NULL);
+	e->selector = selector;
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)e);
+	osc_mem_free(old);
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 12a80ee263e92653335bb5fa2399c0cb6935023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 50/65] fix: osc_vtable_getEntryByIndex gave memory before the
 entries for a negative index

---
 osc_vtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 877c32a..552df8b 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -131,7 +131,7 @@ int osc_vtable_getNumSlots(t_osc_vtable *vtab){
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryByIndex(t_osc_vtable *vtab, int index){
-	if(index >= vtab->num_entries){
+	if(index < 0 || index >= vtab->num_entries){
 		return NULL;
 	}
 	return &(vtab->entries[index]);
-- 
2.43.0


From e8de34bc35b6ed3382b1272a62c7e000525f2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 51/65] fix: osc_vtable_free leaked the table itself

---
 osc_vtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 552df8b..662dd29 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
-- 
2.43.0


From 680c5d443eb0581aaf138698bd730ff09961f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 52/65] fix: osc_vtable called a delegation method or an entry
 method that is not set

---
 osc_vtable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 662dd29..ad694bc 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -216,6 +216,9 @@ int osc_vtable_callWithEntry(t_osc_vtable *vtab,
 			     t_osc_bndl_s *partial_matches,
 			     t_osc_bndl_s *complete_matches)
 {
+	if(!(e->method)){
+		return 1;
+	}
 	e->method(e, bndllen, bndl, partial_matches, complete_matches, e->context);
 	return 0;
 }
@@ -235,6 +238,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
+	if(!(vtab->delegation_method)){
+		return 1;
+	}
 	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
 	return 0;
 }
-- 
2.43.0


From 245e36743c09e8d207efa6d7ae603a798bfd6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 53/65] fix: osc_dispatch stripped the length matched of the
 selector from the message address

---
 osc_dispatch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..db683f9 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,7 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From 4c5521e803e44834831046803424c323899ec13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 54/65] fix: osc_dispatch made an array of no elements for an
 empty table

---
 osc_dispatch.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index db683f9..fc3a2aa 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -199,8 +199,9 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	// a table may be empty, an array may not
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -254,8 +255,9 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	// a table may be empty, an array may not
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
-- 
2.43.0


From 0d828a452f1c5b058ad703e62c91381f1935cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:59 +0000
Subject: [PATCH 55/65] fix: stripping a partial match lost the message when
 the rest of its address is a pattern

---
 osc_dispatch.c  | 2 +-
 osc_message_s.c | 8 ++++++++
 osc_message_s.h | 5 +++++
 osc_query.c     | 2 +-
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index fc3a2aa..e74ce66 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,7 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
+			osc_message_s_renameCopyPattern(buf, msg, strlen(address) - po, address + po);
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
diff --git a/osc_message_s.c b/osc_message_s.c
index 55df42e..c806c1c 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -133,6 +133,14 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	if(osc_error_validateAddress(new_address)){
 		return 0;
 	}
+	return osc_message_s_renameCopyPattern(dest, src, new_address_len, new_address);
+}
+
+int32_t osc_message_s_renameCopyPattern(char *dest, t_osc_msg_s *src, int32_t new_address_len, char *new_address)
+{
+	if(!dest){
+		return 0;
+	}
 	int32_t oldlen = osc_message_s_getSize(src);
 	//int32_t old_address_len = strlen(osc_message_s_getAddress(src));
 	//int32_t newlen = oldlen - (old_address_len - new_address_len);
diff --git a/osc_message_s.h b/osc_message_s.h
index 794e316..ff7b530 100644
--- a/osc_message_s.h
+++ b/osc_message_s.h
@@ -101,6 +101,11 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src);
  */
 int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_address_len, char *new_address);
 
+/**
+ * The same as #osc_message_s_renameCopy, but the new address may be a pattern.
+ */
+int32_t osc_message_s_renameCopyPattern(char *dest, t_osc_msg_s *src, int32_t new_address_len, char *new_address);
+
 /**
    Wrap an array of bytes containing a serialized OSC message in a #t_osc_msg_s object
    @param m OSC message
diff --git a/osc_query.c b/osc_query.c
index c149d31..2891f6d 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -117,7 +117,7 @@ int osc_query_select_impl(int nselectors,
 				if(strip_matched_portion_of_address){
 					char buf[osc_message_s_getSize(msg) + 4];
 					char *address = osc_message_s_getAddress(msg);
-					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
+					osc_message_s_renameCopyPattern(buf, msg, strlen(address) - po, address + po);
 					char msg_s[osc_message_s_getStructSize()];
 					osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 					//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-- 
2.43.0


From c59da9b06208fb62758b5701105cd20e2b56ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:36 +0000
Subject: [PATCH 56/65] fix: osc_expr_subtract made every integer difference an
 int32

---
 osc_expr.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index a65e306..591937d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2432,7 +2432,33 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+			switch(tt){
+			case 'i':
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+				break;
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			case 'u':
+				osc_atom_u_setInt16(*result, osc_atom_u_getInt16(f1) - osc_atom_u_getInt16(f2));
+				break;
+			case 'U':
+				osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) - osc_atom_u_getUInt16(f2));
+				break;
+			case 'c':
+				osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) - osc_atom_u_getInt8(f2));
+				break;
+			case 'C':
+				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) - osc_atom_u_getUInt8(f2));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From 5ea879653031c2ee0c20ae193d419a38531b2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:36 +0000
Subject: [PATCH 57/65] fix: osc_expr_divide divided unsigned 8-bit integers as
 signed ones

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 591937d..78fa30b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2645,11 +2645,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 72d2aec9fba7f5cf19d3d3b77f2c5427f40a0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:36 +0000
Subject: [PATCH 58/65] fix: osc_expr_divide trapped on the smallest integer
 divided by -1

---
 osc_expr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 78fa30b..62fe18a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2579,7 +2579,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
+						// the smallest integer divided by -1 does not fit, and the division traps
+						int32_t i1 = osc_atom_u_getInt32(f1);
+						osc_atom_u_setInt32(*result, i2 == -1 ? (int32_t)(0 - (uint32_t)i1) : i1 / i2);
 					}
 				}
 				break;
@@ -2599,7 +2601,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
+						// the smallest integer divided by -1 does not fit, and the division traps
+						int64_t i1 = osc_atom_u_getInt64(f1);
+						osc_atom_u_setInt64(*result, i2 == -1 ? (int64_t)(0 - (uint64_t)i1) : i1 / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 9122f8e96f5f21c8749b92a0b2f92b1ac6dae144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:37 +0000
Subject: [PATCH 59/65] fix: comparisons of 64-bit integers lost the low bits

---
 osc_expr.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 62fe18a..4ee7b49 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2689,6 +2689,31 @@ int osc_expr_compareTimetag(t_osc_atom_u *f1, t_osc_atom_u *f2)
 	return osc_timetag_compare(timetag1, timetag2);
 }
 
+// -1, 0 or 1 for less, equal and greater, 2 if there is no order (NaN).
+// two integers are compared as integers: a double holds only 53 bits
+static int osc_expr_compareNumeric(t_osc_atom_u *f1, t_osc_atom_u *f2)
+{
+	char tt1 = osc_atom_u_getTypetag(f1), tt2 = osc_atom_u_getTypetag(f2);
+	if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		int neg1 = tt1 != 'H' && osc_atom_u_getInt64(f1) < 0;
+		int neg2 = tt2 != 'H' && osc_atom_u_getInt64(f2) < 0;
+		if(neg1 != neg2){
+			return neg1 ? -1 : 1;
+		}
+		if(neg1){
+			int64_t i1 = osc_atom_u_getInt64(f1), i2 = osc_atom_u_getInt64(f2);
+			return i1 < i2 ? -1 : i1 > i2;
+		}
+		uint64_t u1 = osc_atom_u_getUInt64(f1), u2 = osc_atom_u_getUInt64(f2);
+		return u1 < u2 ? -1 : u1 > u2;
+	}
+	double d1 = osc_atom_u_getDouble(f1), d2 = osc_atom_u_getDouble(f2);
+	if(d1 != d1 || d2 != d2){
+		return 2;
+	}
+	return d1 < d2 ? -1 : d1 > d2;
+}
+
 int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void* context)
 {
 	if(!f1 || !f2){
@@ -2704,7 +2729,7 @@ int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) < osc_atom_u_getDouble(f2));
+		osc_atom_u_setBool(*result, osc_expr_compareNumeric(f1, f2) == -1);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) == -1);
@@ -2734,7 +2759,7 @@ int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) <= osc_atom_u_getDouble(f2));
+		osc_atom_u_setBool(*result, osc_expr_compareNumeric(f1, f2) < 1);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 1);
@@ -2764,7 +2789,7 @@ int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) > osc_atom_u_getDouble(f2));
+		osc_atom_u_setBool(*result, osc_expr_compareNumeric(f1, f2) == 1);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) == 1);
@@ -2794,7 +2819,8 @@ int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) >= osc_atom_u_getDouble(f2));
+		int order = osc_expr_compareNumeric(f1, f2);
+		osc_atom_u_setBool(*result, order == 0 || order == 1);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != -1);
@@ -2822,7 +2848,7 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setFalse(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) == osc_atom_u_getDouble(f2));
+		osc_atom_u_setBool(*result, osc_expr_compareNumeric(f1, f2) == 0);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) == 0);
@@ -2869,7 +2895,7 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setTrue(*result);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
-		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) != osc_atom_u_getDouble(f2));
+		osc_atom_u_setBool(*result, osc_expr_compareNumeric(f1, f2) != 0);
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
-- 
2.43.0


From a40eeb4aed1e0409908dc94bfa9aabd28337338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:37 +0000
Subject: [PATCH 60/65] fix: ++ and -- took 64-bit integers for unsigned 32-bit
 ones and the other way round

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4ee7b49..63a7e39 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3208,10 +3208,10 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
@@ -3241,10 +3241,10 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
-- 
2.43.0


From 1e26c3c5a9607ea24aa041bf15d22fcdb4ca994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:08 +0000
Subject: [PATCH 61/65] fix: osc_bundle_u_flatten went on from a nested bundle
 it had just freed

---
 osc_bundle_u.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 583bf54..c03843a 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -452,9 +452,10 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = mcopy->arghead;
+			while(next){
+				t_osc_atom_u *a = next;
+				next = a->next;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -491,7 +492,6 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
-- 
2.43.0


From 4159a924c842649cf29169e0748cc3cdefb38522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:08 +0000
Subject: [PATCH 62/65] fix: osc_message_u_explode never ended for a separator
 other than /

---
 osc_message_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index c1968ca..98ee6d9 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -904,7 +904,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -939,7 +939,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From 978c2acb49935ce910e2f17871a9951543e9faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:08 +0000
Subject: [PATCH 63/65] fix: osc_atom_u_append left the appended atom without a
 way back

---
 osc_atom_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 36764ac..9425146 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -149,6 +149,9 @@ void osc_atom_u_append(t_osc_atom_u *a1, t_osc_atom_u *a2)
 		a1 = a1->next;
 	}
 	a1->next = a2;
+	if(a2){
+		a2->prev = a1;
+	}
 }
 
 char osc_atom_u_getTypetag(t_osc_atom_u *a)
-- 
2.43.0


From 26839556c3884e5252d478b64cfdafb56e2ee846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:28 +0000
Subject: [PATCH 64/65] fix: restore osc_bundle_s_difference, which a6df6a8 had
 changed by mistake

a6df6a8 was meant for osc_bundle_s_intersection, which is right as it stands.
---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 6d60c8c..f13dc99 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -830,7 +830,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 			char *address = osc_message_s_getAddress(m);
 			int res = 0;
 			osc_bundle_s_addressExists(lens[(i + 1) % 2], bndls[(i + 1) % 2], address, 1, &res);
-			if(res != 0){
+			if(res == 0){
 				int res = 0;
 				osc_bundle_s_addressExists(len, bndl, address, 1, &res);
 				if(res == 0){
-- 
2.43.0


From d3c125d5656e490bc39fbd27a86abe88b3f899e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:28 +0000
Subject: [PATCH 65/65] fix: osc_bundle_s_difference left the timetag of a new
 header unset

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index f13dc99..2363146 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -801,7 +801,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
-		osc_bundle_s_setBundleID(*bndl_out);
+		memcpy(*bndl_out, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
 	}
-- 
2.43.0

