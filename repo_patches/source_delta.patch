From d66de41002edcc8bf63fd8feb4cf1850874b1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 01/32] fix: Enforce the maximum ring size even if more space
 is allocated

---
 src/gutil_ring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..244717f 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -281,7 +281,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +299,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 04b7d3a802d33613537c3447dd7663a5d8e04ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 02/32] fix: Don't shrink the ring buffer below its recorded
 size in gutil_ring_flatten

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 244717f..c310e59 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -428,7 +428,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 6c8b11afe82b4e57a201f5b280b91a910da25dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 03/32] fix: Avoid integer overflow in gutil_ring_can_put

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c310e59..2127ea3 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 7b373725342a6dde3637bf8950c420659fcb38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 04/32] fix: Avoid integer overflow when sorting integers

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..20e77d0 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +341,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v1 < *v2) - (*v1 > *v2);
 }
 
 void
-- 
2.43.0


From a67ca752ee44a3062f5b339e99a109077ea9c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 05/32] fix: Check the ranges in gutil_int_array_remove
 functions

---
 src/gutil_intarray.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 20e77d0..a2127a4 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max));
     }
     return array;
 }
-- 
2.43.0


From 119b3b3a42438a7ef156d98e404d2473818485f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 06/32] fix: Avoid overflow and leak in
 gutil_ints_new_from_ints

---
 src/gutil_ints.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..baa3fc3 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,11 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
+    if (ints && offset < ints->count && count) {
+        const guint max = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, max), gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 854e27b54fdbd2857a411445aafc34c5bb470ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 07/32] fix: Make gutil_ints_unref_to_data work for any kind of
 data

It crashed if there was no free function, leaked user_data which was
not the same as data, and accessed the object after dropping its
reference to it.
---
 src/gutil_ints.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index baa3fc3..a3f4d1b 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -155,17 +155,14 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
-            }
+        if (ints->free_func == g_free && ints->user_data == ints->data &&
+            g_atomic_int_get(&ints->ref_count) == 1) {
+            /* We can allow the caller to free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From b01a6906080d20ddb23b674ad714c137eda02e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 08/32] fix: Allow removing an own element of the vector by
 gutil_strv_remove

---
 src/gutil_strv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..c890787 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,18 +244,20 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            char* first = sv[pos]; /* s may get freed by the loop below */
 
-            sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
+            sv = gutil_strv_remove_impl(sv, pos, len, FALSE);
             if (remove_all) {
                 int i, l;
 
                 len--;
                 l = len - pos;
-                while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
+                while ((i = gutil_strv_find_last_impl(sv + pos, first, l)) >= 0) {
                     sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
                     l = i;
                 }
             }
+            g_free(first);
         }
     }
     return sv;
-- 
2.43.0


From ad3d5b8102a66b845719b8643901988f92310bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 09/32] fix: Avoid integer overflow in the history average

The sum of two values may not fit an int, and the area may not fit 64
bits if the interval is measured in hours.
---
 src/gutil_history.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..5c2ba5f 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -183,9 +183,10 @@ gutil_int_history_median_at(
     } else {
         int pos = h->first;
         int v = h->entry[pos].value;
+        int min = v, max = v;
         gint64 t = h->entry[pos].time;
         gint64 dt = 0;
-        gint64 area = 0;
+        double area = 0, average;
 
         while (pos != h->last) {
             gint64 t1;
@@ -195,12 +196,16 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((double)v + v1)/2;
+            min = MIN(min, v1);
+            max = MAX(max, v1);
             t = t1;
             v = v1;
         }
         /* Integral area divided by time */
-        return (int)(area/dt);
+        average = area/dt;
+        /* Make sure that rounding doesn't get us out of range */
+        return (average <= min) ? min : (average >= max) ? max : (int)average;
     }
 }
 
-- 
2.43.0


From b951e4ada5579fd6cab43174fcadbd40b732746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 10/32] fix: Refuse signed MBN values which do not fit 64 bits

---
 src/gutil_datapack.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..75752ab 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -166,7 +166,8 @@ gutil_signed_mbn_decode(
                         return TRUE;
                     } else {
                         /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) ==
+                            0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -178,7 +179,7 @@ gutil_signed_mbn_decode(
                     /* Positive number, unused bits (if any) must be zeroed */
                     /* Unused bits must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From 8e13e4d6b73e52d02c80445934606d51adc19739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 11/32] fix: Refuse TLVs with huge length

Length greater than G_MAXSSIZE was treated as negative and accepted.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 75752ab..40ea742 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -412,7 +412,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (guint64) (tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From d79f99cd1c9208d79ef1499830753d06936d6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 12/32] fix: Refuse zero TLV tag

The entry was consumed even though zero (failure) was returned, and
gutil_tlvs_decode could miss the error.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 40ea742..3957360 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -410,7 +410,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag > 0 && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (guint64) (tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From 8230b8ae699f9520de4fb824e06e0ec42a884f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 13/32] fix: Refuse to parse blank strings as numbers

Nothing but spaces was successfully parsed as zero. Vertical tab (skipped by
g_ascii_strtoull but not by g_strstrip) also allowed minus to slip through.
---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..b73a383 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && !*end && (guchar)*stripped > ' ' &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && !*end && (guchar)*stripped > ' ' &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 642ad0265d5ac3a016d3b6d4ec4aa7e0626e94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 14/32] fix: Don't truncate huge blocks in gutil_data_copy

---
 src/gutil_misc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index b73a383..e6690f7 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -410,10 +410,11 @@ gutil_data_from_bytes(
     return data;
 }
 
+static
 GUtilData*
-gutil_data_new(
+gutil_data_alloc(
     const void* bytes,
-    guint len) /* Since 1.0.72 */
+    gsize len)
 {
     /*
      * The whole thing is allocated from a single memory block and
@@ -434,6 +435,14 @@ gutil_data_new(
     return data;
 }
 
+GUtilData*
+gutil_data_new(
+    const void* bytes,
+    guint len) /* Since 1.0.72 */
+{
+    return gutil_data_alloc(bytes, len);
+}
+
 GUtilData*
 gutil_data_copy(
     const GUtilData* data) /* Since 1.0.72 */
@@ -442,7 +451,7 @@ gutil_data_copy(
      * The whole thing is allocated from a single memory block and
      * has to be freed with a single g_free()
      */
-    return data ? gutil_data_new(data->bytes, data->size) : NULL;
+    return data ? gutil_data_alloc(data->bytes, data->size) : NULL;
 }
 
 GVariant*
-- 
2.43.0


From 119f87d1d58dd7350d9967021a18f2aadf72c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 15/32] fix: Remove extra parentheses from the version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From 6b8fe703d69811b658ccff8b88f8d8f5224ffd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 16/32] fix: Honour GLOG_FLAG_DISABLE of the default log module

gutil_log_enabled(NULL, level) did but the messages were still being printed.
---
 src/gutil_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..96fce90 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,7 +437,8 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
-        gutil_logv_r(module, module, level, format, va);
+        gutil_logv_r(module, module ? module : &gutil_log_default,
+            level, format, va);
     }
 }
 
-- 
2.43.0


From 890d7a4c4a7c4e5aec185a53e17a019315fc6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/32] fix: Don't print garbage if the timestamp doesn't fit
 the buffer

Contents of the buffer are undefined if strftime returns zero.
---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 96fce90..0a3937a 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,9 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            t[0] = 0; /* Contents of the buffer are undefined */
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From 0a1ec7482778a913dd7316b9a82b3a3297297ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 18/32] fix: Don't abort if a log message can't be formatted

If g_vsnprintf fails (which is not about the buffer size) it would keep
failing until the doubled size overflows.
---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 0a3937a..3199b83 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -148,7 +148,9 @@ gutil_log_format(
             if (nchars < size) break;
             size = nchars+1;  /* Precisely what is needed */
         } else {
-            size *= 2;        /* Twice the old size */
+            /* Encoding or overflow error, more space isn't going to help */
+            buffer[0] = 0;
+            break;
         }
 
         if (buffer != buf) g_free(buffer);
-- 
2.43.0


From fb7aa1187cc539b07324e2d915299c4cb02a5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 19/32] fix: Handle dumping of more than 4GB

---
 src/gutil_log.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 3199b83..855716f 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -514,14 +514,16 @@ gutil_log_dump2(
     gsize size)
 {
     const guint8* ptr = data;
-    guint off = 0;
+    gsize off = 0;
 
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        const guint consumed = gutil_hexdump(buf, ptr + off,
+            MIN(size, GUTIL_HEXDUMP_MAXBYTES));
 
-        gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
+        gutil_log(module, level, "%s%04" G_GSIZE_MODIFIER "X: %s",
+            prefix, off, buf);
         size -= consumed;
         off += consumed;
     }
-- 
2.43.0


From 7687f3e1d46228a5c6d1acca89b527a99805d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 20/32] fix: Refuse unknown log type without side effects

It was changing the default module name and closing syslog connection.
---
 src/gutil_log.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 855716f..5479fe9 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -693,19 +693,30 @@ gutil_log_set_type(
     const char* type,
     const char* default_name)
 {
+    GLogProc func;
+
+    if (!g_ascii_strcasecmp(type, GLOG_TYPE_STDOUT)) {
+        func = gutil_log_stdout;
+    } else if (!g_ascii_strcasecmp(type, GLOG_TYPE_STDERR)) {
+        func = gutil_log_stderr;
+#if GLOG_SYSLOG
+    } else if (!g_ascii_strcasecmp(type, GLOG_TYPE_SYSLOG)) {
+        func = gutil_log_syslog;
+#endif /* GLOG_SYSLOG */
+#if GLOG_GLIB
+    } else if (!g_ascii_strcasecmp(type, GLOG_TYPE_GLIB)) {
+        func = gutil_log_glib;
+#endif /* GLOG_GLIB */
+    } else {
+        /* Unknown type, leave everything as is */
+        return FALSE;
+    }
 #if GLOG_SYSLOG
-    if (!g_ascii_strcasecmp(type, GLOG_TYPE_SYSLOG)) {
+    if (func == gutil_log_syslog) {
         if (gutil_log_func != gutil_log_syslog) {
             openlog(NULL, LOG_PID | LOG_CONS, LOG_USER);
         }
-        /* NULL default_name means "don't change the default name" */
-        if (default_name) {
-            gutil_log_default.name = default_name;
-        }
-        gutil_log_func = gutil_log_syslog;
-        return TRUE;
-    }
-    if (gutil_log_func == gutil_log_syslog) {
+    } else if (gutil_log_func == gutil_log_syslog) {
         closelog();
     }
 #endif /* GLOG_SYSLOG */
@@ -713,19 +724,8 @@ gutil_log_set_type(
     if (default_name) {
         gutil_log_default.name = default_name;
     }
-    if (!g_ascii_strcasecmp(type, GLOG_TYPE_STDOUT)) {
-        gutil_log_func = gutil_log_stdout;
-        return TRUE;
-    } if (!g_ascii_strcasecmp(type, GLOG_TYPE_STDERR)) {
-        gutil_log_func = gutil_log_stderr;
-        return TRUE;
-#if GLOG_GLIB
-    } else if (!g_ascii_strcasecmp(type, GLOG_TYPE_GLIB)) {
-        gutil_log_func = gutil_log_glib;
-        return TRUE;
-#endif /* GLOG_GLIB */
-    }
-    return FALSE;
+    gutil_log_func = func;
+    return TRUE;
 }
 
 const char*
-- 
2.43.0


From 760a171f2057f7746e1b82b9d52ba49b5a3465d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 21/32] fix: Hide module name if GLOG_FLAG_HIDE_NAME is set

The flag was only taken into account by the default log function.
---
 src/gutil_log.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 5479fe9..90a4064 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -160,6 +160,15 @@ gutil_log_format(
     return buffer;
 }
 
+static
+const char*
+gutil_log_module_name(
+    const GLogModule* module)
+{
+    return (module && !(module->flags & GLOG_FLAG_HIDE_NAME)) ?
+        module->name : NULL;
+}
+
 /* Forward output to stdout or stderr */
 void
 gutil_log_stdio(
@@ -258,7 +267,7 @@ gutil_log_stdout2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_stdout(module ? module->name : NULL, level, format, va);
+    gutil_log_stdout(gutil_log_module_name(module), level, format, va);
 }
 
 void
@@ -268,7 +277,7 @@ gutil_log_stderr2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_stderr(module ? module->name : NULL, level, format, va);
+    gutil_log_stderr(gutil_log_module_name(module), level, format, va);
 }
 
 /* Formards output to syslog */
@@ -349,7 +358,7 @@ gutil_log_syslog2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_syslog(module ? module->name : NULL, level, format, va);
+    gutil_log_syslog(gutil_log_module_name(module), level, format, va);
 }
 #endif /* GLOG_SYSLOG */
 
@@ -381,7 +390,7 @@ gutil_log_glib2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_glib(module ? module->name : NULL, level, format, va);
+    gutil_log_glib(gutil_log_module_name(module), level, format, va);
 }
 #endif /* GLOG_GLIB */
 
@@ -399,8 +408,7 @@ gutil_log_default_proc(
 {
     GLogProc log = gutil_log_func;
     if (G_LIKELY(log)) {
-        log((module->flags & GLOG_FLAG_HIDE_NAME) ? NULL : module->name,
-            level, format, va);
+        log(gutil_log_module_name(module), level, format, va);
     }
 }
 
-- 
2.43.0


From 950e627d0ca8774c8d6db9fa5af37b30d770598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 22/32] fix: Allow to destroy the idle queue from its callbacks

The queue was being accessed after it has been freed if the last reference
was dropped by a callback or by a destroy function.
---
 src/gutil_idlequeue.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..628a514 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -53,6 +53,7 @@ struct gutil_idle_queue_item {
 struct gutil_idle_queue {
     gint ref_count;
     guint source_id;
+    guint busy;
     GUtilIdleQueueItem* first;
     GUtilIdleQueueItem* last;
 };
@@ -69,6 +70,20 @@ gutil_idle_queue_item_destroy(
     gutil_slice_free(item);
 }
 
+static
+void
+gutil_idle_queue_leave(
+    GUtilIdleQueue* q)
+{
+    /*
+     * If the last reference was dropped while we were busy invoking the
+     * callbacks, then freeing the memory was left to us.
+     */
+    if (!--(q->busy) && !g_atomic_int_get(&q->ref_count)) {
+        gutil_slice_free(q);
+    }
+}
+
 static
 gboolean
 gutil_idle_queue_run(
@@ -77,6 +92,9 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean ret;
+
+    q->busy++;
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -115,11 +133,13 @@ gutil_idle_queue_run(
 
     if (q->first) {
         /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
+        ret = G_SOURCE_CONTINUE;
     } else {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
+        ret = G_SOURCE_REMOVE;
     }
+    gutil_idle_queue_leave(q);
+    return ret;
 }
 
 GUtilIdleQueue*
@@ -157,8 +177,11 @@ gutil_idle_queue_unref(
     if (G_LIKELY(q)) {
         GASSERT(q->ref_count > 0);
         if (g_atomic_int_dec_and_test(&q->ref_count)) {
-            gutil_idle_queue_cancel_all(q);
-            gutil_slice_free(q);
+            q->busy++;
+            do {
+                gutil_idle_queue_cancel_all(q);
+            } while (q->first);
+            gutil_idle_queue_leave(q);
         }
     }
 }
@@ -265,12 +288,13 @@ gutil_idle_queue_cancel_tag(
     if (G_LIKELY(q) && q->first) {
         GUtilIdleQueueItem* item = q->first;
         if (item->tag == tag) {
+            q->busy++;
             item->completed = TRUE;
             gutil_idle_queue_cancel_first(q);
-            GASSERT(q->source_id);
             if (!q->first) {
                 gutil_source_clear(&q->source_id);
             }
+            gutil_idle_queue_leave(q);
             return TRUE;
         } else {
             GUtilIdleQueueItem* prev = item;
@@ -299,6 +323,7 @@ gutil_idle_queue_cancel_all(
 {
     if (G_LIKELY(q)) {
         GUtilIdleQueueItem* item;
+        q->busy++;
         for (item = q->first; item; item = item->next) {
             item->completed = TRUE;
         }
@@ -308,6 +333,7 @@ gutil_idle_queue_cancel_all(
         if (!q->first) {
             gutil_source_clear(&q->source_id);
         }
+        gutil_idle_queue_leave(q);
     }
 }
 
-- 
2.43.0


From 479684be5df199c6452a02bb36a20a957a93053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 23/32] fix: Don't remove random sources when draining the idle
 pool

Source id belongs to the context to which the source was attached and that
may be not the default one. The source may also be gone together with the
context.
---
 src/gutil_idlepool.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..94a5133 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* source;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -173,11 +173,12 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
+    if (self->source) {
+        GSource* source = self->source;
 
-        self->idle_id = 0;
-        g_source_remove(id);
+        self->source = NULL;
+        g_source_destroy(source);
+        g_source_unref(source);
     }
 }
 
@@ -188,8 +189,6 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
-
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
      * something is added to a thread specific pool (e.g. the one created
@@ -240,16 +239,20 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
-            GSource* src = g_idle_source_new();
+        if (self->source && g_source_is_destroyed(self->source)) {
+            /* The context is gone and so is the source */
+            g_source_unref(self->source);
+            self->source = NULL;
+        }
+        if (!self->source) {
+            GSource* src = self->source = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
         }
     }
     return pointer;
-- 
2.43.0


From 34c72c557ca652fb7eef35310276b89a6d0f108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 24/32] fix: Allow to release the idle pool while it's being
 drained

The pool could be freed under gutil_idle_pool_drain or twice, if something
was added to it while the last reference was being dropped.
---
 src/gutil_idlepool.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 94a5133..89fc65c 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -137,9 +137,18 @@ gutil_idle_pool_unref(
         GASSERT(self->ref_count > 0);
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
-            if (self->shared) *(self->shared) = NULL;
-            gutil_idle_pool_drain(self);
-            gutil_slice_free(self);
+            if (self->shared) {
+                *(self->shared) = NULL;
+                self->shared = NULL;
+            }
+            if (self->first || self->source) {
+                /* Releasing the items may add (and remove) references */
+                g_atomic_int_inc(&self->ref_count);
+                gutil_idle_pool_drain(self);
+                gutil_idle_pool_unref(self);
+            } else {
+                gutil_slice_free(self);
+            }
         }
     }
 }
@@ -162,6 +171,7 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
+    gutil_idle_pool_ref(self);
     while (self->first) {
         GUtilIdlePoolItem* items = self->first;
         GUtilIdlePoolItem* item = items;
@@ -180,6 +190,7 @@ gutil_idle_pool_drain(
         g_source_destroy(source);
         g_source_unref(source);
     }
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From 0e4824758b5409e422688eb169457f28817ff188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 25/32] fix: Release idle pool items strictly in order

Nested gutil_idle_pool_drain call was releasing newly added items before the
ones which were already being drained, and left the latter alive.
---
 src/gutil_idlepool.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 89fc65c..13c5e53 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -173,15 +173,15 @@ gutil_idle_pool_drain(
     }
     gutil_idle_pool_ref(self);
     while (self->first) {
-        GUtilIdlePoolItem* items = self->first;
-        GUtilIdlePoolItem* item = items;
+        GUtilIdlePoolItem* item = self->first;
 
-        self->first = self->last = NULL;
-        while (item) {
-            item->destroy(item->pointer);
-            item = item->next;
+        /* Note that destroy callback may drain the pool too */
+        self->first = item->next;
+        if (!self->first) {
+            self->last = NULL;
         }
-        g_slice_free_chain(GUtilIdlePoolItem, items, next);
+        item->destroy(item->pointer);
+        gutil_slice_free(item);
     }
     if (self->source) {
         GSource* source = self->source;
-- 
2.43.0


From fe0fe9173eb8c5cbed1405b386c79fbb5691cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 26/32] fix: Don't close inotify descriptor twice

g_io_channel_shutdown() has already closed it. The second close() could
close an unrelated descriptor opened in the meanwhile by another thread.
---
 src/gutil_inotify.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..fe862e5 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -122,7 +122,6 @@ gutil_inotify_unref(
         g_hash_table_destroy(self->watches);
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From 34b6781d9e469fb6eadbf14e858a92d964d72069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 27/32] fix: Deliver inotify events to all watches of the same
 file

The kernel returns the same watch descriptor for the same file. The second
watch was replacing the first one in the table as well as the mask of the
first one, and destroying one of them was stopping the other.
---
 src/gutil_inotify.c | 71 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index fe862e5..11b885f 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -45,6 +45,10 @@
 #define NO_SANITIZE_CFI
 #endif
 
+#ifndef IN_MASK_CREATE
+#  define IN_MASK_CREATE 0
+#endif
+
 #if __GNUC__ >= 4
 #pragma GCC visibility push(default)
 #endif
@@ -64,7 +68,7 @@ typedef GUtilInotifyWatch GUtilInotifyWatch;
 struct gutil_inotify_watch {
     GObject object;
     GUtilInotify* inotify;
-    GUtilInotifyWatch* parent;
+    GUtilInotifyWatch* next; /* The next watch with the same wd */
     guint32 mask;
     char* path;
     int wd;
@@ -129,6 +133,17 @@ gutil_inotify_unref(
     }
 }
 
+static
+gboolean
+gutil_inotify_watch_match(
+    GUtilInotifyWatch* watch,
+    guint32 event)
+{
+    /* IN_IGNORED and IN_UNMOUNT don't have to be requested */
+    return watch->wd >= 0 && (!(event & IN_ALL_EVENTS) ||
+        (event & watch->mask & IN_ALL_EVENTS));
+}
+
 static
 gboolean
 gutil_inotify_read(
@@ -160,12 +175,20 @@ gutil_inotify_read(
             } else  {
                 GUtilInotifyWatch* watch = g_hash_table_lookup(self->watches,
                     GINT_TO_POINTER(event->wd));
+                GSList* list = NULL;
 
-                if (watch) {
-                    gutil_inotify_watch_ref(watch);
-                    g_signal_emit(watch,
-                        gutil_inotify_watch_signals[SIGNAL_WATCH_EVENT], 0,
-                            event->mask, event->cookie, path);
+                /* The list may be modified by the handlers */
+                for (; watch; watch = watch->next) {
+                    list = g_slist_append(list, gutil_inotify_watch_ref(watch));
+                }
+                while (list) {
+                    watch = list->data;
+                    list = g_slist_delete_link(list, list);
+                    if (gutil_inotify_watch_match(watch, event->mask)) {
+                        g_signal_emit(watch,
+                            gutil_inotify_watch_signals[SIGNAL_WATCH_EVENT], 0,
+                                event->mask, event->cookie, path);
+                    }
                     gutil_inotify_watch_unref(watch);
                 }
                 next += len;
@@ -253,18 +276,39 @@ gutil_inotify_add_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    gpointer key = GINT_TO_POINTER(watch->wd);
+
     GASSERT(watch->wd >= 0);
-    g_hash_table_insert(self->watches, GINT_TO_POINTER(watch->wd), watch);
+    watch->next = g_hash_table_lookup(self->watches, key);
+    g_hash_table_insert(self->watches, key, watch);
 }
 
+/* Returns TRUE if no watches are using this wd anymore */
 static
-void
+gboolean
 gutil_inotify_remove_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    gpointer key = GINT_TO_POINTER(watch->wd);
+    GUtilInotifyWatch* first = g_hash_table_lookup(self->watches, key);
+
     GASSERT(watch->wd >= 0);
-    GVERIFY(g_hash_table_remove(self->watches, GINT_TO_POINTER(watch->wd)));
+    GASSERT(first);
+    if (first == watch) {
+        if (!watch->next) {
+            g_hash_table_remove(self->watches, key);
+            return TRUE;
+        }
+        g_hash_table_insert(self->watches, key, watch->next);
+    } else {
+        while (first->next != watch) {
+            first = first->next;
+        }
+        first->next = watch->next;
+    }
+    watch->next = NULL;
+    return FALSE;
 }
 
 /*==========================================================================*
@@ -280,7 +324,9 @@ gutil_inotify_watch_new(
         GUtilInotify* inotify = gutil_inotify_new();
 
         if (G_LIKELY(inotify)) {
-            int wd = inotify_add_watch(inotify->fd, path, mask);
+            /* There may be another watch for the same file already */
+            int wd = inotify_add_watch(inotify->fd, path, (mask &
+                IN_MASK_CREATE) ? mask : (mask | IN_MASK_ADD));
 
             if (wd >= 0) {
                 GUtilInotifyWatch* self = g_object_new(THIS_TYPE, NULL);
@@ -309,8 +355,9 @@ gutil_inotify_watch_stop(
     GUtilInotifyWatch* self)
 {
     if (self->wd >= 0) {
-        gutil_inotify_remove_watch(self->inotify, self);
-        inotify_rm_watch(self->inotify->fd, self->wd);
+        if (gutil_inotify_remove_watch(self->inotify, self)) {
+            inotify_rm_watch(self->inotify->fd, self->wd);
+        }
         self->wd = -1;
     }
 }
-- 
2.43.0


From 5366654d17dbdb1fb2c6416294859dd95e8f5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:07 +0000
Subject: [PATCH 28/32] fix: Don't run idle queue callbacks which are being
 cancelled

---
 src/gutil_idlequeue.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index 628a514..24da5f6 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -322,16 +322,21 @@ gutil_idle_queue_cancel_all(
     GUtilIdleQueue* q)
 {
     if (G_LIKELY(q)) {
-        GUtilIdleQueueItem* item;
+        GUtilIdleQueueItem* item = q->first;
+
+        /*
+         * The items which are being cancelled must not be found in the
+         * queue because the destroy functions may run the main loop.
+         */
         q->busy++;
-        for (item = q->first; item; item = item->next) {
+        q->first = q->last = NULL;
+        gutil_source_clear(&q->source_id);
+        while (item) {
+            GUtilIdleQueueItem* next = item->next;
+
             item->completed = TRUE;
-        }
-        while (q->first && q->first->completed) {
-            gutil_idle_queue_cancel_first(q);
-        }
-        if (!q->first) {
-            gutil_source_clear(&q->source_id);
+            gutil_idle_queue_item_destroy(item);
+            item = next;
         }
         gutil_idle_queue_leave(q);
     }
-- 
2.43.0


From 296c9bdf2667955e5d3ffcf4e59faabaccb967f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:01 +0000
Subject: [PATCH 29/32] fix: Avoid integer overflow in the history if the clock
 is negative

---
 src/gutil_history.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5c2ba5f..fc3e6fc 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -115,7 +115,9 @@ gutil_int_history_flush(
     GUtilIntHistory* h,
     const gint64 now)
 {
-    const gint64 cutoff = now - h->max_interval;
+    /* Avoid integer overflow if the clock is negative */
+    const gint64 cutoff = (now < G_MININT64 + h->max_interval) ? G_MININT64 :
+        (now - h->max_interval);
 
     if (h->entry[h->last].time >= cutoff) {
         /* At least the last entry is valid */
-- 
2.43.0


From 68fb1991212cf0db635a12ad4ff44c4110f4c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 30/32] fix: Allow to modify the ring while its elements are
 being dropped

---
 src/gutil_ring.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 2127ea3..f948e95 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -140,10 +140,10 @@ gutil_ring_set_max_size(
     if (G_LIKELY(r) && r->maxsiz != max_size) {
         const gint size = gutil_ring_size(r);
 
+        r->maxsiz = max_size;
         if (max_size >= 0 && size > max_size) {
             gutil_ring_drop(r, size - max_size);
         }
-        r->maxsiz = max_size;
     }
 }
 
@@ -362,14 +362,16 @@ gutil_ring_drop(
             dropped = size;
             gutil_ring_clear(r);
         } else {
-            dropped = n;
-            if (r->free_func) {
-                while ((n--) > 0) {
-                    r->free_func(r->data[r->start]);
-                    r->start = (r->start + 1) % r->alloc;
-                    GASSERT(r->start != r->end);
+            GDestroyNotify free_func = r->free_func;
+
+            if (free_func) {
+                /* Note that the free function may modify the ring */
+                while (dropped < n && gutil_ring_size(r) > 0) {
+                    dropped++;
+                    free_func(gutil_ring_get(r));
                 }
             } else {
+                dropped = n;
                 r->start = (r->start + n) % r->alloc;
                 GASSERT(r->start != r->end);
             }
@@ -390,14 +392,16 @@ gutil_ring_drop_last(
             dropped = size;
             gutil_ring_clear(r);
         } else {
-            dropped = n;
-            if (r->free_func) {
-                while ((n--) > 0) {
-                    r->end = (r->end + r->alloc - 1) % r->alloc;
-                    r->free_func(r->data[r->end]);
-                    GASSERT(r->start != r->end);
+            GDestroyNotify free_func = r->free_func;
+
+            if (free_func) {
+                /* Note that the free function may modify the ring */
+                while (dropped < n && gutil_ring_size(r) > 0) {
+                    dropped++;
+                    free_func(gutil_ring_get_last(r));
                 }
             } else {
+                dropped = n;
                 r->end = (r->end + r->alloc - n) % r->alloc;
                 GASSERT(r->start != r->end);
             }
-- 
2.43.0


From d504890758752f7d21ee1d2b746aef83184e770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 31/32] fix: Clear source and handler ids before removing those

---
 src/gutil_misc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index e6690f7..50aeb8a 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -52,9 +52,12 @@ gutil_disconnect_handlers(
         int i;
 
         for (i=0; i<count; i++) {
-            if (ids[i]) {
-                g_signal_handler_disconnect(instance, ids[i]);
+            const gulong id = ids[i];
+
+            if (id) {
+                /* Clear it first, in case if we get here again from there */
                 ids[i] = 0;
+                g_signal_handler_disconnect(instance, id);
             }
         }
     }
@@ -99,8 +102,11 @@ gutil_source_clear(
 {
     /* Yet another zero-tolerant version of g_source_remove */
     if (id && *id) {
-        g_source_remove(*id);
+        const guint source_id = *id;
+
+        /* Clear it first, in case if we get here again from there */
         *id = 0;
+        g_source_remove(source_id);
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From 832cbfb7fbec88a812323af5e6d5ed1c22c8b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 32/32] fix: Allow to append an object vector to itself

---
 src/gutil_objv.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gutil_objv.c b/src/gutil_objv.c
index b226da6..a61670a 100644
--- a/src/gutil_objv.c
+++ b/src/gutil_objv.c
@@ -152,14 +152,18 @@ gutil_objv_append(
 
     if (len2 > 0) {
         const gsize len1 = gutil_ptrv_length(objv);
-        GObject* const* src;
+        const gboolean self = (objs == objv);
         GObject** dest;
+        gsize i;
 
         objv = g_renew(GObject*, objv, len1 + len2 + 1);
         dest = objv + len1;
-        src = objs;
-        while (*src) {
-            *dest++ = g_object_ref(*src++);
+        if (self) {
+            /* The vector is being appended to itself */
+            objs = objv;
+        }
+        for (i = 0; i < len2; i++) {
+            *dest++ = g_object_ref(objs[i]);
         }
         *dest = NULL;
     }
-- 
2.43.0

