From 017c977318861e4fb2ce305a39659a00eed4166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 01/50] fix: incr/decr must not take blanks or bytes beyond the
 value for a number

---
 engines/default/coll_btree.c |  6 +++++-
 engines/default/items.c      |  5 ++++-
 util.c                       | 14 +++++++-------
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 61b5890..5325258 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <time.h>
 #include <assert.h>
 #include <sched.h>
@@ -2637,7 +2638,10 @@ static ENGINE_ERROR_CODE do_btree_elem_arithmetic(btree_meta_info *info,
         *result = initial;
     } else {
         real_nbkey = BTREE_REAL_NBKEY(elem->nbkey);
-        if (! safe_strtoull((const char*)elem->data + real_nbkey + elem->neflag, &value) || elem->nbytes == 2) {
+        const char *ptr = (const char*)elem->data + real_nbkey + elem->neflag;
+        /* Do not let the number conversion skip blanks beyond the end of the value. */
+        for (nlen = 0; nlen < elem->nbytes && isspace((unsigned char)ptr[nlen]); nlen++);
+        if (nlen == elem->nbytes || ! safe_strtoull(ptr + nlen, &value)) {
             return ENGINE_EINVAL;
         }
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 0ecb68b..9c155d3 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -22,6 +22,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <time.h>
 #include <assert.h>
 #include <sched.h>
@@ -242,7 +243,9 @@ static ENGINE_ERROR_CODE do_add_delta(hash_item *it, const bool incr, const int6
     int res;
 
     ptr = item_get_data(it);
-    if (!safe_strtoull(ptr, &value)) {
+    /* Do not let the number conversion skip blanks beyond the end of the value. */
+    for (res = 0; res < it->nbytes && isspace((unsigned char)ptr[res]); res++);
+    if (res == it->nbytes || !safe_strtoull(ptr + res, &value)) {
         return ENGINE_EINVAL;
     }
 
diff --git a/util.c b/util.c
index a93bde8..a0ba5f8 100644
--- a/util.c
+++ b/util.c
@@ -35,12 +35,12 @@ bool safe_strtoull(const char *str, uint64_t *out) {
     unsigned long long ull = strtoull(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         if ((long long) ull < 0) {
             /* only check for negative signs in the uncommon case when
              * the unsigned number is so big that it's negative as a
              * signed number. */
-            if (strchr(str, '-') != NULL) {
+            if (memchr(str, '-', endptr - str) != NULL) {
                 return false;
             }
         }
@@ -58,7 +58,7 @@ bool safe_strtoll(const char *str, int64_t *out) {
     long long ll = strtoll(str, &endptr, 10);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = ll;
         return true;
     }
@@ -78,12 +78,12 @@ bool safe_strtoul(const char *str, uint32_t *out) {
         return false;
     }
 
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         if ((long) l < 0) {
             /* only check for negative signs in the uncommon case when
              * the unsigned number is so big that it's negative as a
              * signed number. */
-            if (strchr(str, '-') != NULL) {
+            if (memchr(str, '-', endptr - str) != NULL) {
                 return false;
             }
         }
@@ -102,7 +102,7 @@ bool safe_strtol(const char *str, int32_t *out) {
     long l = strtol(str, &endptr, 10);
     if (errno == ERANGE || l < INT32_MIN || l > INT32_MAX)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
@@ -117,7 +117,7 @@ bool safe_strtof(const char *str, float *out) {
     float l = strtof(str, &endptr);
     if (errno == ERANGE)
         return false;
-    if (isspace(*endptr) || (*endptr == '\0' && endptr != str)) {
+    if (endptr != str && (isspace(*endptr) || *endptr == '\0')) {
         *out = l;
         return true;
     }
-- 
2.43.0


From 103bc09c6494ff2b46bafd4db2ee0ead328ced11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/50] fix: release the item when incr/decr is refused on a
 collection

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 9c155d3..dc8f2d4 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -373,8 +373,8 @@ ENGINE_ERROR_CODE item_arithmetic(const void *key, const uint32_t nkey,
             ret = ENGINE_EBADTYPE;
         } else {
             ret = do_add_delta(it, increment, delta, cas, result, cookie);
-            do_item_release(it);
         }
+        do_item_release(it);
     } else {
         if (create) {
             char buffer[128];
-- 
2.43.0


From 893c9a1f49eded2ddcf3b6cd07c401f6b7749ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 03/50] fix: bop gbp with a position above INT_MAX must not
 abort the server

---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index a2cbf79..625b2ee 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12129,6 +12129,9 @@ static inline int get_position_range_from_str(const char *str, uint32_t *from_po
             return -1;
         *to_posi = *from_posi;
     }
+    /* The engine takes positions as int. No b+tree reaches such positions. */
+    if (*from_posi > INT_MAX) *from_posi = INT_MAX;
+    if (*to_posi > INT_MAX) *to_posi = INT_MAX;
     return 0;
 }
 
-- 
2.43.0


From 23f158464926094cf0fb5f8a062ab9aab2b90441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 04/50] fix: mop delete must swallow its field line when
 refused with noreply or pipe

---
 memcached.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 625b2ee..66e4c21 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12501,8 +12501,13 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
                 numfields > settings.max_map_size ||
                 numfields > ((lenfields/2) + 1)) {
                 out_string(c, "CLIENT_ERROR bad value");
+                /* swallow the data line */
                 c->sbytes = lenfields + 2;
-                c->write_and_go = conn_swallow;
+                if (c->state == conn_write) {
+                    c->write_and_go = conn_swallow;
+                } else { /* conn_new_cmd (by noreply) */
+                    conn_set_state(c, conn_swallow);
+                }
                 return;
             }
         }
@@ -12535,7 +12540,7 @@ static void process_mop_command(conn *c, token_t *tokens, const size_t ntokens)
             }
         } else { /* pipe error */
             if (lenfields > 0) {
-                c->sbytes = lenfields;
+                c->sbytes = lenfields + 2;
                 conn_set_state(c, conn_swallow);
             } else {
                 conn_set_state(c, conn_new_cmd);
-- 
2.43.0


From fe73b6ca7e9a357966d788e2bbcd901536606d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 05/50] fix: mop get with repeated fields must not overrun the
 element array

---
 engines/default/coll_map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 91ab5eb..3a9fb55 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -887,7 +887,8 @@ ENGINE_ERROR_CODE map_elem_get(const char *key, const uint32_t nkey,
             if (info->ccnt <= 0) {
                 ret = ENGINE_ELEM_ENOENT; break;
             }
-            if (numfields == 0 || info->ccnt < numfields) {
+            /* A field may be given more than once and is then returned each time. */
+            if (numfields == 0) {
                 eresult->elem_array = (eitem **)malloc(info->ccnt * sizeof(eitem*));
             } else {
                 eresult->elem_array = (eitem **)malloc(numfields * sizeof(eitem*));
-- 
2.43.0


From 3729b4f57266b68a316457728dc04e71d359b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 06/50] fix: getattr and setattr must not overrun the attribute
 array

---
 memcached.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/memcached.c b/memcached.c
index 66e4c21..6b58920 100644
--- a/memcached.c
+++ b/memcached.c
@@ -13312,6 +13312,12 @@ static void process_getattr_command(conn *c, token_t *tokens, const size_t ntoke
     uint32_t attr_count = 0;
     int i;
 
+    if (ntokens - 3 > ATTR_END) { /* too many attributes */
+        print_invalid_command(c, tokens, ntokens);
+        out_string(c, "CLIENT_ERROR bad command line format");
+        return;
+    }
+
     if (ntokens > 3) {
         for (i = KEY_TOKEN+1; i < ntokens-1; i++) {
             char *name = tokens[i].value;
@@ -13411,6 +13417,12 @@ static void process_setattr_command(conn *c, token_t *tokens, const size_t ntoke
     int i;
     char *name, *value, *equal;
 
+    if (ntokens - 3 > ATTR_END) { /* too many attributes */
+        print_invalid_command(c, tokens, ntokens);
+        out_string(c, "CLIENT_ERROR bad command line format");
+        return;
+    }
+
     for (i = KEY_TOKEN+1; i < ntokens-1; i++) {
         if ((equal = strchr(tokens[i].value, '=')) == NULL) {
             print_invalid_command(c, tokens, ntokens);
-- 
2.43.0


From 4b72b3be3ebf16cf4269ad63257a7822a1d45784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 07/50] fix: reject too many eflag compare values before
 storing them

---
 memcached.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index 6b58920..53271b7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -12205,10 +12205,11 @@ static inline int get_efilter_from_tokens(token_t *tokens, const int ntokens, ef
             efilter->compvcnt = 0;
             ptr = strtok_r(tokens[token_count+1].value, ",", &saveptr);
             while (ptr != NULL) {
-                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
-                if (++efilter->compvcnt > MAX_EFLAG_COMPARE_COUNT) {
+                if (efilter->compvcnt >= MAX_EFLAG_COMPARE_COUNT) {
                     return -1;
                 }
+                length = get_eflag_from_str(ptr, &efilter->compval[efilter->compvcnt*efilter->ncompval]);
+                efilter->compvcnt++;
                 if (efilter->compvcnt == 1) {
                     if (length < 0 || (offset+length) > MAX_EFLAG_LENG)
                         return -1;
-- 
2.43.0


From d3b1e149e2f3c7276c925fd4ab6bfabb781a3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 08/50] fix: getattr minbkey and maxbkey must be refused on
 items other than b+trees

---
 engines/default/coll_list.c | 3 ++-
 engines/default/coll_map.c  | 3 ++-
 engines/default/coll_set.c  | 3 ++-
 engines/default/items.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/engines/default/coll_list.c b/engines/default/coll_list.c
index 96227df..dbee504 100644
--- a/engines/default/coll_list.c
+++ b/engines/default/coll_list.c
@@ -616,7 +616,8 @@ ENGINE_ERROR_CODE list_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY      || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/coll_map.c b/engines/default/coll_map.c
index 3a9fb55..03ab8b6 100644
--- a/engines/default/coll_map.c
+++ b/engines/default/coll_map.c
@@ -1011,7 +1011,8 @@ ENGINE_ERROR_CODE map_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY      || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/coll_set.c b/engines/default/coll_set.c
index bf4e732..97429cb 100644
--- a/engines/default/coll_set.c
+++ b/engines/default/coll_set.c
@@ -1035,7 +1035,8 @@ ENGINE_ERROR_CODE set_coll_getattr(hash_item *it, item_attr *attrp,
 
     /* check attribute validation */
     for (int i = 0; i < attr_cnt; i++) {
-        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+        if (attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+            attr_ids[i] == ATTR_MINBKEY      || attr_ids[i] == ATTR_MAXBKEY) {
             return ENGINE_EBADATTR;
         }
     }
diff --git a/engines/default/items.c b/engines/default/items.c
index dc8f2d4..2890ab3 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -767,7 +767,8 @@ do_item_getattr(hash_item *it, ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_c
         for (int i = 0; i < attr_count; i++) {
             if (attr_ids[i] == ATTR_COUNT      || attr_ids[i] == ATTR_MAXCOUNT ||
                 attr_ids[i] == ATTR_OVFLACTION || attr_ids[i] == ATTR_READABLE ||
-                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED) {
+                attr_ids[i] == ATTR_MAXBKEYRANGE || attr_ids[i] == ATTR_TRIMMED ||
+                attr_ids[i] == ATTR_MINBKEY      || attr_ids[i] == ATTR_MAXBKEY) {
                 return ENGINE_EBADATTR;
             }
         }
-- 
2.43.0


From 11a2e8c3fbcddae60a9302658d6c13f69f0ea5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 09/50] fix: a new flush must not revive the items an earlier
 flush has hidden

---
 engines/default/default_engine.h |  1 +
 engines/default/item_base.c      |  3 +++
 engines/default/items.c          | 10 ++++++++++
 engines/default/prefix.c         |  2 ++
 engines/default/prefix.h         |  1 +
 5 files changed, 17 insertions(+)

diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 48c4be3..548641a 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -50,6 +50,7 @@ struct default_engine;
 struct engine_config {
    size_t     verbose;
    rel_time_t oldest_live;
+   rel_time_t flushed_time; /* oldest_live of the last flush that took effect */
    bool       use_cas;
    bool       evict_to_free;
    char       prefix_delimiter;
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 550bd02..0206468 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -569,6 +569,9 @@ bool do_item_isvalid(hash_item *it, rel_time_t current_time)
         config->oldest_live <= current_time && it->time <= config->oldest_live) {
         return false; /* flushed by flush_all */
     }
+    if (config->flushed_time != 0 && it->time <= config->flushed_time) {
+        return false; /* flushed by an earlier flush_all */
+    }
     /* check if its prefix is invalid */
     if (prefix_isvalid(it, current_time) == false) {
         return false;
diff --git a/engines/default/items.c b/engines/default/items.c
index 2890ab3..ee157f9 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -453,6 +453,11 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
             return ENGINE_PREFIX_ENOENT;
         }
 
+        /* A new flush must not revive the items flushed by the previous one. */
+        if (pt->oldest_live > pt->flushed_time &&
+            pt->oldest_live <= svcore->get_current_time()) {
+            pt->flushed_time = pt->oldest_live;
+        }
         if (when == 0) {
             pt->oldest_live = svcore->get_current_time() - 1;
         } else {
@@ -480,6 +485,11 @@ static ENGINE_ERROR_CODE do_item_flush_expired(const char *prefix, const int npr
             fplog_count += 1;
         }
     } else { /* flush all */
+        /* A new flush must not revive the items flushed by the previous one. */
+        if (config->oldest_live > config->flushed_time &&
+            config->oldest_live <= svcore->get_current_time()) {
+            config->flushed_time = config->oldest_live;
+        }
         if (when == 0) {
             config->oldest_live = svcore->get_current_time() - 1;
         } else {
diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index 7cdb66d..dbc5390 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -507,6 +507,8 @@ bool prefix_isvalid(hash_item *it, rel_time_t current_time)
             pt->oldest_live <= current_time &&
             it->time <= pt->oldest_live)
             return false;
+        if (pt->flushed_time != 0 && it->time <= pt->flushed_time)
+            return false;
         /* traverse parent prefixes to validate them */
         pt = pt->parent_prefix;
     } while(pt != NULL && pt != null_pt);
diff --git a/engines/default/prefix.h b/engines/default/prefix.h
index b346e9f..6519669 100644
--- a/engines/default/prefix.h
+++ b/engines/default/prefix.h
@@ -33,6 +33,7 @@ typedef struct _prefix_t {
 #endif
 
     rel_time_t oldest_live;
+    rel_time_t flushed_time; /* oldest_live of the last flush that took effect */
     time_t     create_time;
 
     struct _prefix_t *h_next;  /* prefix hash chain */
-- 
2.43.0


From 3d2ea2c3d1743515e82cb1d096b4efae1af3883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 10/50] fix: replacing a sticky item by an ordinary one, or the
 reverse, must keep the sticky accounting

---
 engines/default/item_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 0206468..22cc444 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -243,8 +243,13 @@ static inline void do_item_stat_replace(hash_item *old_it, hash_item *new_it)
     }
     /* update item stats imformation */
 #ifdef ENABLE_STICKY_ITEM
+    if (IS_STICKY_EXPTIME(old_it->exptime)) {
+        statsp->sticky_bytes -= old_stotal;
+        statsp->sticky_items -= 1;
+    }
     if (IS_STICKY_EXPTIME(new_it->exptime)) {
-        statsp->sticky_bytes += new_stotal - old_stotal;
+        statsp->sticky_bytes += new_stotal;
+        statsp->sticky_items += 1;
     }
 #endif
     statsp->curr_bytes += new_stotal - old_stotal;
-- 
2.43.0


From 5297553ec5dbb7bc97f20114cbcdd0ed54515531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 11/50] fix: the smget limit check must not be passed by an
 offset and count that wrap around

---
 memcached.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memcached.c b/memcached.c
index 53271b7..7f45dd2 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6199,7 +6199,7 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int kmis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                ((uint64_t)req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
                 ret = ENGINE_EBADVALUE; break;
             }
             smget_count = req->message.body.req_offset + req->message.body.req_count;
@@ -6218,7 +6218,7 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             int emis_rshdr_size; /* the size of result header about the missed keys */
 
             if (req->message.body.key_count > MAX_SMGET_KEY_COUNT ||
-                (req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
+                ((uint64_t)req->message.body.req_offset + req->message.body.req_count) > MAX_SMGET_REQ_COUNT) {
                 ret = ENGINE_EBADVALUE; break;
             }
             elem_array_size = (req->message.body.req_count + req->message.body.key_count) * sizeof(eitem*);
@@ -13098,7 +13098,7 @@ static void process_bop_command(conn *c, token_t *tokens, const size_t ntokens)
 #endif
 #ifdef SUPPORT_BOP_SMGET
         if (subcommid == OPERATION_BOP_SMGET) {
-            if (numkeys > MAX_SMGET_KEY_COUNT || (offset+count) > MAX_SMGET_REQ_COUNT) {
+            if (numkeys > MAX_SMGET_KEY_COUNT || ((uint64_t)offset+count) > MAX_SMGET_REQ_COUNT) {
                 /* ENGINE_EBADVALUE */
                 out_string(c, "CLIENT_ERROR bad value");
                 c->sbytes = lenkeys;
-- 
2.43.0


From 0a5be72b5a7affe67e3462c050378fb2ff825501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 12/50] fix: swallowing more than 2GB must not run backwards
 through the read buffer

---
 memcached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.h b/memcached.h
index 4c8aee3..9da65d0 100644
--- a/memcached.h
+++ b/memcached.h
@@ -358,7 +358,7 @@ struct conn {
 
 
     /* data for the swallow state */
-    int    sbytes;    /* how many bytes to swallow */
+    uint32_t    sbytes;    /* how many bytes to swallow */
 
     /* data for the mwrite state */
     struct iovec *iov;
-- 
2.43.0


From b5adaba6c40fc6bf91391fd7abed0b5365d22843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 13/50] fix: a malformed command after a pipe error must be
 swallowed with the rest of the pipeline

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index 7f45dd2..79b76ad 100644
--- a/memcached.c
+++ b/memcached.c
@@ -1463,6 +1463,11 @@ static int pipe_response_save(conn *c, const char *str, size_t len)
             c->pipe_state = PIPE_STATE_ERR_MFULL; /* pipe memory overflow */
             return -1;
         }
+    } else if (c->noreply) {
+        /* One of the remaining pipelined commands was found malformed
+         * before it could be swallowed. Swallow it: the pipe error stays
+         * until the last pipelined command comes.
+         */
     } else {
         /* A new command was processed before the pipe error was reset. This
          * means that the previous pipelined commands were not properly swallowed.
-- 
2.43.0


From 8625ffbc6c99e5e1c41172185580299a63f1a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 14/50] fix: do not log attributes that the item does not have

setattr ignores the collection attributes of an item that has none (and
maxbkeyrange of one that is no b+tree), but the command log record was built
from them all the same: reading the collection meta of a key-value item, or
the maxbkeyrange of a list, set or map, ran past the item.  The server crashed,
or logged garbage that broke the next recovery.
---
 engines/default/cmdlogmgr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 5a9f49b..0fc428c 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -557,13 +557,16 @@ void cmdlog_generate_setattr(hash_item *it,
             if (attr_type < UPD_SETATTR_EXPTIME)
                 attr_type = UPD_SETATTR_EXPTIME;
         }
+        else if (!IS_COLL_ITEM(it)) {
+            continue; /* the attributes below exist in collections only */
+        }
         else if (attr_ids[i] == ATTR_MAXCOUNT ||
                  attr_ids[i] == ATTR_OVFLACTION ||
                  attr_ids[i] == ATTR_READABLE) {
             if (attr_type < UPD_SETATTR_EXPTIME_INFO)
                 attr_type = UPD_SETATTR_EXPTIME_INFO;
         }
-        else if (attr_ids[i] == ATTR_MAXBKEYRANGE) {
+        else if (attr_ids[i] == ATTR_MAXBKEYRANGE && IS_BTREE_ITEM(it)) {
             if (attr_type < UPD_SETATTR_EXPTIME_INFO_BKEY)
                 attr_type = UPD_SETATTR_EXPTIME_INFO_BKEY;
         }
-- 
2.43.0


From 61c21a9767dfc67d9a378efa05baa9534a861664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 15/50] fix: redo the records of items that have expired since

Recovery skipped the link record of an item that has expired by the time of
the restart.  An older item with the same key stayed in its place and came
back to life, and an item whose expiration time had been prolonged by a later
setattr was lost.  Redo all records as if nothing had expired meanwhile; what
has expired is invisible from the end of the recovery on.
---
 engines/default/cmdlogmgr.c |  2 ++
 engines/default/cmdlogrec.c | 30 +++++++++++++++---------------
 engines/default/item_base.c | 16 +++++++++++++++-
 engines/default/item_base.h |  5 +++++
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 0fc428c..1f19c1c 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -97,7 +97,9 @@ static ENGINE_ERROR_CODE cmdlog_mgr_recovery(void)
         return ENGINE_FAILED;
     }
     /* do recovery. */
+    item_redo_set_enable(true);
     ret = chkpt_recovery_redo();
+    item_redo_set_enable(false);
     if (ret < 0) {
         return ENGINE_FAILED;
     }
diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 94f8a65..7b6cce3 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -260,6 +260,17 @@ static inline void do_construct_item_attr(char *ptr, item_attr *attr)
     attr->trimmed    = 0;
 }
 
+/* An item that has expired doesn't prevent another one with its key */
+static inline hash_item *do_remove_expired_item(hash_item *it)
+{
+    if (it && EXPIRED_REL_EXPTIME(it->exptime)) {
+        (void)item_apply_unlink(engine, item_get_key(it), it->nkey);
+        item_release(it);
+        return NULL;
+    }
+    return it;
+}
+
 static inline void do_construct_lrec_attr(hash_item *it, lrec_attr_info *attr)
 {
     coll_meta_info *info = (coll_meta_info*)item_get_meta(it);
@@ -306,9 +317,6 @@ static ENGINE_ERROR_CODE lrec_it_link_redo(LogRec *logrec)
     char *keyptr = body->data;
 
     cm.exptime = CONVERT_REL_EXPTIME(cm.exptime);
-    if (EXPIRED_REL_EXPTIME(cm.exptime)) {
-        return ENGINE_SUCCESS;
-    }
 
     if (cm.ittype == ITEM_TYPE_KV) {
         ret = item_apply_kv_link(engine, keyptr, cm.keylen, cm.flags, cm.exptime,
@@ -587,6 +595,7 @@ static ENGINE_ERROR_CODE lrec_list_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
+        it = do_remove_expired_item(it);
         if (it) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
                                                      "already exist.\n");
@@ -597,9 +606,6 @@ static ENGINE_ERROR_CODE lrec_list_elem_insert_redo(LogRec *logrec)
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(keyptr + body->keylen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = list_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_list_elem_insert_redo failed. "
@@ -721,6 +727,7 @@ static ENGINE_ERROR_CODE lrec_set_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
+        it = do_remove_expired_item(it);
         if (it) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
                                                      "already exist.\n");
@@ -731,9 +738,6 @@ static ENGINE_ERROR_CODE lrec_set_elem_insert_redo(LogRec *logrec)
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(valptr + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = set_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_set_elem_insert_redo failed. "
@@ -857,6 +861,7 @@ static ENGINE_ERROR_CODE lrec_map_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
+        it = do_remove_expired_item(it);
         if (it) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
                                                      "already exist.\n");
@@ -867,9 +872,6 @@ static ENGINE_ERROR_CODE lrec_map_elem_insert_redo(LogRec *logrec)
         /* create collection item */
         item_attr attr;
         do_construct_item_attr(datptr + body->fldlen + body->vallen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         ret = map_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_map_elem_insert_redo failed. "
@@ -995,6 +997,7 @@ static ENGINE_ERROR_CODE lrec_bt_elem_insert_redo(LogRec *logrec)
 
     hash_item *it = item_get(keyptr, body->keylen);
     if (body->create) {
+        it = do_remove_expired_item(it);
         if (it) {
             logger->log(EXTENSION_LOG_WARNING, NULL, "lrec_bt_elem_insert_redo failed. "
                                                      "already exist.\n");
@@ -1006,9 +1009,6 @@ static ENGINE_ERROR_CODE lrec_bt_elem_insert_redo(LogRec *logrec)
         item_attr attr;
         int datlen = BTREE_REAL_NBKEY(log->body.nbkey) + log->body.neflag + log->body.vallen;
         do_construct_item_attr(datptr + datlen, &attr);
-        if (EXPIRED_REL_EXPTIME(attr.exptime)) {
-            return ENGINE_SUCCESS;
-        }
         attr.maxbkeyrange.len = BKEY_NULL;
         ret = btree_apply_item_link(engine, keyptr, body->keylen, &attr);
         if (ret != ENGINE_SUCCESS) {
diff --git a/engines/default/item_base.c b/engines/default/item_base.c
index 22cc444..0e59056 100644
--- a/engines/default/item_base.c
+++ b/engines/default/item_base.c
@@ -43,6 +43,8 @@ static SERVER_STAT_API      *svstat=NULL; // server stat api
 static SERVER_CORE_API      *svcore=NULL; // server core api
 static EXTENSION_LOGGER_DESCRIPTOR *logger;
 
+static bool item_redo_enabled = false;
+
 /* We only reposition items in the LRU queue if they haven't been repositioned
  * in this many seconds. That saves us from churning on frequently-accessed
  * items.
@@ -566,7 +568,11 @@ bool do_item_isvalid(hash_item *it, rel_time_t current_time)
      * larger than any current_time.  So, it never be expired.
      **/
 #endif
-    if (it->exptime != 0 && it->exptime <= current_time) {
+    /* The item that a change log record refers to had not expired when the
+     * record was made.  If it has expired since, the record must be redone
+     * all the same: a later record may change the expiration time.
+     */
+    if (it->exptime != 0 && it->exptime <= current_time && !item_redo_enabled) {
         return false; /* expired */
     }
     /* check if it's flushed */
@@ -1410,6 +1416,14 @@ bool item_is_valid(hash_item* item)
     }
 }
 
+/*
+ * Set while change log records are being redone
+ */
+void item_redo_set_enable(bool enable)
+{
+    item_redo_enabled = enable;
+}
+
 /*
  * Initialize change log module
  */
diff --git a/engines/default/item_base.h b/engines/default/item_base.h
index 2ca8fad..29d0747 100644
--- a/engines/default/item_base.h
+++ b/engines/default/item_base.h
@@ -408,6 +408,11 @@ uint32_t item_ntotal(hash_item *item);
  */
 bool item_is_valid(hash_item* item);
 
+/*
+ * Set while change log records are being redone
+ */
+void item_redo_set_enable(bool enable);
+
 /* Item Apply Macros */
 //#define ITEM_APPLY_LOG_LEVEL EXTENSION_LOG_INFO
 #define ITEM_APPLY_LOG_LEVEL EXTENSION_LOG_DEBUG
-- 
2.43.0


From d695ac828d119d2cf9e3342b77057504be5fd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 16/50] fix: cut off the incomplete last record of the command
 log

The first record written after a recovery overwrote the beginning of the
record that the crash had left incomplete, and the rest of that record stayed
behind it.  The next recovery took it for log records.
---
 engines/default/cmdlogfile.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 34f5245..169adeb 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -549,6 +549,17 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0 && seek_offset < logfile->size) {
+        /* Remove the log record that was not completely written.
+         * The rest of it must not follow the log records written from now on.
+         */
+        if (ftruncate(logfile->fd, seek_offset) < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : ftruncate(%d). path=%s, error=%s.\n",
+                        seek_offset, logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret < 0) {
         close(logfile->fd);
     } else {
-- 
2.43.0


From 59d48915773fe502aaafca6e757ebee0101d015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 17/50] fix: drop the operation that the command log does not
 complete

After a crash between the log records of one operation its begin record stayed
in the command log without its end.  All records written after the recovery
became part of that operation and were lost by the next recovery, or the next
operation of this kind made the recovery fail.
---
 engines/default/cmdlogfile.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 169adeb..7043fbf 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -549,6 +549,18 @@ int cmdlog_file_apply(void)
             }
         }
     }
+    if (ret == 0 && pending) {
+        /* The log records of the last operation were not completely written.
+         * Remove them all: its LOG_OPERATION_END is not going to be written.
+         */
+        seek_offset = disk_lseek(logfile->fd, pending_start_offset - sizeof(LogHdr), SEEK_SET);
+        if (seek_offset < 0) {
+            logger->log(EXTENSION_LOG_WARNING, NULL,
+                        "[RECOVERY - CMDLOG] failed : lseek(SEEK_SET). path=%s, error=%s.\n",
+                        logfile->path, strerror(errno));
+            ret = -1;
+        }
+    }
     if (ret == 0 && seek_offset < logfile->size) {
         /* Remove the log record that was not completely written.
          * The rest of it must not follow the log records written from now on.
-- 
2.43.0


From 314b246590d8c1cf0b14e88fe94fd33400da6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 18/50] fix: the item of a snapshot element must not overwrite
 the element

lrec_set_item_in_snapshot_elem() stored the item pointer in the log record,
where a record read from the snapshot file has bytes 10-17 of the element.
---
 engines/default/cmdlogrec.c | 25 ++++++++++++++++---------
 engines/default/cmdlogrec.h |  1 -
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 7b6cce3..25e9de0 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1282,6 +1282,12 @@ static void lrec_operation_end_print(LogRec *logrec)
 }
 
 /* Snapshot Element Log Record */
+/* The collection item that the snapshot elements being redone belong to.
+ * It cannot be kept in the log record: a record read from the snapshot file
+ * has its element data where SnapshotElemLog has its pointers.
+ */
+static hash_item *snapshot_elem_it = NULL;
+
 static void lrec_snapshot_elem_link_write(LogRec *logrec, char *bufptr)
 {
     SnapshotElemLog  *log  = (SnapshotElemLog*)logrec;
@@ -1306,16 +1312,17 @@ static ENGINE_ERROR_CODE lrec_snapshot_elem_link_redo(LogRec *logrec)
     ENGINE_ERROR_CODE ret = ENGINE_FAILED;
     SnapshotElemLog  *log  = (SnapshotElemLog*)logrec;
     SnapshotElemData *body = &log->body;
+    hash_item *it = snapshot_elem_it;
     char *valptr = body->data;
 
-    if (IS_LIST_ITEM(log->it)) {
-        ret = list_apply_elem_insert(engine, log->it, -1, -1, valptr, body->nbytes);
-    } else if (IS_SET_ITEM(log->it)) {
-        ret = set_apply_elem_insert(engine, log->it, valptr, body->nbytes);
-    } else if (IS_MAP_ITEM(log->it)) {
-        ret = map_apply_elem_insert(engine, log->it, valptr, body->nekey, body->nbytes);
-    } else if (IS_BTREE_ITEM(log->it)) {
-        ret = btree_apply_elem_insert(engine, log->it, valptr, body->nekey, body->neflag, body->nbytes);
+    if (IS_LIST_ITEM(it)) {
+        ret = list_apply_elem_insert(engine, it, -1, -1, valptr, body->nbytes);
+    } else if (IS_SET_ITEM(it)) {
+        ret = set_apply_elem_insert(engine, it, valptr, body->nbytes);
+    } else if (IS_MAP_ITEM(it)) {
+        ret = map_apply_elem_insert(engine, it, valptr, body->nekey, body->nbytes);
+    } else if (IS_BTREE_ITEM(it)) {
+        ret = btree_apply_elem_insert(engine, it, valptr, body->nekey, body->neflag, body->nbytes);
     }
 
     if (ret != ENGINE_SUCCESS) {
@@ -1835,7 +1842,7 @@ void lrec_set_item_in_snapshot_elem(SnapshotElemLog *log, hash_item *it)
 {
     assert(it != NULL);
     if (log->header.logtype == LOG_SNAPSHOT_ELEM) {
-        log->it = it;
+        snapshot_elem_it = it;
     }
 }
 
diff --git a/engines/default/cmdlogrec.h b/engines/default/cmdlogrec.h
index dae763c..f37eec5 100644
--- a/engines/default/cmdlogrec.h
+++ b/engines/default/cmdlogrec.h
@@ -203,7 +203,6 @@ typedef struct _snapshot_elem_log {
     LogHdr           header;
     SnapshotElemData body;
     char             *valptr;
-    hash_item        *it;
 } SnapshotElemLog;
 
 /* List Elem Insert Log Record */
-- 
2.43.0


From 521f3c9e75ef45856551caa6b89fed4f539c2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 19/50] fix: restore the elements of a b+tree that has
 maxbkeyrange from the snapshot

The key of its item link log record follows the maxbkeyrange.
---
 engines/default/cmdlogrec.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 25e9de0..2b390ed 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -1834,7 +1834,11 @@ hash_item *lrec_get_item_if_collection_link(ITLinkLog *log)
         log->header.updtype == UPD_STORE) {
         return NULL;
     }
-    hash_item *it = item_get(&log->body.data, log->body.cm.keylen);
+    char *keyptr = log->body.data;
+    if (log->body.cm.ittype == ITEM_TYPE_BTREE && log->body.ptr.meta.maxbkrlen != BKEY_NULL) {
+        keyptr += BTREE_REAL_NBKEY(log->body.ptr.meta.maxbkrlen); /* skip maxbkeyrange */
+    }
+    hash_item *it = item_get(keyptr, log->body.cm.keylen);
     return it;
 }
 
-- 
2.43.0


From 0fe7b94f9999dadcbc84561388943fb791ea25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 20/50] fix: a failed checkpoint must not leave the size of its
 command log behind

The next checkpoint would abort at assert(dual_write_size == cmdlog_file_getsize()).
---
 engines/default/cmdlogfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/default/cmdlogfile.c b/engines/default/cmdlogfile.c
index 7043fbf..a940545 100644
--- a/engines/default/cmdlogfile.c
+++ b/engines/default/cmdlogfile.c
@@ -308,6 +308,7 @@ void cmdlog_file_close(void)
     if (logfile->next_fd != -1) {
         remove_fd = logfile->next_fd;
         logfile->next_fd = -1;
+        logfile->next_size = 0;
     } else { /* the first checkpoint */
         assert(logfile->fd != -1);
         remove_fd = logfile->fd;
-- 
2.43.0


From ec06152bc250f0e968e9ce08436a0290acece6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 21/50] fix: the checkpoint sweep must not delete the files of
 the last checkpoint

Their names have a 14-digit time, which does not fit in the int of atoi().
---
 engines/default/checkpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/checkpoint.c b/engines/default/checkpoint.c
index 32aa856..fd7b600 100644
--- a/engines/default/checkpoint.c
+++ b/engines/default/checkpoint.c
@@ -99,7 +99,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_SNAPSHOT_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->snapshot_path, "%s/%s", cs->data_path, ent->d_name);
@@ -124,7 +124,7 @@ static bool do_chkpt_sweep_files(chkpt_st *cs)
         while ((ent = readdir(dir)) != NULL) {
             char *ptr = ent->d_name;
             if (strncmp(CHKPT_CMDLOG_PREFIX, ptr, plen) != 0 ||
-                cs->lasttime == atoi(ptr + plen)) {
+                cs->lasttime == atoll(ptr + plen)) {
                 continue;
             }
             sprintf(cs->cmdlog_path, "%s/%s", cs->logs_path, ent->d_name);
-- 
2.43.0


From 38e9eed3c0d0a6876c83d08c4e97edf1462009e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 22/50] fix: flush all the remaining log records at shutdown

---
 engines/default/cmdlogbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/cmdlogbuf.c b/engines/default/cmdlogbuf.c
index a63e6ea..38bf8ee 100644
--- a/engines/default/cmdlogbuf.c
+++ b/engines/default/cmdlogbuf.c
@@ -474,7 +474,7 @@ void cmdlog_buf_final(void)
     }
 
     /* In async mode, log records may remain in CMDLOG_FLUSH_AUTO_SIZE. */
-    (void)do_log_buff_flush(true);
+    while (do_log_buff_flush(true) > 0);
 
     /* log buffer final */
     log_BUFFER *logbuff = &log_buff_gl.log_buffer;
-- 
2.43.0


From f53446269c4773a07bd3a7ba8ec5d1a937787546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 23/50] fix: redo of maxbkeyrange must set the bkey type of an
 empty b+tree

---
 engines/default/coll_btree.c | 12 +++++++++++-
 engines/default/coll_btree.h |  2 ++
 engines/default/items.c      |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engines/default/coll_btree.c b/engines/default/coll_btree.c
index 5325258..bc68f1a 100644
--- a/engines/default/coll_btree.c
+++ b/engines/default/coll_btree.c
@@ -4386,6 +4386,16 @@ ENGINE_ERROR_CODE btree_coll_setattr(hash_item *it, item_attr *attrp,
     return ENGINE_SUCCESS;
 }
 
+void btree_apply_maxbkeyrange(btree_meta_info *info, const bkey_t *maxbkeyrange)
+{
+    info->maxbkeyrange = *maxbkeyrange;
+    if (info->ccnt == 0) {
+        if (maxbkeyrange->len == BKEY_NULL)  info->bktype = BKEY_TYPE_UNKNOWN;
+        else if (maxbkeyrange->len == 0)     info->bktype = BKEY_TYPE_UINT64;
+        else                                 info->bktype = BKEY_TYPE_BINARY;
+    }
+}
+
 ENGINE_ERROR_CODE btree_apply_item_link(void *engine, const char *key, const uint32_t nkey,
                                         item_attr *attrp)
 {
@@ -4411,7 +4421,7 @@ ENGINE_ERROR_CODE btree_apply_item_link(void *engine, const char *key, const uin
             info->mflags |= COLL_META_FLAG_TRIMMED; // set trimmed
         }
         if (attrp->maxbkeyrange.len != BKEY_NULL) {
-            info->maxbkeyrange = attrp->maxbkeyrange;
+            btree_apply_maxbkeyrange(info, &attrp->maxbkeyrange);
         }
         /* Link the new item into the hash table */
         ret = do_item_link(new_it);
diff --git a/engines/default/coll_btree.h b/engines/default/coll_btree.h
index 79831f2..7962c50 100644
--- a/engines/default/coll_btree.h
+++ b/engines/default/coll_btree.h
@@ -110,6 +110,8 @@ ENGINE_ERROR_CODE btree_coll_getattr(hash_item *it, item_attr *attrp,
 ENGINE_ERROR_CODE btree_coll_setattr(hash_item *it, item_attr *attrp,
                                      ENGINE_ITEM_ATTR *attr_ids, const uint32_t attr_cnt);
 
+void btree_apply_maxbkeyrange(btree_meta_info *info, const bkey_t *maxbkeyrange);
+
 ENGINE_ERROR_CODE btree_apply_item_link(void *engine, const char *key, const uint32_t nkey,
                                         item_attr *attrp);
 ENGINE_ERROR_CODE btree_apply_elem_insert(void *engine, hash_item *it,
diff --git a/engines/default/items.c b/engines/default/items.c
index ee157f9..5b9f055 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1869,7 +1869,7 @@ ENGINE_ERROR_CODE item_apply_setattr_collinfo(void *engine, hash_item *it,
         info->ovflact = ovflact;
         info->mflags = mflags;
         if (maxbkeyrange) {
-            ((btree_meta_info*)info)->maxbkeyrange = *maxbkeyrange;
+            btree_apply_maxbkeyrange((btree_meta_info*)info, maxbkeyrange);
         }
     } while(0);
 
-- 
2.43.0


From 4f1c05da9a3485c2702a919d864e730eafba4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 24/50] fix: redo the reset of maxbkeyrange

---
 engines/default/cmdlogrec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engines/default/cmdlogrec.c b/engines/default/cmdlogrec.c
index 2b390ed..6cb5586 100644
--- a/engines/default/cmdlogrec.c
+++ b/engines/default/cmdlogrec.c
@@ -459,10 +459,12 @@ static ENGINE_ERROR_CODE lrec_it_setattr_redo(LogRec *logrec)
     } else {
         bkey_t maxbkeyrange;
         bkey_t *maxbkrptr = NULL;
+        if (log->header.updtype == UPD_SETATTR_EXPTIME_INFO_BKEY) {
+            maxbkeyrange.len = body->maxbkrlen; /* BKEY_NULL: maxbkeyrange was reset */
+            maxbkrptr = &maxbkeyrange;
+        }
         if (body->maxbkrlen != BKEY_NULL) {
-            maxbkeyrange.len = body->maxbkrlen;
             memcpy(maxbkeyrange.val, body->data, BTREE_REAL_NBKEY(body->maxbkrlen));
-            maxbkrptr = &maxbkeyrange;
             keyptr += BTREE_REAL_NBKEY(body->maxbkrlen);
         }
         hash_item *it = item_get(keyptr, body->keylen);
-- 
2.43.0


From e1501bc4f82bd1e9e3e6c85ef583c989313a5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 25/50] fix: a flush during a checkpoint must not flush what is
 created after it

The flush record goes to the new command log, which is redone after the
snapshot, and so flushed the items that were created after the flush and then
written to the snapshot. Give up the checkpoint; it is retried.
---
 engines/default/chkpt_snapshot.c | 10 +++++++++-
 engines/default/chkpt_snapshot.h |  1 +
 engines/default/cmdlogmgr.c      |  9 +++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/engines/default/chkpt_snapshot.c b/engines/default/chkpt_snapshot.c
index 9c44827..66b85f8 100644
--- a/engines/default/chkpt_snapshot.c
+++ b/engines/default/chkpt_snapshot.c
@@ -49,7 +49,7 @@ typedef struct _snapshot_st {
    void    *engine;
    bool     running;    /* Is it running, now ? */
    bool     success;    /* snapshot final status: success or fail */
-   bool     reqstop;    /* request to stop snapshot */
+   volatile bool reqstop; /* request to stop snapshot */
    enum chkpt_snapshot_mode mode;
    uint64_t snapped;    /* # of cache item snapped */
    time_t   started;    /* snapshot start time */
@@ -682,6 +682,14 @@ void chkpt_snapshot_stop(void)
     pthread_mutex_unlock(&snapshot_anch.lock);
 }
 
+/* Make the snapshot of the ongoing checkpoint fail.
+ * It does not wait: the caller might hold the cache lock.
+ */
+void chkpt_snapshot_cancel(void)
+{
+    snapshot_anch.reqstop = true;
+}
+
 void chkpt_snapshot_stats(ADD_STAT add_stat, const void *cookie)
 {
     pthread_mutex_lock(&snapshot_anch.lock);
diff --git a/engines/default/chkpt_snapshot.h b/engines/default/chkpt_snapshot.h
index 8094377..dbc0d1c 100644
--- a/engines/default/chkpt_snapshot.h
+++ b/engines/default/chkpt_snapshot.h
@@ -40,6 +40,7 @@ ENGINE_ERROR_CODE chkpt_snapshot_start(enum chkpt_snapshot_mode mode,
                                        const char *filepath,
                                        CB_SNAPSHOT_DONE callback);
 void chkpt_snapshot_stop(void);
+void chkpt_snapshot_cancel(void);
 void chkpt_snapshot_stats(ADD_STAT add_stat, const void *cookie);
 
 int chkpt_snapshot_check_file_validity(const int fd, size_t *filesize);
diff --git a/engines/default/cmdlogmgr.c b/engines/default/cmdlogmgr.c
index 1f19c1c..4a6ac97 100644
--- a/engines/default/cmdlogmgr.c
+++ b/engines/default/cmdlogmgr.c
@@ -28,6 +28,8 @@
 #include "cmdlogmgr.h"
 #include "cmdlogbuf.h"
 #include "cmdlogfile.h"
+#include "checkpoint.h"
+#include "chkpt_snapshot.h"
 
 static struct assoc_scan *chkpt_scanp=NULL; // checkpoint scan pointer
 
@@ -547,6 +549,13 @@ void cmdlog_generate_flush_item(const char *prefix, const int nprefix, const tim
         ITFlushLog log;
         (void)lrec_construct_flush_item((LogRec*)&log, prefix, nprefix);
         cmdlog_buff_write((LogRec*)&log, cmdlog_get_my_waiter(), NEED_DUAL_WRITE(NULL));
+        if (chkpt_scanp != NULL) {
+            /* The flush record of the new command log would also flush the items
+             * that are created from now on and written to the snapshot later on.
+             * So, give up the current checkpoint. It will be retried.
+             */
+            chkpt_snapshot_cancel();
+        }
     }
 }
 
-- 
2.43.0


From b2080f19c473345557307bb198d20696790571d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 26/50] fix: accept a binary flush_prefix packet

The body of the packet consists of the extras and the key, but its
length was compared with the extras alone, so that every well-formed
packet was refused and the connection closed.
---
 memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 79b76ad..e838da5 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7042,7 +7042,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_FLUSH_PREFIX:
-        if (keylen > 0 && bodylen == extlen && (extlen == 0 || extlen == 4)) {
+        if (keylen > 0 && bodylen == (keylen + extlen) && (extlen == 0 || extlen == 4)) {
             bin_read_key(c, bin_read_flush_prefix_exptime, extlen);
         } else {
             protocol_error = 1;
-- 
2.43.0


From 451ad5cb13ad346cfc8de4272491d1c06c482487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 27/50] fix: binary bop update without a new eflag or without a
 new value

Without a new eflag, its length is EFLAG_NULL (255) and that many bytes
were copied into the 31 bytes of the update in the connection.  Without a
new value, the packet had to carry a value nevertheless, which was then
taken for the next request.
---
 memcached.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index e838da5..944fefa 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5747,7 +5747,7 @@ static void process_bin_bop_update_prepare_nread(conn *c)
     c->coll_eupdate.offset = req->message.body.offset;
     c->coll_eupdate.bitwop = req->message.body.bitwop;
     c->coll_eupdate.neflag = req->message.body.neflag;
-    if (req->message.body.neflag > 0) {
+    if (req->message.body.neflag > 0 && req->message.body.neflag != EFLAG_NULL) {
         memcpy(c->coll_eupdate.eflag, req->message.body.eflag, req->message.body.neflag);
     }
 
@@ -5766,6 +5766,14 @@ static void process_bin_bop_update_prepare_nread(conn *c)
         c->coll_ecount = 0;
         c->coll_op     = OPERATION_BOP_UPDATE;
         process_bin_bop_update_complete(c);
+        if (vlen > 0) { /* skip the value that is not to be used */
+            c->sbytes = vlen;
+            if (c->state == conn_mwrite) {
+                c->write_and_go = conn_swallow;
+            } else if (c->state == conn_new_cmd) {
+                conn_set_state(c, conn_swallow);
+            }
+        }
         return;
     }
 
@@ -7208,7 +7216,7 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_BOP_UPDATE:
-        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen > (keylen + extlen)) {
+        if (keylen > 0 && extlen == (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8) && bodylen >= (keylen + extlen)) {
             bin_read_key(c, bin_reading_bop_update_prepare_nread, (MAX_BKEY_LENG+1+MAX_EFLAG_LENG+1+8));
         } else {
             protocol_error = 1;
-- 
2.43.0


From 19b6b8ed33e53a8f8bce47f019e6984967fa8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 28/50] fix: a collection created by a binary insert gets the
 default overflow action

It got the one that the connection had used last, for whatever type.
---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index 944fefa..18c06b6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4680,6 +4680,7 @@ static void process_bin_lop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
@@ -5083,6 +5084,7 @@ static void process_bin_sop_prepare_nread(conn *c)
                 c->coll_attrp->flags    = req->message.body.flags;
                 c->coll_attrp->exptime  = realtime(req->message.body.exptime);
                 c->coll_attrp->maxcount = req->message.body.maxcount;
+                c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
                 c->coll_attrp->readable = 1;
             } else {
                 c->coll_attrp = NULL;
@@ -5557,6 +5559,7 @@ static void process_bin_bop_prepare_nread(conn *c)
             c->coll_attrp->flags    = req->message.body.flags;
             c->coll_attrp->exptime  = realtime(req->message.body.exptime);
             c->coll_attrp->maxcount = req->message.body.maxcount;
+            c->coll_attrp->ovflaction = 0; /* undefined : will be set to default later */
             c->coll_attrp->readable = 1;
         } else {
             c->coll_attrp = NULL;
-- 
2.43.0


From 5e14e5400e1f220155b75f44e90ceab0be0c494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 29/50] fix: refuse binary b+tree commands whose lengths exceed
 their fields

Lengths of bkeys and eflags beyond the fields that hold them made the
server copy past the ends of its own buffers.
---
 memcached.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/memcached.c b/memcached.c
index 18c06b6..a7cca0d 100644
--- a/memcached.c
+++ b/memcached.c
@@ -5410,6 +5410,11 @@ static void process_bin_sop_get(conn *c)
     }
 }
 
+static inline bool bin_bkey_valid(const uint8_t nbkey)
+{
+    return nbkey <= MAX_BKEY_LENG;
+}
+
 static void process_bin_bop_create(conn *c)
 {
     assert(c != NULL);
@@ -5502,6 +5507,10 @@ static void process_bin_bop_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_insert* req = binary_get_request(c);
+    if (! bin_bkey_valid(req->message.body.nbkey) || req->message.body.neflag > MAX_EFLAG_LENG) {
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, vlen);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -5732,6 +5741,13 @@ static void process_bin_bop_update_prepare_nread(conn *c)
 
     /* fix byteorder in the request */
     protocol_binary_request_bop_update* req = binary_get_request(c);
+    if (! bin_bkey_valid(req->message.body.nbkey) ||
+        (req->message.body.neflag != EFLAG_NULL &&
+         (req->message.body.neflag > MAX_EFLAG_LENG ||
+          (req->message.body.bitwop < BITWISE_OP_MAX && req->message.body.offset >= MAX_EFLAG_LENG)))) {
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, vlen);
+        return;
+    }
     if (req->message.body.nbkey == 0) {
         uint64_t bkey_temp;
         memcpy((uint8_t*)&bkey_temp, req->message.body.bkey, sizeof(uint64_t));
@@ -6779,6 +6795,11 @@ static void process_bin_setattr(conn *c)
     /* fix byteorder in the request */
     protocol_binary_request_setattr* req = binary_get_request(c);
 
+    if (req->message.body.maxbkeyrange.len > MAX_BKEY_LENG &&
+        req->message.body.maxbkeyrange.len != BKEY_NULL) {
+        write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EINVAL, 0);
+        return;
+    }
     if (req->message.body.expiretime_f != 0) {
         attr_ids[attr_count++] = ATTR_EXPIRETIME;
         req->message.body.expiretime = ntohl(req->message.body.expiretime);
-- 
2.43.0


From 8b44c9eb5bc67c8ea431b86f3839b3ef41103d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 30/50] fix: accept a binary getattr request, which has no
 extras

Its length was compared with the extras of the response.
---
 memcached.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memcached.c b/memcached.c
index a7cca0d..b5495ef 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7148,8 +7148,8 @@ static void dispatch_bin_command(conn *c)
         }
         break;
     case PROTOCOL_BINARY_CMD_GETATTR:
-        if (keylen > 0 && extlen == (sizeof(bkey_t)+24) && bodylen == (keylen + extlen)) {
-            bin_read_key(c, bin_reading_getattr, (sizeof(bkey_t)+24));
+        if (keylen > 0 && (extlen == 0 || extlen == (sizeof(bkey_t)+24)) && bodylen == (keylen + extlen)) {
+            bin_read_key(c, bin_reading_getattr, extlen);
         } else {
             protocol_error = 1;
         }
-- 
2.43.0


From 5260f644d930276a2af34cddf4590ae0b846b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 31/50] fix: count binary delete commands in the statistics

Only the ASCII delete counted cmd_delete, delete_hits and delete_misses.
---
 memcached.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memcached.c b/memcached.c
index b5495ef..045aee6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -7592,12 +7592,15 @@ static void process_bin_delete(conn *c)
 
     switch (ret) {
     case ENGINE_SUCCESS:
+        STATS_HITS(c, delete, key, nkey);
         write_bin_response(c, NULL, 0, 0, 0);
         break;
     case ENGINE_KEY_EEXISTS:
+        STATS_CMD_NOKEY(c, delete);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_EEXISTS, 0);
         break;
     case ENGINE_KEY_ENOENT:
+        STATS_MISSES(c, delete, key, nkey);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_KEY_ENOENT, 0);
         break;
     case ENGINE_NOT_MY_VBUCKET:
-- 
2.43.0


From 575502dc75673f1ebb5df60b095953f5157fcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 32/50] fix: a binary setattr with maxbkeyrange 0 must reset
 the range, as the ASCII command does

---
 memcached.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcached.c b/memcached.c
index 045aee6..e9cb18f 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6822,6 +6822,11 @@ static void process_bin_setattr(conn *c)
             memcpy(attr_data.maxbkeyrange.val, req->message.body.maxbkeyrange.val, req->message.body.maxbkeyrange.len);
         }
         attr_data.maxbkeyrange.len = req->message.body.maxbkeyrange.len;
+        if (attr_data.maxbkeyrange.len == 0) {
+            uint64_t bkey_temp;
+            memcpy((unsigned char*)&bkey_temp, attr_data.maxbkeyrange.val, sizeof(uint64_t));
+            if (bkey_temp == 0) attr_data.maxbkeyrange.len = BKEY_NULL; /* reset maxbkeyrange */
+        }
     }
     if (req->message.body.ovflaction != 0) {
         attr_ids[attr_count++] = ATTR_OVFLACTION;
-- 
2.43.0


From ab25c4738b5be6b499f836ac21190616df8033f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 33/50] fix: count the binary get and incr/decr commands that
 fail, as the ASCII ones are

---
 memcached.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcached.c b/memcached.c
index e9cb18f..fed6e6c 100644
--- a/memcached.c
+++ b/memcached.c
@@ -3789,6 +3789,13 @@ static void complete_incr_bin(conn *c)
         if (incr) stats_prefix_record_incr(key, nkey);
         else      stats_prefix_record_decr(key, nkey);
     }
+    if (ret != ENGINE_SUCCESS && ret != ENGINE_KEY_ENOENT) {
+        if (incr) {
+            STATS_CMD_NOKEY(c, incr);
+        } else {
+            STATS_CMD_NOKEY(c, decr);
+        }
+    }
 
     switch (ret) {
     case ENGINE_SUCCESS:
@@ -4021,6 +4028,7 @@ static void process_bin_get(conn *c)
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_NOT_MY_VBUCKET, 0);
         break;
     case ENGINE_EBADTYPE:
+        STATS_MISSES(c, get, key, nkey);
         write_bin_packet(c, PROTOCOL_BINARY_RESPONSE_EBADTYPE, 0);
         break;
     default:
-- 
2.43.0


From 245b583318c6a57f85047f4ada5ec19ff77cb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 34/50] fix: an escaped wildcard in a scan pattern must not
 match a backslash

---
 util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util.c b/util.c
index a0ba5f8..d8c0c94 100644
--- a/util.c
+++ b/util.c
@@ -300,8 +300,10 @@ bool string_pattern_match(const char *text, int text_len, const char *pattern, i
             tlen_backup = text_len;
             plen_backup = --pattern_len;
         }
-        else if (*pattern == '?' || *pattern == *text) {
-            /* ? match any character or match the current non-NULL character */
+        else if (*pattern == '?' || (*pattern != '\\' && *pattern == *text && pattern_len > 0)) {
+            /* ? match any character or match the current character
+             * except the backslash, which only escapes the next one.
+             */
             text++;
             pattern++;
             text_len--;
-- 
2.43.0


From 92e6c46b720e75a523fd6e986b409f04ebb7ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 35/50] fix: a scan that found as many as asked for must end,
 not overrun its array

---
 engines/default/default_engine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.c b/engines/default/default_engine.c
index f215324..b436195 100644
--- a/engines/default/default_engine.c
+++ b/engines/default/default_engine.c
@@ -1279,7 +1279,7 @@ default_prefixscan(const char cursor[], const uint32_t count, const char *patter
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = prefix_scan_direct(cursor, iter_count,
@@ -1340,7 +1340,7 @@ default_keyscan(const char cursor[], const uint32_t count, const char *pattern,
     struct timeval begin, end, diff;
 
     gettimeofday(&begin, NULL);
-    while (iter_total < count) {
+    while (iter_total < count && scan_total < count) {
         iter_count = (count-scan_total) < SCAN_ITER_COUNT
                    ? (count-scan_total) : SCAN_ITER_COUNT;
         scan_count = item_scan_direct(cursor, type, iter_count,
-- 
2.43.0


From 699f06a94c2ef27ea3ab97077e2a9817b24162aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 36/50] fix: a prefix scan must not write past its array on a
 long hash chain

---
 engines/default/prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/prefix.c b/engines/default/prefix.c
index dbc5390..6b67768 100644
--- a/engines/default/prefix.c
+++ b/engines/default/prefix.c
@@ -736,7 +736,7 @@ static int _prefix_scan_direct(const char *cursor, int req_count, void **item_ar
             PREFIX_REFCOUNT_INCR(null_pt);
         }
         prefix_t *pt = prefxp->hashtable[bucket];
-        while (pt) {
+        while (pt && item_count < item_arrsz) {
             if (!pt->internal && !_prefix_isempty(pt)) {
                 item_array[item_count++] = pt;
                 PREFIX_REFCOUNT_INCR(pt);
-- 
2.43.0


From 0d391843a7eaa2e40e536cff353e425e73c3fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 37/50] fix: keep a copy of the dump prefix instead of a
 pointer into the connection buffer

---
 engines/default/default_engine.h | 2 +-
 engines/default/items.c          | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engines/default/default_engine.h b/engines/default/default_engine.h
index 548641a..9c31b54 100644
--- a/engines/default/default_engine.h
+++ b/engines/default/default_engine.h
@@ -128,7 +128,7 @@ struct engine_dumper {
    time_t          started; /* dump start time */
    time_t          stopped; /* dump stop time */
    char            filepath[MAX_FILEPATH_LENGTH]; /* dump file path */
-   char           *prefix;  /* prefix of keys for dumping */
+   char            prefix[MAX_FILENAME_LENGTH]; /* prefix of keys for dumping */
    int             nprefix;
 };
 
diff --git a/engines/default/items.c b/engines/default/items.c
index 5b9f055..80109dd 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1593,7 +1593,9 @@ ENGINE_ERROR_CODE item_dump_start(struct default_engine *engine,
 
         snprintf(dumper->filepath, MAX_FILEPATH_LENGTH-1, "%s",
                 (filepath != NULL ? filepath : "arcus_dump.txt"));
-        dumper->prefix = (char*)prefix;
+        /* The given prefix is in the connection's buffer. Keep a copy of it. */
+        snprintf(dumper->prefix, sizeof(dumper->prefix), "%.*s",
+                 (nprefix > 0 ? nprefix : 0), (nprefix > 0 ? prefix : ""));
         dumper->nprefix = nprefix;
         dumper->mode = mode;
         dumper->started = time(NULL);
-- 
2.43.0


From e29d7f114b84e3c014af489a3ce1e39fc354f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 38/50] fix: do not cut off the dump summary after a long
 prefix name

---
 engines/default/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/default/items.c b/engines/default/items.c
index 80109dd..225896d 100644
--- a/engines/default/items.c
+++ b/engines/default/items.c
@@ -1520,7 +1520,7 @@ static void *item_dumper_main(void *arg)
     item_scan_close(&scan, NULL, (ret==0));
 
     if (ret == 0) {
-        int summary_length = 256; /* just, enough memory space size */
+        int summary_length = 256 + MAX_FILENAME_LENGTH; /* just, enough memory space size */
         if ((cur_buflen + summary_length) > max_buflen) {
             nwritten = write(fd, dump_buffer, cur_buflen);
             if (nwritten != cur_buflen) {
-- 
2.43.0


From 2491bca5737ab4e14c1213e9614cd2de3a01eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 39/50] fix: refuse a sasl auth data length that wraps around

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index fed6e6c..069ec27 100644
--- a/memcached.c
+++ b/memcached.c
@@ -4333,7 +4333,8 @@ static void process_ascii_sasl_auth(conn *c, token_t *tokens, const size_t ntoke
         c->sasl_mech[0] = '\0';
     }
 
-    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len)) {
+    if (! safe_strtoul(tokens[read_ntokens++].value, &c->sasl_auth_data_len) ||
+        c->sasl_auth_data_len > (INT_MAX-2)) {
         out_string(c, "CLIENT_ERROR bad command line format");
         return;
     }
-- 
2.43.0


From eb734c71c609d332788a5d4fa8b4664aeb938912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 40/50] fix: an unauthorized extension command must not abort
 the server

---
 memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index 069ec27..6e857e6 100644
--- a/memcached.c
+++ b/memcached.c
@@ -9954,7 +9954,8 @@ static void process_extension_command(conn *c, token_t *tokens, size_t ntokens)
         return;
     }
 #ifdef ASCII_SASL
-    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens)) {
+    /* the terminal token is not counted in ntokens here */
+    if (settings.require_sasl && !check_ascii_auth(c, cmd->get_auth_flag(), NULL, tokens, ntokens+1)) {
         out_string(c, "CLIENT_ERROR unauthorized");
         return;
     }
-- 
2.43.0


From 70ecb2951510010e64041944ea28be51f8cc4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 41/50] fix: every key of an unauthorized get must be allowed,
 not only the first

---
 memcached.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memcached.c b/memcached.c
index 6e857e6..f3cd8a7 100644
--- a/memcached.c
+++ b/memcached.c
@@ -8675,6 +8675,13 @@ static inline void process_get_command(conn *c, token_t *tokens, size_t ntokens,
             if (key_token->length > KEY_MAX_LENGTH) {
                 ret = ENGINE_EINVAL; break;
             }
+#ifdef ASCII_SASL
+            /* each key must be allowed, not only the first one */
+            if (settings.require_sasl && (c->authorized & AUTHZ_KV) != AUTHZ_KV &&
+                strncmp(key_token->value, "arcus:", 6) != 0) {
+                ret = ENGINE_EACCESS; break;
+            }
+#endif
             /* do get operation for each key */
             ret = process_get_single(c, key_token->value, key_token->length,
                                      return_cas, should_touch ? &exptime : NULL);
@@ -8707,6 +8714,8 @@ static inline void process_get_command(conn *c, token_t *tokens, size_t ntokens,
          */
         if (ret == ENGINE_EINVAL)
             out_string(c, "CLIENT_ERROR bad command line format");
+        else if (ret == ENGINE_EACCESS)
+            out_string(c, "CLIENT_ERROR unauthorized");
         else /* ret == ENGINE_ENOMEM */
             out_string(c, "SERVER_ERROR out of memory writing get response");
         return;
-- 
2.43.0


From 45b415728b5a5949ebc4cdddd6d1cd09d3ebbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 42/50] fix: have enough free node items even when all cluster
 nodes are replaced

---
 cluster_config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cluster_config.c b/cluster_config.c
index 476e28d..eada330 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -205,9 +205,12 @@ static int do_node_free_list_prepare(struct cluster_config *config, uint32_t cou
     struct node_item *item;
     int rc = 0;
 
-    if ((config->free_size + config->num_nodes) < count) {
+    /* None of the current nodes may be in the new list,
+     * and they are released after the new ones have been built.
+     */
+    if (config->free_size < count) {
         /* We need to grow the free node list */
-        int addition = count - (config->free_size + config->num_nodes);
+        int addition = count - config->free_size;
         for (int i = 0; i < addition; i++) {
             item = (struct node_item *)malloc(sizeof(struct node_item));
             if (item == NULL) {
-- 
2.43.0


From 0084ec64d6dd24db96ce92c904d2f6f2845771a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 43/50] fix: no key has an owner in an empty cluster

---
 cluster_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster_config.c b/cluster_config.c
index eada330..4aed808 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -682,12 +682,12 @@ int cluster_config_key_is_mine(struct cluster_config *config,
                                const char *key, uint32_t nkey, bool *mine,
                                uint32_t *key_id, uint32_t *self_id)
 {
-    assert(config && config->continuum);
+    assert(config);
     uint32_t digest = hash_ketama(key, nkey);
     int ret = 0;
 
     pthread_mutex_lock(&config->ketama_lock);
-    if (config->is_valid) {
+    if (config->is_valid && config->num_conts > 0) {
         struct cont_item *item;
         item = do_continuum_find(config->continuum, config->num_conts, digest);
         *mine = (item->nindex == config->self_id ? true : false);
-- 
2.43.0


From b92b4d2ef7577fb972d9b1be45f8885f117388f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 44/50] fix: lookups must not see the node indexes of a hash
 ring not yet in place

---
 cluster_config.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cluster_config.c b/cluster_config.c
index 4aed808..b515716 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -501,7 +501,7 @@ static void do_hashring_replace(struct cluster_config *config, struct cont_item
     uint32_t tmp_memlen;
     uint32_t old_num_nodes;
 
-    pthread_mutex_lock(&config->ketama_lock);
+    /* The caller holds ketama_lock: it is released here. */
     /* save old hash ring info */
     tmp_memory = config->cur_memory;
     tmp_memlen = config->cur_memlen;
@@ -636,6 +636,7 @@ int cluster_config_reconfigure(struct cluster_config *config,
         self_id = -1;
         if (num_added) *num_added = 0;
         if (num_removed) *num_removed = config->num_nodes;
+        pthread_mutex_lock(&config->ketama_lock);
         do_hashring_replace(config, continuum, nodearray, num_nodes, self_id);
         pthread_mutex_unlock(&config->config_lock);
         return 0;
@@ -659,6 +660,10 @@ int cluster_config_reconfigure(struct cluster_config *config,
         }
     } else {
         /* build continuuum */
+        /* The hash slices of the remaining nodes are shared with the current
+         * hash ring: lookups must not see the node indexes of the new one.
+         */
+        pthread_mutex_lock(&config->ketama_lock);
         continuum = do_continuum_build(config, nodearray, num_nodes);
         /* replace hash ring */
         do_hashring_replace(config, continuum, nodearray, num_nodes, self_id);
-- 
2.43.0


From bcea73c16e7242b6701d149e892b689d356b1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 45/50] fix: the hash ring is valid again once its own nodes
 are listed after a failure

---
 cluster_config.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cluster_config.c b/cluster_config.c
index b515716..7e18285 100644
--- a/cluster_config.c
+++ b/cluster_config.c
@@ -657,6 +657,11 @@ int cluster_config_reconfigure(struct cluster_config *config,
             config->logger->log(EXTENSION_LOG_WARNING, NULL,
                                 "reconfiguration failed: do_nodearray_build\n");
             config->is_valid = false;
+        } else {
+            /* The same nodes: the current hash ring is right
+             * even if the previous reconfiguration failed.
+             */
+            config->is_valid = true;
         }
     } else {
         /* build continuuum */
-- 
2.43.0


From 49f799bbdd0700f51f1311b0c885636a621f32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 46/50] fix: a logged command of exactly the maximum size lost
 its line end

---
 cmdlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 6517fd9..d83b6c9 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -407,7 +407,7 @@ void cmdlog_write(char *client_ip, char *command)
     nwritten = snprintf(inputstr, CMDLOG_INPUT_SIZE, "%02d:%02d:%02d.%06ld %s %s\n",
                        ptm->tm_hour, ptm->tm_min, ptm->tm_sec, (long)val.tv_usec, client_ip, command);
     /* truncated ? */
-    if (nwritten > CMDLOG_INPUT_SIZE) {
+    if (nwritten >= CMDLOG_INPUT_SIZE) {
         inputstr[CMDLOG_INPUT_SIZE-4] = '.';
         inputstr[CMDLOG_INPUT_SIZE-3] = '.';
         inputstr[CMDLOG_INPUT_SIZE-2] = '\n';
-- 
2.43.0


From f29ea55f3e3cfad1291a1bfc6bd7b05b272f9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 47/50] fix: a command log path of 128 characters does not fit
 its buffer

---
 cmdlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index d83b6c9..2951e4e 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -285,7 +285,7 @@ int cmdlog_start(char *file_path, bool *already_started)
             ret = -1; break;
         }
         /* check the length of file_path */
-        if (file_path != NULL && strlen(file_path) > CMDLOG_DIRPATH_LENGTH) {
+        if (file_path != NULL && strlen(file_path) >= CMDLOG_DIRPATH_LENGTH) {
             mc_logger->log(EXTENSION_LOG_WARNING, NULL,
                            "Too long cmdlog file path.\n");
             ret = -1; break;
-- 
2.43.0


From c3332c7e547f9f7942d8ba0b6697fb1b1c08d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 48/50] fix: a full command log buffer not yet flushed at all
 must not be overwritten

---
 cmdlog.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdlog.c b/cmdlog.c
index 2951e4e..1fd789e 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -416,15 +416,19 @@ void cmdlog_write(char *client_ip, char *command)
 
     pthread_mutex_lock(&buffer->lock);
     cmdlog.stats.entered_commands += 1;
-    if (buffer->head <= buffer->tail && inputlen >= (buffer->size - buffer->tail)) {
+    if (buffer->head > 0 && /* tail must not catch up with head */
+        buffer->head <= buffer->tail && inputlen >= (buffer->size - buffer->tail)) {
         buffer->last = buffer->tail;
         buffer->tail = 0;
     }
     if (buffer->head <= buffer->tail) {
         assert(buffer->last == 0);
-        assert(inputlen < (buffer->size - buffer->tail));
-        memcpy(buffer->data + buffer->tail, inputstr, inputlen);
-        buffer->tail += inputlen;
+        if (inputlen < (buffer->size - buffer->tail)) {
+            memcpy(buffer->data + buffer->tail, inputstr, inputlen);
+            buffer->tail += inputlen;
+        } else {
+            cmdlog.stats.skipped_commands += 1;
+        }
         if ((buffer->tail - buffer->head) >= CMDLOG_WRITE_SIZE) {
             do_cmdlog_flush_wakeup(); /* wake up flush thread */
         }
-- 
2.43.0


From 4388e7752ad9687fee62f58f5444e5a8b3d4d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 49/50] fix: commands logged just before cmdlog stop could be
 left out of the log

---
 cmdlog.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmdlog.c b/cmdlog.c
index 1fd789e..7cf55b8 100644
--- a/cmdlog.c
+++ b/cmdlog.c
@@ -143,6 +143,7 @@ static void *cmdlog_flush_thread(void *arg)
     int writelen;
     int nwritten;
     int nwtotal = 0;
+    bool in_use;
 
     while (!cmdlog.reqstop)
     {
@@ -158,6 +159,9 @@ static void *cmdlog_flush_thread(void *arg)
             cmdlog.stats.file_count++;
         }
 
+        /* check it before the tail: what was logged before the stop must be seen */
+        in_use = cmdlog_in_use;
+
         pthread_mutex_lock(&buffer->lock);
         cur_last = buffer->last;
         cur_tail = buffer->tail;
@@ -165,7 +169,7 @@ static void *cmdlog_flush_thread(void *arg)
 
         if (buffer->head <= cur_tail) {
             assert(cur_last == 0);
-            if (cmdlog_in_use) {
+            if (in_use) {
                 if ((cur_tail - buffer->head) < CMDLOG_WRITE_SIZE) {
                     do_cmdlog_flush_sleep(); /* flush thread sleeps 50ms. */
                     continue;
-- 
2.43.0


From 0e133cfd3fd60d05e19ca959bf712910a1493fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:33 +0000
Subject: [PATCH 50/50] fix: closing a connection in the middle of the keys of
 bop mget freed uninitialised element arrays

---
 memcached.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/memcached.c b/memcached.c
index f3cd8a7..6667584 100644
--- a/memcached.c
+++ b/memcached.c
@@ -6226,7 +6226,8 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
             bmget_count = req->message.body.key_count * req->message.body.req_count;
             elem_array_size = bmget_count * sizeof(eitem*);
 
-            need_size = elem_array_size;
+            need_size = req->message.body.key_count * sizeof(struct elems_result)
+                      + elem_array_size;
         }
 #endif
 #ifdef SUPPORT_BOP_SMGET
@@ -6288,6 +6289,12 @@ static void process_bin_bop_prepare_nread_keys(conn *c)
                 c->coll_rcount  = req->message.body.req_count;
                 c->coll_numkeys = req->message.body.key_count;
                 c->coll_lenkeys = vlen + 2;
+#ifdef SUPPORT_BOP_MGET
+                if (c->cmd == PROTOCOL_BINARY_CMD_BOP_MGET) {
+                    /* no elements yet: the connection might be closed before the keys are read */
+                    memset(elem, 0, c->coll_numkeys * sizeof(struct elems_result));
+                }
+#endif
             }
         }
     } while(0);
@@ -11957,6 +11964,12 @@ static void process_bop_prepare_nread_keys(conn *c, int cmd, uint32_t vlen, uint
         }
     }
     if (ret == ENGINE_SUCCESS) {
+#ifdef SUPPORT_BOP_MGET
+        if (cmd == OPERATION_BOP_MGET) {
+            /* no elements yet: the connection might be closed before the keys are read */
+            memset(elem, 0, c->coll_numkeys * sizeof(struct elems_result));
+        }
+#endif
         c->coll_strkeys = (void*)&c->memblist;
         ritem_set_first(c, CONN_RTYPE_MBLCK, vlen);
         c->coll_eitem  = (void *)elem;
-- 
2.43.0

