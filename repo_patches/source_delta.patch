From 12d35198d8ed9c47b09299b0972873d46c007ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 001/120] fix: vector of i64 with an i32 atom: read the atom as
 i32 and keep its null

(+ [1 2] 0Ni) added the raw 64-bit payload of a 32-bit atom, so a null i32
became an ordinary number instead of making the results null; same for - and *.
---
 core/math.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/math.c b/core/math.c
index 09cbee2..8d91af4 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-- 
2.43.0


From 568224b8bd7077275cfa674635b1995f563834f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 002/120] fix: sorting a one-element symbol vector returned an
 uninitialised index

optimized_sort returned I64(1) without storing the index, so (asc [b]) read
past the vector (garbage, null or a crash).
---
 core/sort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index a202a20..8e250ee 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -885,8 +885,12 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len <= 1) {
+        res = I64(len);
+        if (len == 1)
+            AS_I64(res)[0] = 0;
+        return res;
+    }
 
     // Small arrays: use insertion sort
     if (len <= 32) {
-- 
2.43.0


From 587404a9c79f475c82090e0624cc2818f2118cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 003/120] fix: symbol vectors of more than 32 elements sort by
 text, like shorter ones

The counting sort ordered symbols by interning id whenever the ids were
dense, so the order depended on the length and on what was interned before.
---
 core/sort.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/sort.c b/core/sort.c
index 8e250ee..975de30 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -918,7 +918,6 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     switch (vec->type) {
         case TYPE_I64:
         case TYPE_TIME:
-        case TYPE_SYMBOL:
             res = counting_sort_i64(vec, asc);
             if (res)
                 return res;
-- 
2.43.0


From 83f02dd99e576c2fe8bb5971348d543fb396e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 004/120] fix: an element of a byte vector is a byte, not a
 boolean

(first [0x01 0x07]), (at v i) and everything built on at_idx returned b8 for
byte vectors, losing the value.
---
 core/rayforce.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..3317188 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -765,12 +765,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
-- 
2.43.0


From 7235d9bad2058ce7bd2b9863608ce470e95d312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 005/120] fix: neg of a null in an i16/i32 vector is null

The null was widened as an ordinary number (0Ni became 2147483648).
---
 core/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index ba35120..e9c3387 100644
--- a/core/order.c
+++ b/core/order.c
@@ -469,13 +469,13 @@ obj_p ray_neg(obj_p x) {
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I16(x)[i];
+                AS_I64(res)[i] = -i16_to_i64(AS_I16(x)[i]);
             return res;
         case TYPE_I32:
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I32(x)[i];
+                AS_I64(res)[i] = -i32_to_i64(AS_I32(x)[i]);
             return res;
         case TYPE_I64:
             l = x->len;
-- 
2.43.0


From f2126eb48010360cc86a0de14d5889e7782b4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 006/120] fix: hash tables of integer keys index out of bounds
 for negative keys

---
 core/hash.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..bd0d01b 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (i64_t)((u64_t)key % (u64_t)size);
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (i64_t)((u64_t)key % (u64_t)size);
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
-- 
2.43.0


From a7363cdb545eac514a2a7a8d5d6471cd0b6e5a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 007/120] fix: like: backtrack to the last star when the
 pattern ends before the string

---
 core/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..91ea188 100644
--- a/core/string.c
+++ b/core/string.c
@@ -497,8 +497,14 @@ b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
     i64_t last_star_str_pos = 0;         // Track corresponding string position
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
+        if (pat_pos >= pat_len) {
+            // Pattern exhausted before the string - backtrack to last '*' if possible
+            if (last_star_pat_pos == NULL_I64)
+                return B8_FALSE;
+            pat_pos = last_star_pat_pos + 1;
+            str_pos = ++last_star_str_pos;
+            continue;
+        }
 
         switch (pat[pat_pos]) {
             case '*':
-- 
2.43.0


From 46a1f6cb45db7f75bc9c0135dae0f3f1f28f1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 008/120] fix: null integer keys: grouping, distinct and find;
 parallel grouping numbers groups by first row

---
 core/index.c | 93 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 18 deletions(-)

diff --git a/core/index.c b/core/index.c
index 4d27587..cf11897 100644
--- a/core/index.c
+++ b/core/index.c
@@ -431,6 +431,9 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
+    // The range of values spread over more than half of the i64 domain (such as any with nulls) doesn't fit i64
+    if ((u64_t)max - (u64_t)min >= (u64_t)INF_I64)
+        return (index_scope_t){min, max, INF_I64};
     return (index_scope_t){min, max, (i64_t)(max - min + 1)};
 }
 
@@ -1506,7 +1509,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t min, max, val, *d, *r;
+    i64_t min, max, val, *d, *r, nl = NULL_I64;
     obj_p vec, dict;
 
     if (xl == 0)
@@ -1527,7 +1530,7 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         return vec;
     }
 
-    range = max - min + 1;
+    range = ((u64_t)max - (u64_t)min >= (u64_t)MAX_RANGE) ? INF_I64 : max - min + 1;
 
     if (range <= MAX_RANGE) {
         dict = I64(range);
@@ -1556,6 +1559,11 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
+        if (x[i] == NULL_I64) {
+            if (nl == NULL_I64)
+                nl = i;
+            continue;
+        }
         val = ht_oa_tab_next(&dict, x[i]);
         if (AS_I64(AS_LIST(dict)[0])[val] == NULL_I64) {
             AS_I64(AS_LIST(dict)[0])[val] = x[i];
@@ -1564,6 +1572,10 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     for (i = 0; i < yl; i++) {
+        if (y[i] == NULL_I64) {
+            r[i] = nl;
+            continue;
+        }
         val = ht_oa_tab_get(dict, y[i]);
         r[i] = val == NULL_I64 ? NULL_I64 : AS_I64(AS_LIST(dict)[1])[val];
     }
@@ -1704,6 +1716,7 @@ typedef struct __group_chunk_ctx_t {
     i64_t *filter;
     i64_t *out;
     i64_t *local_groups;  // per-chunk group count
+    i64_t *local_nulls;   // per-chunk group ID of the null key (NULL_I64 if there is none)
     hash_f hash;
     cmp_f cmp;
     obj_p *local_hts;   // per-chunk hash tables
@@ -1712,7 +1725,7 @@ typedef struct __group_chunk_ctx_t {
 
 // Phase 1: Each chunk builds its own local hash table and assigns local group IDs
 obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx) {
-    i64_t i, idx, n, groups;
+    i64_t i, idx, n, groups, nl = NULL_I64;
     i64_t *k, *v, *keys, *filter, *out;
     obj_p ht;
     hash_f hash;
@@ -1730,6 +1743,13 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     if (filter) {
         for (i = offset; i < offset + len; i++) {
             n = keys[filter[i]];
+            // null marks the empty slots of the table
+            if (n == NULL_I64) {
+                if (nl == NULL_I64)
+                    nl = groups++;
+                out[i] = nl;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1744,6 +1764,13 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
     } else {
         for (i = offset; i < offset + len; i++) {
             n = keys[i];
+            // null marks the empty slots of the table
+            if (n == NULL_I64) {
+                if (nl == NULL_I64)
+                    nl = groups++;
+                out[i] = nl;
+                continue;
+            }
             idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
             k = AS_I64(AS_LIST(ht)[0]);
             v = AS_I64(AS_LIST(ht)[1]);
@@ -1759,6 +1786,7 @@ obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx)
 
     i64_t chunk_idx = offset / ctx->chunk_size;
     ctx->local_groups[chunk_idx] = groups;
+    ctx->local_nulls[chunk_idx] = nl;
     ctx->local_hts[chunk_idx] = ht;
 
     return NULL_OBJ;
@@ -1776,8 +1804,8 @@ obj_p index_group_chunk_remap(i64_t len, i64_t offset, i64_t *out, i64_t *remap)
 
 i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t len, hash_f hash, cmp_f cmp) {
     i64_t i, j, parts, groups, chunk, last_chunk;
-    i64_t idx, n, *k, *v, *remap;
-    i64_t offsets[32], local_groups[32];  // Support up to 32 chunks
+    i64_t idx, n, nl = NULL_I64, *k, *v, *remap, *firsts;
+    i64_t offsets[32], local_groups[32], local_nulls[32];  // Support up to 32 chunks
     obj_p local_hts[32];
     pool_p pool;
     obj_p ht, merged_ht, res;
@@ -1794,6 +1822,13 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         if (filter) {
             for (i = 0; i < len; i++) {
                 n = keys[filter[i]];
+                // null marks the empty slots of the table
+                if (n == NULL_I64) {
+                    if (nl == NULL_I64)
+                        nl = groups++;
+                    out[i] = nl;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1808,6 +1843,13 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         } else {
             for (i = 0; i < len; i++) {
                 n = keys[i];
+                // null marks the empty slots of the table
+                if (n == NULL_I64) {
+                    if (nl == NULL_I64)
+                        nl = groups++;
+                    out[i] = nl;
+                    continue;
+                }
                 idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
                 k = AS_I64(AS_LIST(ht)[0]);
                 v = AS_I64(AS_LIST(ht)[1]);
@@ -1838,6 +1880,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     ctx.filter = filter;
     ctx.out = out;
     ctx.local_groups = local_groups;
+    ctx.local_nulls = local_nulls;
     ctx.hash = hash;
     ctx.cmp = cmp;
     ctx.local_hts = local_hts;
@@ -1846,6 +1889,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // Initialize
     for (i = 0; i < parts; i++) {
         local_groups[i] = 0;
+        local_nulls[i] = NULL_I64;
         local_hts[i] = NULL_OBJ;
         offsets[i] = i * chunk;
     }
@@ -1876,25 +1920,38 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         // Create remap array for this chunk's local IDs -> global IDs
         remap = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
 
-        for (j = 0; j < ht_len; j++) {
-            if (ht_keys[j] != NULL_I64) {
-                i64_t local_id = ht_vals[j];
-                n = ht_keys[j];
+        // Keys of this chunk by local ID: merged in the order of their first rows, so that the
+        // groups are numbered as in the single-threaded path
+        firsts = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
+        for (j = 0; j < ht_len; j++)
+            if (ht_keys[j] != NULL_I64)
+                firsts[ht_vals[j]] = ht_keys[j];
+
+        for (j = 0; j < local_groups[i]; j++) {
+            if (j == local_nulls[i]) {
+                if (nl == NULL_I64)
+                    nl = groups++;
+                remap[j] = nl;
+                continue;
+            }
 
-                // Check if this key exists in merged table
-                idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(merged_ht)[0]);
-                v = AS_I64(AS_LIST(merged_ht)[1]);
+            n = firsts[j];
 
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
+            // Check if this key exists in merged table
+            idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
+            k = AS_I64(AS_LIST(merged_ht)[0]);
+            v = AS_I64(AS_LIST(merged_ht)[1]);
 
-                remap[local_id] = v[idx];
+            if (k[idx] == NULL_I64) {
+                k[idx] = n;
+                v[idx] = groups++;
             }
+
+            remap[j] = v[idx];
         }
 
+        heap_free(firsts);
+
         // Remap this chunk's output values
         i64_t chunk_start = offsets[i];
         i64_t chunk_len = (i < parts - 1) ? chunk : last_chunk;
-- 
2.43.0


From 1f18ccf387a66223f6cc398c32a943484d0c3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 009/120] fix: mapping an operation over a list wrote into the
 elements of that list

---
 core/iter.c | 139 +++++++++++++++++++++++-----------------------------
 1 file changed, 62 insertions(+), 77 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 2630c6f..00c07cb 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -53,8 +53,11 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
             if (l == 0)
                 return NULL_OBJ;
 
+            // hold each element: an operation may reuse the buffer of an argument it's the only owner of
             v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
+            a = clone_obj(v[0]);
+            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+            drop_obj(a);
 
             if (IS_ERR(item))
                 return item;
@@ -63,7 +66,9 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
             ins_obj(&res, 0, item);
 
             for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
+                a = clone_obj(v[i]);
+                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+                drop_obj(a);
                 if (IS_ERR(item)) {
                     res->len = i;
                     drop_obj(res);
@@ -108,12 +113,14 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
 
 obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end) {
     i64_t i, l = end - start;
-    obj_p res, item;
+    obj_p res, item, a;
 
     if (l == 0)
         return NULL_OBJ;
 
-    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start]) : fn(v[start]);
+    a = clone_obj(v[start]);
+    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+    drop_obj(a);
     if (IS_ERR(item))
         return item;
 
@@ -121,7 +128,9 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     ins_obj(&res, 0, item);
 
     for (i = 1; i < l; i++) {
-        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start + i]) : fn(v[start + i]);
+        a = clone_obj(v[start + i]);
+        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+        drop_obj(a);
         if (IS_ERR(item)) {
             res->len = i;
             drop_obj(res);
@@ -307,14 +316,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = at_idx(x, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +331,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = at_idx(x, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +354,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +366,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +385,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +397,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -868,27 +869,23 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, v, x2);  // Use accumulated value as first argument
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -900,19 +897,17 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[1]);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
+                    x1 = at_idx(x[0], i);
                     v = binary_call(f, v, x1);  // Use accumulated value as first argument
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    drop_obj(x1);
 
                     if (IS_ERR(v))
                         return v;
@@ -924,19 +919,17 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[0]);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, v, x2);  // Use accumulated value as first argument
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -1242,14 +1235,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1258,14 +1249,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, x1, x2);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1284,10 +1273,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
@@ -1296,10 +1284,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
+                    x1 = at_idx(x[0], i);
                     v = binary_call(f, x1, v);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    drop_obj(x1);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1318,10 +1305,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1330,10 +1316,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, v, x2);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
-- 
2.43.0


From 63e768a550016c94f1b2eff13f84b909623168ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 010/120] fix: map over a variadic function, leaks of fold,
 crash of fold-left with a builtin

---
 core/iter.c | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 00c07cb..866c713 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -434,8 +434,12 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
 
     v = fn(x + n, n);
 
+    // cleanup stack
+    for (j = 0; j < n; j++)
+        drop_obj(vm_stack_pop());
+
     if (IS_ERR(v))
-        res = v;
+        return v;
 
     res = v->type < 0 ? vector(v->type, l) : LIST(l);
 
@@ -838,7 +842,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
 
 obj_p ray_fold(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    obj_p f, v, r, x1, x2;
     i8_t xt, yt;
 
     if (n < 2)
@@ -882,7 +886,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (i = 1; i < l; i++) {
                     x1 = at_idx(x[0], i);
                     x2 = at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
 
                     drop_obj(x1);
                     drop_obj(x2);
@@ -906,7 +912,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x1 = at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
                     drop_obj(x1);
 
                     if (IS_ERR(v))
@@ -928,7 +936,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x2 = at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
                     drop_obj(x2);
 
                     if (IS_ERR(v))
@@ -991,7 +1001,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[0], i);
                     vm_stack_push(x2);
 
@@ -1013,7 +1023,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[1], i);
                     vm_stack_push(x2);
 
@@ -1060,23 +1070,12 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
+                // Current element goes first, then the result of the previous iteration
                 x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                x2 = v;
+                v = binary_call(f, x1, x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1099,8 +1098,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 x1 = at_idx(x[0], i);
                 vm_stack_push(x1);
                 // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
+                vm_stack_push(v);
                 // Push all other arguments in between
                 for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
-- 
2.43.0


From 3a7ade800c56da425868140e7589b06e211a3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 011/120] fix: take of an empty collection divided by zero

---
 core/items.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..2a522bc 100644
--- a/core/items.c
+++ b/core/items.c
@@ -395,6 +395,9 @@ obj_p ray_filter(obj_p x, obj_p y) {
     }
 }
 
+// first index of a (cyclic) take of m of l elements
+#define TAKE_FROM(l, m, f) ((l) ? ((l) - (m) % (l)) * (f) : 0)
+
 obj_p ray_take(obj_p from, obj_p count) {
     i64_t i, j, f, l, m, n, size, start;
     obj_p k, s, v, res;
@@ -429,6 +432,10 @@ obj_p ray_take(obj_p from, obj_p count) {
         }
     }
 
+    // nothing to repeat
+    if (!is_range && !IS_ATOM(from) && from->type != TYPE_TABLE && ops_count(from) == 0)
+        m = 0;
+
     switch (from->type) {
         case TYPE_B8:
         case TYPE_U8:
@@ -448,7 +455,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_U8(res)[i] = AS_U8(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     AS_U8(res)[i] = AS_U8(from)[j % l];
             }
             return res;
@@ -477,7 +484,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I16(res)[i] = AS_I16(from)[start + i];
             } else {
                 res = I16(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     AS_I16(res)[i] = AS_I16(from)[j % l];
             }
             return res;
@@ -506,7 +513,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I32(res)[i] = AS_I32(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     AS_I32(res)[i] = AS_I32(from)[j % l];
             }
             return res;
@@ -538,7 +545,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     AS_I64(res)[i] = AS_I64(from)[j % l];
             }
             return res;
@@ -568,7 +575,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
             } else {
                 res = GUID(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[j % l], sizeof(guid_t));
             }
             return res;
@@ -597,7 +604,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
                 }
             } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++) {
                     push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
                     push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
                 }
@@ -624,7 +631,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                 }
             } else {
                 res = I64(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
@@ -672,7 +679,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     }
                 }
             } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++) {
                     if (AS_I64(s)[j % l] >= (i64_t)n) {
                         buf = AS_U8(k) + AS_I64(s)[j % l];
                         v = de_raw(buf, &size);
@@ -707,7 +714,7 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
             } else {
                 res = vector(TYPE_LIST, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[j % l]);
             }
             return res;
-- 
2.43.0


From 743c0c3d9a6bb33e87c6ef67919056addda43fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 012/120] fix: table accepted an empty column beside longer
 ones

---
 core/compose.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..ad6297d 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -216,7 +216,7 @@ obj_p ray_dict(obj_p x, obj_p y) {
 
 obj_p ray_table(obj_p x, obj_p y) {
     b8_t synergy = B8_TRUE;
-    i64_t i, j, len, cl = 0;
+    i64_t i, j, len, cl = -1;
     obj_p lst, c, l = NULL_OBJ;
 
     if (x->type != TYPE_SYMBOL)
@@ -271,7 +271,7 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl != 0 && j != cl)
+                if (cl >= 0 && j != cl)
                     return err_length(0, 0, 0, 0, 0, 0);
 
                 cl = j;
@@ -279,14 +279,14 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl != 0 && j != cl)
+                if (cl >= 0 && j != cl)
                     return err_length(0, 0, 0, 0, 0, 0);
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 j = AS_LIST(AS_LIST(y)[i])[0]->len;
-                if (cl != 0 && j != cl)
+                if (cl >= 0 && j != cl)
                     return err_length(0, 0, 0, 0, 0, 0);
                 break;
             default:
@@ -303,7 +303,7 @@ obj_p ray_table(obj_p x, obj_p y) {
     // otherwise we need to expand atoms to vectors
     lst = vector(TYPE_LIST, len);
 
-    if (cl == 0)
+    if (cl < 0)
         cl = 1;
 
     for (i = 0; i < len; i++) {
-- 
2.43.0


From 285c47bfa40b06803f20dc2b83c67445b3dd4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 013/120] fix: in/except: the set was written through its
 address before it grew

---
 core/index.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/index.c b/core/index.c
index cf11897..b307a82 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1135,10 +1135,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     set = ht_oa_create(xl, -1);
 
     for (i = 0; i < yl; i++)
-        if (y[i] == NULL_I64)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)NULL_I32)] = (i64_t)NULL_I32;
-        else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        if (y[i] == NULL_I64) {
+            val = ht_oa_tab_next(&set, (i64_t)NULL_I32);
+            AS_I64(AS_LIST(set)[0])[val] = (i64_t)NULL_I32;
+        } else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32) {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
 
     for (i = 0; i < xl; i++)
         r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
@@ -1275,8 +1278,10 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     // otherwise, use a hash table
     set = ht_oa_create(xl, -1);
 
-    for (i = 0; i < yl; i++)
-        AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)y[i])] = (i64_t)y[i];
+    for (i = 0; i < yl; i++) {
+        val = ht_oa_tab_next(&set, (i64_t)y[i]);
+        AS_I64(AS_LIST(set)[0])[val] = (i64_t)y[i];
+    }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1349,8 +1354,10 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     for (i = 0; i < yl; i++)
         if (y[i] == NULL_I64)
             nl = B8_TRUE;
-        else
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+        else {
+            val = ht_oa_tab_next(&set, y[i]);
+            AS_I64(AS_LIST(set)[0])[val] = y[i];
+        }
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
-- 
2.43.0


From 6d756465f118b760ca7a85bcd9ac33c99f536982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 014/120] fix: and/or wrote their result into their operand;
 parallel and/or with a scalar read past it

---
 core/logic.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..1cb146a 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -51,7 +51,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -78,13 +78,42 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
     return NULL_OBJ;
 }
 
+// A mask this operation may write to: the operand itself when nobody else refers to it, else a copy
+static obj_p mask_own(obj_p x) {
+    i64_t i, l;
+    obj_p res;
+
+    if (rc_obj(x) == 1)
+        return x;
+
+    switch (x->type) {
+        case -TYPE_B8:
+        case TYPE_B8:
+            res = copy_obj(x);
+            break;
+        case TYPE_PARTEDB8:
+            l = x->len;
+            res = LIST(l);
+            res->type = TYPE_PARTEDB8;
+            for (i = 0; i < l; i++)
+                AS_LIST(res)[i] = (AS_LIST(x)[i] == NULL_OBJ) ? NULL_OBJ : copy_obj(AS_LIST(x)[i]);
+            break;
+        default:
+            return x;
+    }
+
+    drop_obj(x);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -100,6 +129,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     if (IS_ERR(res) || n == 1)
         return res;
 
+    res = mask_own(res);
+
     // Process remaining expressions
     for (i = 1; i < n; i++) {
         next = eval(x[i]);
@@ -185,11 +216,12 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(-TYPE_B8, TYPE_B8):
                 v = res;
-                res = next;
+                res = mask_own(next);
                 next = v;
                 goto va;
 
             case MTYPE2(TYPE_PARTEDB8, TYPE_PARTEDB8):
+                next = mask_own(next);
                 // Combine two parted booleans - result is TYPE_PARTEDB8
                 // Each element: NULL_OBJ (no match), b8(TRUE) (all match), or B8 vector
                 l = res->len;
-- 
2.43.0


From c3b60027390f10bd53649a742c5f936b35f98175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 015/120] fix: copying a date or time vector failed

---
 core/rayforce.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 3317188..1b84e72 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2978,6 +2978,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 2e849ce987cc9d5a9a3db8aea23385dc7ae0ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 016/120] fix: alter/upsert turned vectors of b8, u8, i16, i32,
 date and time into lists

---
 core/rayforce.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 1b84e72..b077a0b 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1419,7 +1419,19 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
             drop_obj(val);
             return *obj;
         case MTYPE2(TYPE_C8, -TYPE_C8):
-            AS_C8(*obj)[idx] = val->c8;
+        case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+            AS_U8(*obj)[idx] = val->u8;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I16, -TYPE_I16):
+            AS_I16(*obj)[idx] = val->i16;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
+            AS_I32(*obj)[idx] = val->i32;
             drop_obj(val);
             return *obj;
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
@@ -1501,6 +1513,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 AS_C8(*obj)[ids[i]] = AS_C8(vals)[i];
             drop_obj(vals);
             return *obj;
+        case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_U8, TYPE_U8):
             for (i = 0; i < len; i++)
                 AS_U8(*obj)[ids[i]] = AS_U8(vals)[i];
@@ -1787,6 +1800,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
         case MTYPE2(TYPE_F64, -TYPE_I64):
         case MTYPE2(TYPE_C8, -TYPE_I64):
+        case MTYPE2(TYPE_B8, -TYPE_I64):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_I64):
+        case MTYPE2(TYPE_DATE, -TYPE_I64):
+        case MTYPE2(TYPE_TIME, -TYPE_I64):
         case MTYPE2(TYPE_LIST, -TYPE_I64):
         case MTYPE2(TYPE_GUID, -TYPE_I64):
             if (idx->i64 < 0 || idx->i64 >= (i64_t)(*obj)->len) {
@@ -1799,6 +1818,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_C8, TYPE_I64):
+        case MTYPE2(TYPE_B8, TYPE_I64):
+        case MTYPE2(TYPE_U8, TYPE_I64):
+        case MTYPE2(TYPE_I16, TYPE_I64):
+        case MTYPE2(TYPE_I32, TYPE_I64):
+        case MTYPE2(TYPE_DATE, TYPE_I64):
+        case MTYPE2(TYPE_TIME, TYPE_I64):
         case MTYPE2(TYPE_GUID, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
             if (IS_VECTOR(val) && idx->len != val->len) {
-- 
2.43.0


From 9597b4cc310ccecb9bebaf1f085e131dec6fa01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 017/120] fix: sum by group returned null for a group with a
 null value

---
 core/aggr.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..a518742 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -1081,21 +1081,21 @@ obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = ADDI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = ADDI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = ADDF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = ADDI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
@@ -1115,7 +1115,7 @@ obj_p aggr_sum(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, i16, i16, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]));
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -1123,27 +1123,27 @@ obj_p aggr_sum(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i64, i64, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = ADDF64($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, f64, f64, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = ADDI32($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i32, i32, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = ADDI16($out[$y], $in[$x]));
+            return PARTED_MAP(n, val, index, (raw_p)aggr_sum_partial, i16, i16, $out[$y] = FOLD_ADDI16($out[$y], $in[$x]));
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From 9f89a6f8ee7ca2afedefc23b105d841a703cefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 018/120] fix: min by group returned infinity for a group with
 no values

---
 core/aggr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index a518742..a75746c 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -1238,21 +1238,21 @@ obj_p aggr_min_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = INF_I16, $out[$y] = MINI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = NULL_I16, $out[$y] = MINI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
         case TYPE_TIMESTAMP:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = INF_I64, $out[$y] = MINI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64, $out[$y] = MINI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = INF_F64, $out[$y] = MINF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MINF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_TIME:
         case TYPE_DATE:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = INF_I32, $out[$y] = MINI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MINI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
-- 
2.43.0


From 7ab9ae032b161b47b3f687fe55375d311f6a8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 019/120] fix: last by group took the value from the first
 chunk of a large table and the first partition of a parted one

---
 core/aggr.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index a75746c..68444ce 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -906,7 +906,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i16, i16, if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -916,7 +916,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i32, i32, if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -927,7 +927,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
@@ -958,7 +958,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, f64, f64, if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
             drop_obj(parts);
             return res;
         case TYPE_GUID:
@@ -966,7 +966,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                    memcpy($out[$y], $in[$x], sizeof(guid_t)));
             drop_obj(parts);
             return res;
@@ -974,7 +974,10 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            res = AGGR_COLLECT(parts, n, list, list, if ($in[$x] != NULL_OBJ) {
+                drop_obj($out[$y]);
+                $out[$y] = clone_obj($in[$x]);
+            });
             drop_obj(parts);
             return res;
         case TYPE_PARTEDLIST:
@@ -1054,22 +1057,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From 71ec75c63cf7ef7a4896b1aa6ef65d2e0ce930eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 020/120] fix: select by several columns ignored the where
 clause

---
 core/index.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/index.c b/core/index.c
index b307a82..4e94baa 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2337,7 +2337,7 @@ obj_p index_group_list_perfect_partial(i64_t len, i64_t offset, __perfect_hash_c
                         break;
                 }
             }
-            out[j] = key;
+            out[row] = key;
         }
     } else {
         for (j = offset; j < offset + len; j++) {
@@ -2451,7 +2451,8 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     scope.range = scope.max + 1;
 
-    ht = I64(len);
+    // Keys are stored by row, so that the groups can be looked up through the filter
+    ht = I64(values[0]->len);
     xo = AS_I64(ht);
 
     // Parallel combined key computation - single pass over all columns
@@ -2481,7 +2482,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     }
 
     heap_free(scopes);
-    res = index_group_i64_scoped(ht, NULL_OBJ, scope);
+    res = index_group_i64_scoped(ht, filter, scope);
     drop_obj(ht);
 
     return res;
-- 
2.43.0


From b57e86415d07a0f65f517d406bc4dc4ba18b6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 021/120] fix: select by several columns of no rows divided by
 zero

---
 core/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/index.c b/core/index.c
index 4e94baa..bdcad14 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2389,6 +2389,10 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     indices = is_null(filter) ? NULL : AS_I64(filter);
     len = indices ? filter->len : values[0]->len;
 
+    // Nothing to take the scopes of
+    if (len == 0)
+        return NULL_OBJ;
+
     // First, check if columns types are suitable for perfect hashing
     for (i = 0; i < l; i++) {
         switch (values[i]->type) {
-- 
2.43.0


From fefad260610531c6b1a26ee3673f2ca6159189d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 022/120] fix: med and dev by group or with where returned
 null, and med counted nulls as values

---
 core/math.c | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/core/math.c b/core/math.c
index 8d91af4..61b3de6 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2528,11 +2528,26 @@ obj_p ray_avg(obj_p x) {
     }
 }
 
+// An argument of an aggregation, that is yet to be collected
+#define IS_LAZY_AGGR(x)                                           \
+    ((x)->type == TYPE_MAPGROUP || (x)->type == TYPE_MAPFILTER || \
+     ((x)->type >= TYPE_PARTEDLIST && (x)->type <= TYPE_PARTEDGUID))
+
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
-    if (l == 0)
-        return f64(NULL_F64);
+    i64_t l = 0, nulls = 0;
+
+    // Groups, filters and parted vectors are counted by their own aggregations below
+    if (!IS_LAZY_AGGR(x)) {
+        obj_p cnt_obj = ray_cnt(x);
+        l = cnt_obj->i64;
+        drop_obj(cnt_obj);
+        if (l == 0)
+            return f64(NULL_F64);
+        // Nulls are sorted before the values
+        if (!IS_ATOM(x))
+            nulls = x->len - l;
+    }
 
     // i32_t *xi32sort;
     i64_t *xisort;
@@ -2563,7 +2578,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I16:
             sort = ray_asc(x);
-            xi16sort = AS_I16(sort);
+            xi16sort = AS_I16(sort) + nulls;
             med = (f64_t)((l % 2 == 0) ? (xi16sort[l / 2 - 1] + xi16sort[l / 2]) / 2.0 : xi16sort[l / 2]);
             drop_obj(sort);
             return f64(med);
@@ -2579,7 +2594,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I64:
             sort = ray_asc(x);
-            xisort = AS_I64(sort);
+            xisort = AS_I64(sort) + nulls;
             med = (f64_t)((l % 2 == 0) ? (xisort[l / 2 - 1] + xisort[l / 2]) / 2.0 : xisort[l / 2]);
             drop_obj(sort);
 
@@ -2629,14 +2644,19 @@ obj_p ray_med(obj_p x) {
 }
 
 obj_p ray_dev(obj_p x) {
-    obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
-    drop_obj(cnt_obj);
-
-    if (l == 0)
-        return f64(NULL_F64);
-    else if (l == 1)
-        return f64(0.0);
+    i64_t l = 0;
+
+    if (!IS_LAZY_AGGR(x)) {
+        obj_p cnt_obj = ray_cnt(x);
+        l = cnt_obj->i64;
+        drop_obj(cnt_obj);
+
+        if (l == 0)
+            return f64(NULL_F64);
+        else if (l == 1)
+            return f64(0.0);
+    }
+
     f64_t favg = 0.0;
     obj_p sum_obj;
 
-- 
2.43.0


From 6d9604b3a6094d9d27e81d8978a3b231b3e97e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 023/120] fix: med by group counted nulls as values

---
 core/aggr.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 68444ce..9e19f87 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -2160,10 +2160,15 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
         switch (grp->type) {
             case TYPE_I64:
             case TYPE_TIMESTAMP: {
-                i64_t mid = l / 2;
                 sorted = ray_asc(grp);
                 xisort = AS_I64(sorted);
-                if (l % 2 == 0)
+                // Nulls are sorted before the values
+                for (; l > 0 && xisort[0] == NULL_I64; l--)
+                    xisort++;
+                i64_t mid = l / 2;
+                if (l == 0)
+                    med = NULL_F64;
+                else if (l % 2 == 0)
                     med = ((f64_t)xisort[mid - 1] + (f64_t)xisort[mid]) / 2.0;
                 else
                     med = (f64_t)xisort[mid];
@@ -2172,10 +2177,15 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
                 break;
             }
             case TYPE_F64: {
-                i64_t mid = l / 2;
                 sorted = ray_asc(grp);
                 xfsort = AS_F64(sorted);
-                if (l % 2 == 0)
+                // Nulls are sorted before the values
+                for (; l > 0 && ISNANF64(xfsort[0]); l--)
+                    xfsort++;
+                i64_t mid = l / 2;
+                if (l == 0)
+                    med = NULL_F64;
+                else if (l % 2 == 0)
                     med = (xfsort[mid - 1] + xfsort[mid]) / 2.0;
                 else
                     med = xfsort[mid];
-- 
2.43.0


From efb142f5ae719ab5de51285662699b467c8a7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 024/120] fix: grouping and joining by several columns panicked
 on an i16 column

---
 core/index.c | 10 ++++++++++
 core/ops.c   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/core/index.c b/core/index.c
index bdcad14..5d4ca44 100644
--- a/core/index.c
+++ b/core/index.c
@@ -106,6 +106,7 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
 
 obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len, i64_t offset, b8_t resolve) {
     u8_t *u8v;
+    i16_t *i16v;
     i32_t *i32v;
     guid_t *g64v;
     i64_t i, *u64v;
@@ -140,6 +141,15 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 for (i = offset; i < len + offset; i++)
                     out[i] = hash_index_u64((i64_t)u8v[i], out[i]);
             break;
+        case TYPE_I16:
+            i16v = AS_I16(obj);
+            if (filter)
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)i16v[filter[i]], out[i]);
+            else
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)i16v[i], out[i]);
+            break;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
diff --git a/core/ops.c b/core/ops.c
index a859406..2ca00d2 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -118,6 +118,8 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_C8, TYPE_C8):
             return AS_U8(a)[ai] == AS_U8(b)[bi];
+        case MTYPE2(TYPE_I16, TYPE_I16):
+            return AS_I16(a)[ai] == AS_I16(b)[bi];
         case MTYPE2(TYPE_I32, TYPE_I32):
         case MTYPE2(TYPE_DATE, TYPE_DATE):
         case MTYPE2(TYPE_TIME, TYPE_TIME):
-- 
2.43.0


From c727042d59b724438ad69481ab57d595447637f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 025/120] fix: med by group and window joins of no rows divided
 by zero

---
 core/aggr.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 9e19f87..467fdbe 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -339,9 +339,11 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
     res = vector(outype, out_len);
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -351,9 +353,6 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2216,7 +2215,7 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
 
     res = F64(n);
 
-    if (l == 1) {
+    if (l <= 1) {
         argv[0] = (raw_p)n;
         argv[1] = (raw_p)0;
         argv[2] = collected;
-- 
2.43.0


From 5208ff57c9d5ad62ea8137866bf8c315451423ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 026/120] fix: grouping by several columns overflowed on a null
 key

---
 core/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/index.c b/core/index.c
index 5d4ca44..967002c 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2446,7 +2446,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     // Use signed max to avoid overflow in scope.range (which is i64_t)
     for (i = 0, product = 1, scope = (index_scope_t){0, 0, 0}; i < l; i++) {
         // Check for overflow - product must stay within signed i64 range
-        if (product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
+        if (scopes[i].range == INF_I64 || product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
             heap_free(scopes);
             return NULL_OBJ;  // Overflow would occur
         }
-- 
2.43.0


From cddf0ebcc9faa24dc9bff0ddf0b4e134a1f4e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 027/120] fix: update refused an i16, i32, date or time atom
 for a whole column

---
 core/rayforce.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index b077a0b..c396949 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1602,6 +1602,24 @@ obj_p __expand(obj_p obj, i64_t len) {
 
             drop_obj(obj);
 
+            return res;
+        case -TYPE_I16:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I16(res)[i] = obj->i16;
+
+            drop_obj(obj);
+
+            return res;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I32(res)[i] = obj->i32;
+
+            drop_obj(obj);
+
             return res;
         case -TYPE_I64:
         case -TYPE_SYMBOL:
-- 
2.43.0


From f91f085793a7ae0f880c422b203ac8fadb2bf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 028/120] fix: null vectors of i16, i32, date and time were
 filled with zeros

---
 core/rayforce.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index c396949..1d02b7d 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -127,6 +127,16 @@ obj_p nullv(i8_t type, i64_t len) {
             for (i = 0; i < len; i++)
                 AS_I64(vec)[i] = NULL_I64;
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_F64:
             for (i = 0; i < len; i++)
                 AS_F64(vec)[i] = NULL_F64;
-- 
2.43.0


From 0d4f93b8f0565099fcd5fad86e6d7f3aa8603863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 029/120] fix: update by something other than one key per row
 crashed

---
 core/update.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/update.c b/core/update.c
index 4faccdd..d8e38bd 100644
--- a/core/update.c
+++ b/core/update.c
@@ -1019,6 +1019,16 @@ obj_p ray_update(obj_p obj) {
             goto cleanup;
         }
 
+        // One key column: a value per row of the table
+        if (!IS_VECTOR(groupby)) {
+            res = err_type(TYPE_LIST, groupby->type, 0, 0);
+            goto cleanup;
+        }
+        if (ops_count(groupby) != ops_count(tab)) {
+            res = err_length(ops_count(tab), ops_count(groupby), 0, 0, 0, 0);
+            goto cleanup;
+        }
+
         bins = index_group(groupby, filters);
         prm = group_map(tab, bins);
         drop_obj(bins);
-- 
2.43.0


From 3ec54fab6796ca4af16515360405548d6f74c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 030/120] fix: changing a table or dictionary in place changed
 the lists it shares with other values

---
 core/rayforce.c | 21 +++++++++++++++++++++
 core/rayforce.h |  1 +
 core/update.c   | 18 +++++++++++++++++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 1d02b7d..f8c2409 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1775,6 +1775,8 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
     i64_t i;
     obj_p ids, res;
 
+    own_parts(*obj);
+
     switch (idx->type) {
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1873,6 +1875,7 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             val = __expand(val, ops_count(*obj));
             if (IS_ERR(val))
                 return val;
+            own_parts(*obj);
             j = find_obj_idx(AS_LIST(*obj)[0], idx);
             if (j == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
@@ -1920,6 +1923,7 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
             drop_obj(val);
             val = v;
+            own_parts(*obj);
 
             for (i = 0; i < l; i++) {
                 id = find_raw(AS_LIST(*obj)[0], &AS_SYMBOL(idx)[i]);
@@ -2119,6 +2123,8 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
             if (i == NULL_I64)
                 return *obj;
 
+            own_parts(*obj);
+
             v = remove_idx(&AS_LIST(*obj)[0], i);
 
             if (IS_ERR(v))
@@ -2135,6 +2141,8 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
                 if (j == NULL_I64)
                     return *obj;
 
+                own_parts(*obj);
+
                 v = remove_idx(&AS_LIST(*obj)[0], j);
                 if (IS_ERR(v))
                     return v;
@@ -3085,6 +3093,19 @@ obj_p cow_obj(obj_p obj) {
     return copy_obj(obj);
 }
 
+nil_t own_parts(obj_p obj) {
+    i64_t i;
+    obj_p v;
+
+    for (i = 0; i < 2; i++) {
+        v = cow_obj(AS_LIST(obj)[i]);
+        if (v != AS_LIST(obj)[i]) {
+            drop_obj(AS_LIST(obj)[i]);
+            AS_LIST(obj)[i] = v;
+        }
+    }
+}
+
 u32_t rc_obj(obj_p obj) {
     if (LIKELY(!VM->rc_sync))
         return obj->rc;
diff --git a/core/rayforce.h b/core/rayforce.h
index c1c4e1c..93b79c1 100644
--- a/core/rayforce.h
+++ b/core/rayforce.h
@@ -182,6 +182,7 @@ extern obj_p dict(obj_p keys, obj_p vals);   // dict
 extern obj_p clone_obj(obj_p obj);  // clone_obj
 extern obj_p copy_obj(obj_p obj);   // copy
 extern obj_p cow_obj(obj_p obj);    // copy-on-write
+extern nil_t own_parts(obj_p obj);  // copy-on-write of both parts of a table or dict
 extern u32_t rc_obj(obj_p obj);     // get refcount
 
 // Destructors
diff --git a/core/update.c b/core/update.c
index d8e38bd..6b396ab 100644
--- a/core/update.c
+++ b/core/update.c
@@ -209,13 +209,24 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
+            if (idx->i64 < 0 || idx->i64 >= obj->len)
+                return NULL;
+
+            p = &AS_LIST(obj)[idx->i64];
+            v = cow_obj(*p);
+            if (v != *p) {
+                drop_obj(*p);
+                *p = v;
+            }
+
+            return p;
         default:
             if (obj->type == TYPE_DICT) {
                 j = find_obj_idx(AS_LIST(obj)[0], idx);
                 if (j == NULL_I64)
                     return NULL;
                 else {
+                    own_parts(obj);
                     if (AS_LIST(obj)[1]->type != TYPE_LIST)
                         diverse_obj(AS_LIST(obj) + 1);
 
@@ -429,6 +440,8 @@ obj_p ray_insert(obj_p *x, i64_t n) {
         UNCOW_OBJ(obj, val, original, res);
     }
 
+    own_parts(obj);
+
     // Check integrity of the table with the new object
     lst = x[1];
     lst_allocated = B8_FALSE;
@@ -578,6 +591,7 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
         return err_type(0, 0, 0, 0);
     }
 
+    own_parts(obj);
     p = AS_LIST(obj)[0]->len;
 
     lst = x[2];
@@ -776,6 +790,7 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
             return obj;
         }
 
+        own_parts(obj);
         l = keys->len;
 
         index = index_group(groupby, filters);
@@ -867,6 +882,7 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
             return obj;
         }
 
+        own_parts(obj);
         l = keys->len;
 
         // Check each column
-- 
2.43.0


From 7ad6a30106bc39a87aa4c279d12c322bc28b1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 031/120] fix: alter with concat at an index replaced the
 variable by the element

---
 core/update.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/update.c b/core/update.c
index 6b396ab..4e6d397 100644
--- a/core/update.c
+++ b/core/update.c
@@ -294,7 +294,9 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
         if (IS_ERR(*p))
             return *p;
 
-        return push_obj(p, clone_obj(val));
+        res = push_obj(p, clone_obj(val));
+
+        return IS_ERR(res) ? res : *obj;
     }
 
     // special case for remove
-- 
2.43.0


From 9a07467a5e7abcefd8a566219e9500bb8d9ebad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 032/120] fix: looking up wide-ranging i32 keys wrote past the
 end of its hash table

---
 core/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/index.c b/core/index.c
index 967002c..5c49e03 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1504,7 +1504,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    dict = ht_oa_create(xl, TYPE_I32);
+    dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
         val = ht_oa_tab_next(&dict, (i64_t)x[i]);
-- 
2.43.0


From 5145000238cc45ce626e33077a04e810b7e37b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 033/120] fix: group of a value it cannot group crashed

---
 core/compose.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index ad6297d..97bd203 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1072,9 +1072,21 @@ obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
     index = index_group(x, NULL_OBJ);
+    if (IS_ERR(index))
+        return index;
+
     v = aggr_row(x, index);
+    if (IS_ERR(v)) {
+        drop_obj(index);
+        return v;
+    }
+
     k = aggr_first(x, index);
     drop_obj(index);
+    if (IS_ERR(k)) {
+        drop_obj(v);
+        return k;
+    }
 
     return dict(k, v);
 }
-- 
2.43.0


From 118051eb32568bcf0f47cee0d19180f05f10cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 034/120] fix: upsert of one row missed or refused its key
 unless it was a single i64 or symbol

---
 core/update.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/update.c b/core/update.c
index 4e6d397..f9a3252 100644
--- a/core/update.c
+++ b/core/update.c
@@ -631,7 +631,7 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
             if (l == 0)
                 UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
-            if (l > p)
+            if (l > p || l < keys)
                 UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
 
             // Check if this is a single record (atoms) or multiple records (vectors)
@@ -644,12 +644,15 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
                 }
 
                 // Build key for lookup
+                // (one-row columns: the lookup compares columns)
                 if (keys == 1) {
                     k1 = at_idx(AS_LIST(obj)[1], 0);
-                    k2 = clone_obj(AS_LIST(lst)[0]);
+                    k2 = ray_enlist(AS_LIST(lst), 1);
                 } else {
                     k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                    k2 = ray_take(lst, x[1]);
+                    k2 = LIST(keys);
+                    for (i = 0; i < keys; i++)
+                        AS_LIST(k2)[i] = ray_enlist(AS_LIST(lst) + i, 1);
                 }
 
                 idx = index_upsert_obj(k2, k1, x[1]->i64);
-- 
2.43.0


From 8ae064835c2185c5c4aa7fc104bf354996681cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 035/120] fix: an error inside a function corrupted the call
 stack

---
 core/eval.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..263eab3 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -300,13 +300,9 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     ctx_t *rs;
     while (vm->rp > 0) {
         rs = &vm->rs[vm->rp - 1];
-        if (rs->ip == -1) {
-            // External call marker - stop unwinding
-            vm->rp--;
-            vm->fn = rs->fn;
-            vm->fp = rs->fp;
+        // External call marker - stop unwinding (call() pops it)
+        if (rs->ip == -1)
             break;
-        }
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
         vm->rp--;
@@ -671,7 +667,7 @@ obj_p call(obj_p fn, i64_t arity) {
     obj_p res;
     vm_p vm = VM;
     obj_p saved_fn = vm->fn;
-    i64_t saved_fp = vm->fp;
+    i64_t saved_fp = vm->fp, saved_sp = vm->sp;
     UNUSED(arity);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
@@ -691,6 +687,10 @@ obj_p call(obj_p fn, i64_t arity) {
     // Execute bytecode
     res = vm_eval(fn);
 
+    // Drop what an error left on the stack
+    while (vm->sp > saved_sp)
+        drop_obj(vm_stack_pop());
+
     // Pop frame and restore context
     vm->rp--;
     vm->fn = saved_fn;
@@ -783,8 +783,11 @@ static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval_arg(args[i], is_aggr);
-        if (IS_ERR(x))
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -809,13 +812,13 @@ static obj_p eval_lambda(obj_p fn, obj_p *args, i64_t len, i64_t id) {
         return unwrap(err_limit(VM_STACK_SIZE), id);
 
     for (i = 0; i < len; i++) {
-        x = eval(args[i]);
-        if (IS_ERR(x))
-            return x;
         // Materialize lazy values (MAPGROUP/MAPFILTER) for lambda arguments
-        x = collect_lazy(x);
-        if (IS_ERR(x))
+        x = eval_arg(args[i], B8_FALSE);
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
-- 
2.43.0


From 942c23239c235da9f2dc92033ba110eb31cd2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 036/120] fix: compiled code called functions with the wrong
 number of arguments

---
 core/cc.c   | 28 ++++++++++++++++++++--------
 core/eval.c |  6 ++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 460d1ed..225a3b5 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -267,17 +267,24 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     // Now emit call instruction based on function type
     switch (car->type) {
         case TYPE_UNARY:
-            if (n != 1)
-                return -1;
             LOADCONST(cc, clone_obj(car));
-            OP(cc, OP_CALL1);
+            if (n == 1) {
+                OP(cc, OP_CALL1);
+            } else {
+                // Wrong number of arguments - reported when called
+                OP(cc, OP_CALLD);
+                OP(cc, n);
+            }
             break;
 
         case TYPE_BINARY:
-            if (n != 2)
-                return -1;
             LOADCONST(cc, clone_obj(car));
-            OP(cc, OP_CALL2);
+            if (n == 2) {
+                OP(cc, OP_CALL2);
+            } else {
+                OP(cc, OP_CALLD);
+                OP(cc, n);
+            }
             break;
 
         case TYPE_VARY:
@@ -288,11 +295,16 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
 
         case TYPE_LAMBDA:
             LOADCONST(cc, clone_obj(car));
-            OP(cc, OP_CALLF);
+            if (n == AS_LAMBDA(car)->args->len) {
+                OP(cc, OP_CALLF);
+            } else {
+                OP(cc, OP_CALLD);
+                OP(cc, n);
+            }
             break;
 
         case -TYPE_SYMBOL:
-            if (car->i64 == SYMBOL_SELF) {
+            if (car->i64 == SYMBOL_SELF && n == cc->args->len) {
                 // Self-recursive call
                 OP(cc, OP_CALLS);
             } else {
diff --git a/core/eval.c b/core/eval.c
index 263eab3..19dfccf 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -574,6 +574,12 @@ OP_CALLD:
             push(r);
             break;
         case TYPE_LAMBDA:
+            if (UNLIKELY(n != AS_LAMBDA(x)->args->len)) {
+                r = err_length(AS_LAMBDA(x)->args->len, n, 0, 0, 0, 0);
+                drop_obj(x);
+                bc_error_add_loc(r, vm->fn, ip - 1);
+                return vm_error_unwind(vm, r);
+            }
             goto callf;
         default: {
             i8_t got = x->type;
-- 
2.43.0


From 8bb11e74aa7a3d4e7e6dcc0a1cc681a61d4ecf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 037/120] fix: a nested do in a function evaluated its value
 again

---
 core/cc.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 225a3b5..f384cc4 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -124,6 +124,7 @@ static i64_t cc_find_env(cc_ctx_t *cc, i64_t sym) {
 }
 
 static i64_t cc_expr(cc_ctx_t *cc, obj_p e);
+static i64_t cc_body(cc_ctx_t *cc, obj_p *lst, i64_t n);
 
 // Check if the function is a special form that needs control flow handling
 static b8_t is_cond_fn(obj_p car) {
@@ -131,6 +132,12 @@ static b8_t is_cond_fn(obj_p car) {
     return car->type == TYPE_VARY && (vary_f)car->i64 == ray_cond;
 }
 
+// Check if the function is 'do'
+static b8_t is_do_fn(obj_p car) {
+    extern obj_p ray_do(obj_p *, i64_t);
+    return car->type == TYPE_VARY && (vary_f)car->i64 == ray_do;
+}
+
 // Check if vary function is a special form that needs unevaluated arguments
 // Excludes control-flow forms (if, and, or) which need special compilation
 // Note: try is TYPE_BINARY, handled by is_binary_special_form
@@ -150,11 +157,6 @@ static b8_t is_vary_special_form(obj_p fn) {
 static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     i64_t j1, j2;
 
-    if (n < 2 || n > 3) {
-        LOADCONST(cc, NULL_OBJ);
-        return 0;
-    }
-
     // compile condition
     CE(cc_expr(cc, lst[0]));
 
@@ -213,12 +215,22 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     n--;
 
     // Handle special form 'cond'/'if'
-    if (is_cond_fn(car)) {
+    if (is_cond_fn(car) && (n == 2 || n == 3)) {
         return cc_cond(cc, lst, n);
     }
 
-    // Handle vary special forms that need unevaluated arguments (e.g. timeit)
-    if (is_vary_special_form(car)) {
+    // Handle nested 'do': its value is the value of the last expression
+    if (is_do_fn(car)) {
+        if (n == 0) {
+            LOADCONST(cc, NULL_OBJ);
+            return 0;
+        }
+        return cc_body(cc, lst, n);
+    }
+
+    // Handle vary special forms that need unevaluated arguments (e.g. timeit),
+    // and 'if' of the wrong number of arguments, which it reports itself
+    if (is_cond_fn(car) || is_vary_special_form(car)) {
         // Push all arguments as constants (no evaluation)
         for (i = 0; i < n; ++i) {
             CE(cc_const(cc, lst[i]));
-- 
2.43.0


From 07eb0f65d603f74cf6e405a63aa299874298cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 038/120] fix: deep recursion overran the evaluation stack

---
 core/eval.c | 13 +++++++++++++
 core/eval.h |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/eval.c b/core/eval.c
index 19dfccf..c0d6649 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -351,6 +351,12 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
 
 #define next() goto *OPS[bc[ip++]]
 #define push(v) (vm->ps[vm->sp++] = (v))
+#define room()                               \
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE)) { \
+        r = err_limit(VM_STACK_SIZE);        \
+        bc_error_add_loc(r, vm->fn, ip - 1); \
+        return vm_error_unwind(vm, r);       \
+    }
 #define pop() (vm->ps[--vm->sp])
 #define top(n) (&vm->ps[vm->sp - (n)])
 
@@ -399,6 +405,7 @@ OP_JMPF:
     next();
 
 OP_LOADCONST:
+    room();
     push(clone_obj(consts[bc[ip++]]));
     next();
 
@@ -592,6 +599,7 @@ OP_CALLD:
     next();
 
 OP_LOADENV:
+    room();
     // Load from env by offset
     // - offset < nargs: load from stack (args passed on stack)
     // - offset >= nargs: load from lambda->env values (let-bound locals)
@@ -660,6 +668,7 @@ OP_STOREENV:
 
 #undef next
 #undef push
+#undef room
 #undef pop
 #undef top
 }
@@ -676,6 +685,10 @@ obj_p call(obj_p fn, i64_t arity) {
     i64_t saved_fp = vm->fp, saved_sp = vm->sp;
     UNUSED(arity);
 
+    // Check for stack overflow
+    if (vm->rp >= VM_STACK_SIZE || vm->sp >= VM_STACK_SIZE)
+        return err_limit(VM_STACK_SIZE);
+
     // Compile on first call - bytecode is cached in the lambda for reuse
     if (lam->bc == NULL_OBJ) {
         res = cc_compile(fn);
diff --git a/core/eval.h b/core/eval.h
index 96307f6..350de97 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -36,6 +36,7 @@
 struct query_ctx_t;
 
 #define VM_STACK_SIZE 1024
+#define VM_STACK_RESERVE 256  // room above the limit for the arguments of one call
 
 // Bytecode opcodes - grouped by category
 typedef enum op_type_t {
@@ -90,7 +91,7 @@ typedef struct vm_t {
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
     timeit_t *timeit;               // timeit (lazy allocated)
     // === Stacks ===
-    obj_p ps[VM_STACK_SIZE];  // program stack
+    obj_p ps[VM_STACK_SIZE + VM_STACK_RESERVE];  // program stack
     ctx_t rs[VM_STACK_SIZE];  // return stack
     // === COLD section ===
     obj_p nfo;    // error source info
-- 
2.43.0


From b54be710912299c86c05f46a7d9c5a0391e4331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 039/120] fix: the activations of a recursive function shared
 their locals

---
 core/eval.c | 35 ++++++++++++++++++++++-------------
 core/eval.h |  8 +++++---
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index c0d6649..55faab4 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -47,6 +47,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->fp = 0;
     vm->rp = 0;
     vm->fn = NULL_OBJ;
+    vm->env = NULL_OBJ;
     vm->id = id;
     vm->pool = pool;
     // Cold fields
@@ -91,12 +92,9 @@ nil_t vm_destroy(vm_p vm) {
 // Symbol Resolution
 // ============================================================================
 
-// Helper: resolve symbol in a lambda's env (unified args + locals)
+// Helper: resolve symbol in an activation of a lambda (args + let-bound locals)
 // Returns pointer to value slot, or NULL if not found
-// - offset < nargs: return stack pointer at fp_offset + offset
-// - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
-    obj_p env;
+static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset, obj_p env) {
     i64_t i, n;
     vm_p vm = VM;
 
@@ -114,7 +112,6 @@ static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
     }
 
     // Then check let-bound locals in env
-    env = AS_LAMBDA(fn)->env;
     if (env != NULL_OBJ && env->type == TYPE_DICT) {
         n = AS_LIST(env)[0]->len;
         for (i = 0; i < n; i++) {
@@ -143,14 +140,14 @@ obj_p *resolve(i64_t sym) {
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, sym, vm->fp);
+    result = resolve_in_env(fn, sym, vm->fp, vm->env);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
     for (frame = vm->rp; frame > 0; frame--) {
         fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp);
+        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp, vm->rs[frame - 1].env);
         if (result != NULL)
             return result;
     }
@@ -179,9 +176,9 @@ obj_p amend(obj_p sym, obj_p val) {
     obj_p *env_slot;
     vm_p vm = VM;
 
-    // Add to current lambda's env, or globals if at top level
+    // Add to the locals of the current activation, or globals if at top level
     if (vm->fn != NULL_OBJ) {
-        env_slot = &AS_LAMBDA(vm->fn)->env;
+        env_slot = &vm->env;
         if (*env_slot != NULL_OBJ)
             set_obj(env_slot, sym, clone_obj(val));
         else {
@@ -306,6 +303,8 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
         vm->rp--;
+        drop_obj(vm->env);
+        vm->env = rs->env;
         vm->fn = rs->fn;
         vm->fp = rs->fp;
     }
@@ -380,6 +379,8 @@ OP_RET:
         ip = rs->ip;
         vm->fp = rs->fp;
         vm->fn = rs->fn;
+        drop_obj(vm->env);
+        vm->env = rs->env;
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -503,6 +504,8 @@ callf:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     // Switch to new function
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
@@ -523,6 +526,8 @@ OP_CALLS:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
     ip = 0;
     next();
@@ -612,7 +617,7 @@ OP_LOADENV:
             push(clone_obj(x));
         } else {
             // Let-bound locals in env values
-            obj_p env = AS_LAMBDA(vm->fn)->env;
+            obj_p env = vm->env;
             if (env != NULL_OBJ && env->type == TYPE_DICT) {
                 i64_t local_idx = n - nargs;
                 obj_p values = AS_LIST(env)[1];
@@ -635,7 +640,7 @@ OP_STOREENV:
     n = bc[ip++];
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        obj_p env = AS_LAMBDA(vm->fn)->env;
+        obj_p env = vm->env;
         x = pop();  // value to store
 
         if (n < nargs) {
@@ -681,7 +686,7 @@ obj_p call(obj_p fn, i64_t arity) {
     lambda_p lam = AS_LAMBDA(fn);
     obj_p res;
     vm_p vm = VM;
-    obj_p saved_fn = vm->fn;
+    obj_p saved_fn = vm->fn, saved_env = vm->env;
     i64_t saved_fp = vm->fp, saved_sp = vm->sp;
     UNUSED(arity);
 
@@ -700,8 +705,10 @@ obj_p call(obj_p fn, i64_t arity) {
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
     vm->rs[vm->rp].fp = saved_fp;
+    vm->rs[vm->rp].env = saved_env;
     vm->rs[vm->rp].ip = -1;  // External call marker
     vm->rp++;
+    vm->env = NULL_OBJ;
 
     // Execute bytecode
     res = vm_eval(fn);
@@ -712,6 +719,8 @@ obj_p call(obj_p fn, i64_t arity) {
 
     // Pop frame and restore context
     vm->rp--;
+    drop_obj(vm->env);
+    vm->env = saved_env;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
 
diff --git a/core/eval.h b/core/eval.h
index 350de97..fea7175 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -67,9 +67,10 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
+    obj_p fn;   // function pointer
+    obj_p env;  // let-bound locals of the activation
     i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
@@ -85,7 +86,8 @@ typedef struct vm_t {
     i32_t rp;  // return stack pointer
     i32_t id;  // VM id (thread index)
     // Pointers (40 bytes)
-    obj_p fn;                       // current function (fn->env has local variables)
+    obj_p fn;                       // current function
+    obj_p env;                      // let-bound locals of the current activation
     struct heap_t *heap;            // heap pointer
     struct pool_t *pool;            // pool pointer
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
-- 
2.43.0


From fd0686d6cfb285bb2c05c6776332f776cb84ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 040/120] fix: long functions were compiled wrongly

---
 core/cc.c   | 72 ++++++++++++++++++++++++++++++++++++-----------------
 core/eval.c | 16 ++++++------
 2 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index f384cc4..5332a7a 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -81,18 +81,26 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip) {
     return span;
 }
 
+static nil_t cc_emit(cc_ctx_t *cc, u8_t byte) {
+    if (cc->ip >= cc->bc->len)
+        resize_obj(&cc->bc, cc->bc->len * 2);
+    AS_U8(cc->bc)[cc->ip++] = byte;
+}
+
 // clang-format off
-#define OP(ctx, op) (AS_U8((ctx)->bc)[(ctx)->ip++] = (u8_t)(op))
+#define OP(ctx, op) cc_emit((ctx), (u8_t)(op))
+// Operand: two bytes, low byte first
+#define ARG(ctx, n) ({ OP(ctx, (n) & 0xff); OP(ctx, ((n) >> 8) & 0xff); })
 #define CE(f)       { if ((f) == -1) return -1; }
 
 // Load constant from consts pool by offset (no name, pure value)
-#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OP(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
+#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); ARG(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
 
 // Load from env by offset (args + let-bound locals, resolvable by name)
-#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OP(ctx, (offset)); })
+#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); ARG(ctx, (offset)); })
 
 // Store to env by offset (for let bindings)
-#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); OP(ctx, (offset)); })
+#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); ARG(ctx, (offset)); })
 
 // Record debug info: map bytecode offset to span from AST node
 #define DBG(ctx, expr) do { \
@@ -153,6 +161,19 @@ static b8_t is_vary_special_form(obj_p fn) {
     return f != ray_cond && f != ray_and && f != ray_or && f != ray_do;
 }
 
+// Make the jump whose operand is at pos land here
+static i64_t cc_patch(cc_ctx_t *cc, i64_t pos) {
+    i64_t n = cc->ip - pos - 2;
+
+    if (n > 0xffff)
+        return -1;
+
+    AS_U8(cc->bc)[pos] = (u8_t)(n & 0xff);
+    AS_U8(cc->bc)[pos + 1] = (u8_t)(n >> 8);
+
+    return 0;
+}
+
 // Compile if/cond expression
 static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     i64_t j1, j2;
@@ -163,7 +184,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump if false to else branch
     OP(cc, OP_JMPF);
     j1 = cc->ip;
-    OP(cc, 0);
+    ARG(cc, 0);
 
     // compile then branch
     CE(cc_expr(cc, lst[1]));
@@ -171,10 +192,10 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump over else branch
     OP(cc, OP_JMP);
     j2 = cc->ip;
-    OP(cc, 0);
+    ARG(cc, 0);
 
     // patch jmpf offset
-    AS_U8(cc->bc)[j1] = (u8_t)(cc->ip - j1 - 1);
+    CE(cc_patch(cc, j1));
 
     // compile else branch (or null)
     if (n == 3) {
@@ -184,7 +205,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     }
 
     // patch jmp offset
-    AS_U8(cc->bc)[j2] = (u8_t)(cc->ip - j2 - 1);
+    CE(cc_patch(cc, j2));
 
     return 0;
 }
@@ -238,7 +259,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         DBG(cc, expr);
         LOADCONST(cc, clone_obj(car));
         OP(cc, OP_CALLN);
-        OP(cc, n);
+        ARG(cc, n);
         return 0;
     }
 
@@ -285,7 +306,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             } else {
                 // Wrong number of arguments - reported when called
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                ARG(cc, n);
             }
             break;
 
@@ -295,14 +316,14 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
                 OP(cc, OP_CALL2);
             } else {
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                ARG(cc, n);
             }
             break;
 
         case TYPE_VARY:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLN);
-            OP(cc, n);
+            ARG(cc, n);
             break;
 
         case TYPE_LAMBDA:
@@ -311,7 +332,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
                 OP(cc, OP_CALLF);
             } else {
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                ARG(cc, n);
             }
             break;
 
@@ -323,7 +344,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
                 // Dynamic call - need to resolve symbol at runtime
                 CE(cc_expr(cc, car));
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                ARG(cc, n);
             }
             break;
 
@@ -331,7 +352,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             // For other types, try to evaluate at runtime
             CE(cc_expr(cc, car));
             OP(cc, OP_CALLD);
-            OP(cc, n);
+            ARG(cc, n);
             break;
     }
 
@@ -409,6 +430,10 @@ static obj_p cc_fn(cc_ctx_t *cc, obj_p *lst, i64_t n) {
 end:
     OP(cc, OP_RET);
 
+    // Constants are addressed by two bytes
+    if (cc->consts->len > 0xffff)
+        return err_limit(0xffff);
+
     // Resize bytecode to actual size
     resize_obj(&cc->bc, cc->ip);
 
@@ -526,22 +551,23 @@ nil_t cc_dump(obj_p lambda) {
                 printf("RET\n");
                 break;
             case OP_JMP:
-                printf("JMP +%d\n", bc[++i]);
+                printf("JMP +%d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_JMPF:
-                printf("JMPF +%d\n", bc[++i]);
+                printf("JMPF +%d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             // Data operations
             case OP_LOADCONST:
-                fmt = obj_fmt(consts[bc[++i]], B8_FALSE);
-                printf("LOADCONST %lld (%.*s)\n", (i64_t)bc[i], (i32_t)fmt->len, AS_C8(fmt));
+                i += 2;
+                fmt = obj_fmt(consts[bc[i - 1] | (bc[i] << 8)], B8_FALSE);
+                printf("LOADCONST %lld (%.*s)\n", (i64_t)(bc[i - 1] | (bc[i] << 8)), (i32_t)fmt->len, AS_C8(fmt));
                 drop_obj(fmt);
                 break;
             case OP_LOADENV:
-                printf("LOADENV %d\n", bc[++i]);
+                printf("LOADENV %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_STOREENV:
-                printf("STOREENV %d\n", bc[++i]);
+                printf("STOREENV %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_POP:
                 printf("POP\n");
@@ -558,7 +584,7 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALL2\n");
                 break;
             case OP_CALLN:
-                printf("CALLN %d\n", bc[++i]);
+                printf("CALLN %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             case OP_CALLF:
                 printf("CALLF\n");
@@ -567,7 +593,7 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALLS\n");
                 break;
             case OP_CALLD:
-                printf("CALLD %d\n", bc[++i]);
+                printf("CALLD %d\n", (i += 2, bc[i - 1] | (bc[i] << 8)));
                 break;
             default:
                 printf("??? %d\n", bc[i]);
diff --git a/core/eval.c b/core/eval.c
index 55faab4..3c59330 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -357,6 +357,7 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
         return vm_error_unwind(vm, r);       \
     }
 #define pop() (vm->ps[--vm->sp])
+#define arg() (ip += 2, (i64_t)bc[ip - 2] | ((i64_t)bc[ip - 1] << 8))
 #define top(n) (&vm->ps[vm->sp - (n)])
 
     next();
@@ -393,12 +394,12 @@ OP_RET:
     return pop();
 
 OP_JMP:
-    n = bc[ip++];
+    n = arg();
     ip += n;
     next();
 
 OP_JMPF:
-    n = bc[ip++];
+    n = arg();
     x = pop();
     if (!ops_as_b8(x))
         ip += n;
@@ -407,7 +408,7 @@ OP_JMPF:
 
 OP_LOADCONST:
     room();
-    push(clone_obj(consts[bc[ip++]]));
+    push(clone_obj(consts[arg()]));
     next();
 
 OP_POP:
@@ -458,7 +459,7 @@ OP_CALL2:
     next();
 
 OP_CALLN:
-    n = bc[ip++];  // arity
+    n = arg();  // arity
     r = pop();     // function
     l = top(n);
     res = vary_call(r, l, n);
@@ -533,7 +534,7 @@ OP_CALLS:
     next();
 
 OP_CALLD:
-    n = bc[ip++];  // arity
+    n = arg();  // arity
     x = pop();     // function (dynamically resolved)
     switch (x->type) {
         case TYPE_UNARY:
@@ -608,7 +609,7 @@ OP_LOADENV:
     // Load from env by offset
     // - offset < nargs: load from stack (args passed on stack)
     // - offset >= nargs: load from lambda->env values (let-bound locals)
-    n = bc[ip++];
+    n = arg();
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
         if (n < nargs) {
@@ -637,7 +638,7 @@ OP_LOADENV:
 OP_STOREENV:
     // Store to env by offset (for let bindings)
     // Value is on stack top, store to env->values[offset - nargs]
-    n = bc[ip++];
+    n = arg();
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
         obj_p env = vm->env;
@@ -674,6 +675,7 @@ OP_STOREENV:
 #undef next
 #undef push
 #undef room
+#undef arg
 #undef pop
 #undef top
 }
-- 
2.43.0


From ef00a327aa3537e6181d044f8f0543e6eedf9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 041/120] fix: redefining a function while it runs freed it

---
 core/eval.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 3c59330..e476da9 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -305,6 +305,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         vm->rp--;
         drop_obj(vm->env);
         vm->env = rs->env;
+        drop_obj(vm->fn);
         vm->fn = rs->fn;
         vm->fp = rs->fp;
     }
@@ -379,6 +380,7 @@ OP_RET:
         vm->rp--;
         ip = rs->ip;
         vm->fp = rs->fp;
+        drop_obj(vm->fn);
         vm->fn = rs->fn;
         drop_obj(vm->env);
         vm->env = rs->env;
@@ -513,7 +515,7 @@ callf:
     bc = AS_U8(AS_LAMBDA(x)->bc);
     consts = AS_LIST(AS_LAMBDA(x)->consts);
     ip = 0;
-    drop_obj(x);  // Safe because it's on the constants pool
+    // the frame keeps x until it returns: it may be redefined while it runs
     next();
 
 OP_CALLS:
@@ -529,6 +531,7 @@ OP_CALLS:
     rs->fn = vm->fn;
     rs->env = vm->env;
     vm->env = NULL_OBJ;
+    clone_obj(vm->fn);
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
     ip = 0;
     next();
@@ -712,7 +715,8 @@ obj_p call(obj_p fn, i64_t arity) {
     vm->rp++;
     vm->env = NULL_OBJ;
 
-    // Execute bytecode
+    // Execute bytecode (keeping fn: it may be redefined while it runs)
+    clone_obj(fn);
     res = vm_eval(fn);
 
     // Drop what an error left on the stack
@@ -723,6 +727,7 @@ obj_p call(obj_p fn, i64_t arity) {
     vm->rp--;
     drop_obj(vm->env);
     vm->env = saved_env;
+    drop_obj(fn);
     vm->fn = saved_fn;
     vm->fp = saved_fp;
 
@@ -871,7 +876,7 @@ static inline obj_p eval_sym(obj_p sym) {
 
 // Evaluate list (function call)
 static obj_p eval_list(obj_p obj) {
-    obj_p car, *val, *args;
+    obj_p car, res, *val, *args;
     i64_t len, id;
 
     if (obj->len == 0)
@@ -899,7 +904,11 @@ dispatch:
             return eval_vary(car, args, len, id);
 
         case TYPE_LAMBDA:
-            return eval_lambda(car, args, len, id);
+            // keep it: evaluating the arguments may redefine it
+            car = clone_obj(car);
+            res = eval_lambda(car, args, len, id);
+            drop_obj(car);
+            return res;
 
         case -TYPE_SYMBOL:
             val = resolve(car->i64);
-- 
2.43.0


From 3ef18d398b16af72edd6200b5441875d3172b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 042/120] fix: fold and scan called functions of the wrong
 number of arguments

---
 core/iter.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 866c713..cb37217 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -990,7 +990,8 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            // one argument is folded by a function of two
+            if ((n == 1 ? 2 : n) != AS_LAMBDA(f)->args->len)
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
@@ -1390,7 +1391,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            // one argument is folded by a function of two
+            if ((n == 1 ? 2 : n) != AS_LAMBDA(f)->args->len)
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
-- 
2.43.0


From 72629f1944d9cfb8bb76e84d348cc55d25e64ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 043/120] fix: an error of upsert freed the table it failed to
 change

---
 core/update.c | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/core/update.c b/core/update.c
index f9a3252..3036029 100644
--- a/core/update.c
+++ b/core/update.c
@@ -560,12 +560,11 @@ obj_p ray_insert(obj_p *x, i64_t n) {
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)    \
-    {                      \
-        if (lst_allocated) \
-            drop_obj(lst); \
-        drop_obj(obj);     \
-        return r;          \
+#define UPSERT_ERROR(r)                   \
+    {                                     \
+        if (lst_allocated)                \
+            drop_obj(lst);                \
+        UNCOW_OBJ(obj, val, original, r); \
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
@@ -588,10 +587,8 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
     if (IS_ERR(obj))
         return obj;
 
-    if (obj->type != TYPE_TABLE) {
-        drop_obj(obj);
-        return err_type(0, 0, 0, 0);
-    }
+    if (obj->type != TYPE_TABLE)
+        UNCOW_OBJ(obj, val, original, err_type(0, 0, 0, 0));
 
     own_parts(obj);
     p = AS_LIST(obj)[0]->len;
@@ -601,24 +598,18 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 
     // Handle dict/table input: reorder columns to match table order
     if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            drop_obj(obj);
-            return err_type(0, 0, 0, 0);
-        }
+        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL)
+            UNCOW_OBJ(obj, val, original, err_type(0, 0, 0, 0));
 
         // Check that input doesn't have more columns than table
         l = AS_LIST(lst)[0]->len;
-        if (l > p) {
-            drop_obj(obj);
-            return err_length(0, 0, 0, 0, 0, 0);
-        }
+        if (l > p)
+            UNCOW_OBJ(obj, val, original, err_length(0, 0, 0, 0, 0, 0));
 
         // Reorder columns to match table order (allows flexible column ordering)
         res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res)) {
-            drop_obj(obj);
-            return res;
-        }
+        if (IS_ERR(res))
+            UNCOW_OBJ(obj, val, original, res);
 
         lst = res;
         lst_allocated = B8_TRUE;
-- 
2.43.0


From 5bc066348045f58b5bf0a21952e476503d0e3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 044/120] fix: alter and modify of a fresh value returned it
 without owning it

---
 core/update.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/update.c b/core/update.c
index 3036029..839306f 100644
--- a/core/update.c
+++ b/core/update.c
@@ -337,14 +337,17 @@ obj_p ray_alter(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        // the caller keeps its value: change a copy
+        obj = copy_obj(x[0]);
+        if (IS_ERR(obj))
+            return obj;
     }
 
     res = obj;
     res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
 
     if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
+        if (cur == NULL || obj != *cur)
             drop_obj(obj);
 
         return res;
@@ -386,7 +389,10 @@ obj_p ray_modify(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        // the caller keeps its value: change a copy
+        obj = copy_obj(x[0]);
+        if (IS_ERR(obj))
+            return obj;
     }
 
     res = dot_obj(obj, x[2]);
-- 
2.43.0


From f11bc90fedd84ead560e7309308ed79e17158eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 045/120] fix: a refused update left new columns in the table

---
 core/update.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/core/update.c b/core/update.c
index 839306f..706238c 100644
--- a/core/update.c
+++ b/core/update.c
@@ -801,17 +801,11 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         drop_obj(groupby);
         n = gids->len;
 
-        // Check each column
+        // Check each existing column
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
+            if (j != NULL_I64) {
                 for (m = 0; m < n; m++) {
                     v = at_idx(AS_LIST(vals)[i], m);
                     if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v)) {
@@ -841,10 +835,16 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
             }
         }
 
-        // Cow each column
+        // Add new columns (none if a check failed), cow the others
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
+            if (j == NULL_I64) {
+                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
+                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
+                continue;
+            }
+
             col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
             if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
                 drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
@@ -887,17 +887,11 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         own_parts(obj);
         l = keys->len;
 
-        // Check each column
+        // Check each existing column
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
+            if (j != NULL_I64) {
                 if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
                     res = err_type(0, 0, 0, 0);
                     drop_obj(tab);
@@ -924,10 +918,16 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
             }
         }
 
-        // Cow each column
+        // Add new columns (none if a check failed), cow the others
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
+            if (j == NULL_I64) {
+                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
+                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
+                continue;
+            }
+
             col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
             if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
                 drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-- 
2.43.0


From ea2379c60c0e4cbde28ccfaf80a4e9be5fef0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 046/120] fix: in between integers of different widths

Bytes are unsigned, but were looked up as signed ones; a byte right side
of a 32-bit left side was never entered in the set; and a 32-bit null did
not match a 64-bit null when one of the sides was nothing but nulls.
---
 core/index.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/core/index.c b/core/index.c
index 5c49e03..4d4463c 100644
--- a/core/index.c
+++ b/core/index.c
@@ -718,7 +718,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -738,7 +738,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -751,7 +751,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -771,7 +771,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -784,7 +784,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -804,7 +804,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -817,7 +817,7 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -828,7 +828,7 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -957,7 +957,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -968,7 +968,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        val = y[i] - min;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -1110,14 +1110,17 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    // a 32-bit null matches a 64-bit one, although the numbers behind them differ
+    const b8_t nulls = scope_x.min == NULL_I32;
+
+    if (!nulls && min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
     range = max - min + 1;
 
-    if (range <= MAX_RANGE) {
+    if (!nulls && range <= MAX_RANGE) {
         set = B8(range);
         s = AS_B8(set);
         memset(s, 0, range);
@@ -1168,7 +1171,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     b8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -1179,7 +1182,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
@@ -1254,14 +1257,17 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    // a 32-bit null matches a 64-bit one, although the numbers behind them differ
+    const b8_t nulls = scope_y.min == NULL_I32;
+
+    if (!nulls && min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
     range = max - min + 1;
 
-    if (range <= MAX_RANGE) {
+    if (!nulls && range <= MAX_RANGE) {
         set = B8(range);
         s = AS_B8(set);
         memset(s, 0, range);
-- 
2.43.0


From addfbafe2c307912523255e78cc527d9652924ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 047/120] fix: in and find crashed on a null far from the other
 side

The distance to the smallest value was computed with an overflowing
signed subtraction, which let the compiler drop the range check.
---
 core/index.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/index.c b/core/index.c
index 4d4463c..bd8c4fa 100644
--- a/core/index.c
+++ b/core/index.c
@@ -762,7 +762,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = (i32_t)((u32_t)y[i] - (u32_t)min);
         if (val >= 0 && val < (i32_t)range)
             s[val] = B8_TRUE;
     }
@@ -795,7 +795,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = (i64_t)((u64_t)y[i] - (u64_t)min);
         if (val >= 0 && val < (i64_t)range)
             s[val] = B8_TRUE;
     }
@@ -896,7 +896,7 @@ obj_p index_in_i16_i32(i16_t x[], i64_t xl, i32_t y[], i64_t yl) {
         if (y[i] == NULL_I32)
             s[0] = B8_TRUE;
         else {
-            val = y[i] - min;
+            val = (i32_t)((u32_t)y[i] - (u32_t)min);
             if (val > 0 && val < (i32_t)range)
                 s[val] = B8_TRUE;
         }
@@ -934,7 +934,7 @@ obj_p index_in_i16_i64(i16_t x[], i64_t xl, i64_t y[], i64_t yl) {
         if (y[i] == NULL_I64)
             s[0] = B8_TRUE;
         else {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val > 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
@@ -974,7 +974,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = (i32_t)((u32_t)x[i] - (u32_t)min);
         if (val >= 0 && val < (i32_t)range)
             r[i] = s[val];
         else
@@ -1012,7 +1012,7 @@ obj_p index_in_i32_i16(i32_t x[], i64_t xl, i16_t y[], i64_t yl) {
         if (x[i] == NULL_I32)
             r[i] = s[0];
         else {
-            val = x[i] - min;
+            val = (i32_t)((u32_t)x[i] - (u32_t)min);
             if (val > 0 && val < (i32_t)range)
                 r[i] = s[val];
             else
@@ -1126,13 +1126,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1188,7 +1188,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = (i64_t)((u64_t)x[i] - (u64_t)min);
         if (val >= 0 && val < (i64_t)range)
             r[i] = s[val];
         else
@@ -1226,7 +1226,7 @@ obj_p index_in_i64_i16(i64_t x[], i64_t xl, i16_t y[], i64_t yl) {
         if (x[i] == NULL_I64)
             r[i] = s[0];
         else {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val > 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1273,13 +1273,13 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1346,13 +1346,13 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 s[val] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range)
                 r[i] = s[val];
             else
@@ -1563,13 +1563,13 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
             d[i] = NULL_I64;
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
+            val = (i64_t)((u64_t)x[i] - (u64_t)min);
             if (val >= 0 && val < (i64_t)range && d[val] == NULL_I64)
                 d[val] = (i64_t)i;
         }
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
+            val = (i64_t)((u64_t)y[i] - (u64_t)min);
             r[i] = (val < 0 || val >= (i64_t)range) ? NULL_I64 : d[val];
         }
 
-- 
2.43.0


From de1451661052050a69f666bc82e39d51d47d7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 048/120] fix: serialize I16 vectors and refuse values with
 items that have no serialized form

---
 core/serde.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index c5ef252..5ac8a8b 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -87,7 +87,7 @@ i64_t size_of(obj_p obj) {
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, c, size;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +117,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +139,26 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                c = size_obj(AS_LIST(obj)[i]);
+                if (c == 0)
+                    return 0;  // an item that has no serialized form
+                size += c;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            c = size_obj(AS_LIST(obj)[0]);
+            size = size_obj(AS_LIST(obj)[1]);
+            if (c == 0 || size == 0)
+                return 0;
+            return ISIZEOF(i8_t) + 1 + c + size;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            c = size_obj(AS_LAMBDA(obj)->args);
+            size = size_obj(AS_LAMBDA(obj)->body);
+            if (c == 0 || size == 0)
+                return 0;
+            return ISIZEOF(i8_t) + 1 + c + size;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -456,6 +470,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -465,7 +480,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -501,6 +516,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
-- 
2.43.0


From f5815b72ec7b1e4c653d68f0c94b16c5aba921db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 049/120] fix: de: reject truncated, oversized, overly nested
 and inconsistent serialized data

---
 core/serde.c | 69 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 5ac8a8b..4de9f78 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -376,13 +376,36 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// Checks that the two halves of a deserialized table or dict belong together
+static b8_t de_pair_valid(i8_t type, obj_p k, obj_p v) {
+    i64_t i, l;
+    obj_p col;
+
+    if (type == TYPE_DICT)
+        return IS_VECTOR(v) && (is_null(k) ? v->len == 0 : IS_VECTOR(k) && k->len == v->len);
+
+    if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST || (k->len != v->len && v->len != 0))
+        return B8_FALSE;
+
+    for (i = 0, l = v->len; i < l; i++) {
+        col = AS_LIST(v)[i];
+        if (!IS_VECTOR(col) || col->len != AS_LIST(v)[0]->len)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
+// Nesting depth above which a message is considered malformed
+#define DE_MAX_DEPTH 4096
+
+static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len < 1 || depth > DE_MAX_DEPTH)
+        return err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -489,7 +512,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= ISIZEOF(i64_t) + 1;
 
             // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            // (every element takes at least one byte)
+            if (l < 0 || l > *len)
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -599,7 +623,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_raw_at(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -615,42 +639,58 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_at(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_at(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (!de_pair_valid(type, k, v)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_at(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_at(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -686,7 +726,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len(msg, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
@@ -703,11 +745,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_at(buf, len, 0); }
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
@@ -725,7 +772,7 @@ obj_p de_obj(obj_p obj) {
         return err_type(0, 0, 0, 0);
 
     // Check for reasonable size values
-    if (header->size > 1000000000)  // 1GB max size
+    if (header->size < 0 || header->size > 1000000000)  // 1GB max size
         return err_domain(0, 0);
 
     if (header->size + ISIZEOF(struct ipc_header_t) != len)
-- 
2.43.0


From b51663a1ac19b51e7b833afc9e74a9191fa9e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 050/120] fix: ipc: answer with an error when the result has no
 serialized form

---
 core/ipc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..e04f989 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -396,11 +396,18 @@ obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
 
 nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
     i64_t size;
+    obj_p err = NULL_OBJ;
     poll_buffer_p buf;
     ipc_header_t *header;
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0) {
+        // the value has no serialized form: tell the peer so
+        err = err_type(0, 0, 0, 0);
+        msg = err;
+        size = size_obj(msg);
+    }
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
@@ -412,6 +419,7 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
     header->size = size;
 
     ser_raw(buf->data + ISIZEOF(struct ipc_header_t), msg);
+    drop_obj(err);
     LOG_DEBUG("Sending message of size %lld", size);
     poll_send_buf(poll, selector, buf);
     LOG_DEBUG("Message sent");
-- 
2.43.0


From 2374125d5240d72d0b6d71a776497925777d8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 051/120] fix: quoted symbols in a serialized function came
 back as names

---
 core/serde.c | 70 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index 4de9f78..c7136fa 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -27,6 +27,7 @@
 #include "lambda.h"
 #include "env.h"
 #include "error.h"
+#include "misc.h"
 
 i64_t size_of_type(i8_t type) {
     switch (type) {
@@ -86,9 +87,17 @@ i64_t size_of(obj_p obj) {
 /*
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
-i64_t size_obj(obj_p obj) {
+// Inside of a lambda a quoted symbol must stay different from a name: it is written as (quote symbol)
+#define IS_QUOTED_NAME(obj, code) ((code) && (obj)->type == -TYPE_SYMBOL && ((obj)->attrs & ATTR_QUOTED))
+#define QUOTE_NAME "quote"
+#define QUOTE_SIZE (ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + ISIZEOF(i8_t) + ISIZEOF(QUOTE_NAME))
+
+static i64_t size_obj_at(obj_p obj, b8_t code) {
     i64_t i, l, c, size;
 
+    if (IS_QUOTED_NAME(obj, code))
+        return QUOTE_SIZE + size_obj_at(obj, B8_FALSE);
+
     switch (obj->type) {
         case -TYPE_B8:
             return ISIZEOF(i8_t) + ISIZEOF(b8_t);
@@ -140,7 +149,7 @@ i64_t size_obj(obj_p obj) {
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
             for (i = 0; i < l; i++) {
-                c = size_obj(AS_LIST(obj)[i]);
+                c = size_obj_at(AS_LIST(obj)[i], code);
                 if (c == 0)
                     return 0;  // an item that has no serialized form
                 size += c;
@@ -148,14 +157,14 @@ i64_t size_obj(obj_p obj) {
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            c = size_obj(AS_LIST(obj)[0]);
-            size = size_obj(AS_LIST(obj)[1]);
+            c = size_obj_at(AS_LIST(obj)[0], code);
+            size = size_obj_at(AS_LIST(obj)[1], code);
             if (c == 0 || size == 0)
                 return 0;
             return ISIZEOF(i8_t) + 1 + c + size;
         case TYPE_LAMBDA:
-            c = size_obj(AS_LAMBDA(obj)->args);
-            size = size_obj(AS_LAMBDA(obj)->body);
+            c = size_obj_at(AS_LAMBDA(obj)->args, B8_FALSE);
+            size = size_obj_at(AS_LAMBDA(obj)->body, B8_TRUE);
             if (c == 0 || size == 0)
                 return 0;
             return ISIZEOF(i8_t) + 1 + c + size;
@@ -177,10 +186,22 @@ i64_t size_obj(obj_p obj) {
     }
 }
 
-i64_t ser_raw(u8_t *buf, obj_p obj) {
+i64_t size_obj(obj_p obj) { return size_obj_at(obj, B8_FALSE); }
+
+static i64_t ser_raw_at(u8_t *buf, obj_p obj, b8_t code) {
     i64_t i, l, c;
     str_p s;
 
+    if (IS_QUOTED_NAME(obj, code)) {
+        l = 2;
+        buf[0] = TYPE_LIST;
+        buf[1] = 0;  // attrs
+        memcpy(buf + 2, &l, ISIZEOF(i64_t));
+        buf[2 + ISIZEOF(i64_t)] = TYPE_UNARY;
+        memcpy(buf + 3 + ISIZEOF(i64_t), QUOTE_NAME, ISIZEOF(QUOTE_NAME));
+        return QUOTE_SIZE + ser_raw_at(buf + QUOTE_SIZE, obj, B8_FALSE);
+    }
+
     buf[0] = obj->type;
     buf++;
 
@@ -309,21 +330,21 @@ i64_t ser_raw(u8_t *buf, obj_p obj) {
             memcpy(buf, &l, ISIZEOF(i64_t));
             buf += ISIZEOF(i64_t);
             for (i = 0, c = 0; i < l; i++)
-                c += ser_raw(buf + c, AS_LIST(obj)[i]);
+                c += ser_raw_at(buf + c, AS_LIST(obj)[i], code);
 
             return ISIZEOF(i8_t) + ISIZEOF(i64_t) + c + 1;
         case TYPE_TABLE:
         case TYPE_DICT:
             buf[0] = 0;  // attrs
             buf++;
-            c = ser_raw(buf, AS_LIST(obj)[0]);
-            c += ser_raw(buf + c, AS_LIST(obj)[1]);
+            c = ser_raw_at(buf, AS_LIST(obj)[0], code);
+            c += ser_raw_at(buf + c, AS_LIST(obj)[1], code);
             return ISIZEOF(i8_t) + c + 1;
         case TYPE_LAMBDA:
             buf[0] = 0;  // attrs
             buf++;
-            c = ser_raw(buf, AS_LAMBDA(obj)->args);
-            c += ser_raw(buf + c, AS_LAMBDA(obj)->body);
+            c = ser_raw_at(buf, AS_LAMBDA(obj)->args, B8_FALSE);
+            c += ser_raw_at(buf + c, AS_LAMBDA(obj)->body, B8_TRUE);
             return ISIZEOF(i8_t) + c + 1;
         case TYPE_UNARY:
         case TYPE_BINARY:
@@ -350,6 +371,8 @@ i64_t ser_raw(u8_t *buf, obj_p obj) {
     }
 }
 
+i64_t ser_raw(u8_t *buf, obj_p obj) { return ser_raw_at(buf, obj, B8_FALSE); }
+
 obj_p ser_obj(obj_p obj) {
     i64_t size = size_obj(obj);
     obj_p buf;
@@ -399,7 +422,7 @@ static b8_t de_pair_valid(i8_t type, obj_p k, obj_p v) {
 // Nesting depth above which a message is considered malformed
 #define DE_MAX_DEPTH 4096
 
-static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
+static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth, b8_t code) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
@@ -623,7 +646,7 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw_at(buf + c - *len, len, depth + 1);
+                        v = de_raw_at(buf + c - *len, len, depth + 1, code);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -632,6 +655,13 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
 
                         AS_LIST(obj)[i] = v;
                     }
+                    if (code && l == 2 && AS_LIST(obj)[0]->type == TYPE_UNARY &&
+                        AS_LIST(obj)[0]->i64 == (i64_t)ray_quote && v->type == -TYPE_SYMBOL) {
+                        v = symboli64(v->i64);
+                        v->attrs |= ATTR_QUOTED;
+                        drop_obj(obj);
+                        return v;
+                    }
                     return obj;
             }
             // Should never reach here
@@ -644,12 +674,12 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw_at(buf, len, depth + 1);
+            k = de_raw_at(buf, len, depth + 1, code);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw_at(buf + c - *len, len, depth + 1);
+            v = de_raw_at(buf + c - *len, len, depth + 1, code);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
@@ -673,12 +703,12 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw_at(buf, len, depth + 1);
+            k = de_raw_at(buf, len, depth + 1, B8_FALSE);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw_at(buf + c - *len, len, depth + 1);
+            v = de_raw_at(buf + c - *len, len, depth + 1, B8_TRUE);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
@@ -726,7 +756,7 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = str_len(msg, *len);
+                i64_t msg_len = str_len((str_p)msg, *len);
                 if (msg_len >= *len)
                     return err_domain(0, 0);
                 buf += msg_len + 1;
@@ -745,7 +775,7 @@ static obj_p de_raw_at(u8_t *buf, i64_t *len, i64_t depth) {
     }
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_at(buf, len, 0); }
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_at(buf, len, 0, B8_FALSE); }
 
 obj_p de_obj(obj_p obj) {
     i64_t len;
-- 
2.43.0


From 0514687daec4d4e7f39b099ba27d05a06861a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 052/120] fix: grouping read and wrote past the end with more
 workers than page-sized chunks

---
 core/index.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/index.c b/core/index.c
index bd8c4fa..268d6a9 100644
--- a/core/index.c
+++ b/core/index.c
@@ -279,6 +279,11 @@ obj_p __hash_cols_partial(i64_t len, i64_t offset, __hash_cols_ctx_t *ctx) {
     return NULL_OBJ;
 }
 
+// Chunks of page-aligned size may cover the length in less chunks than there are workers: there must be none past the end
+static i64_t index_chunks_count(i64_t len, i64_t base_chunk, i64_t chunks) {
+    return (chunks > 1) ? (len + base_chunk - 1) / base_chunk : chunks;
+}
+
 nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrows, i64_t filter[], b8_t resolve) {
     i64_t i, j, chunks, base_chunk;
     pool_p pool;
@@ -287,6 +292,7 @@ nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrow
     pool = pool_get();
     chunks = pool_split_by(pool, nrows, 0);
     base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    chunks = index_chunks_count(nrows, base_chunk, chunks);
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -359,6 +365,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    chunks = index_chunks_count(len, base_chunk, chunks);
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -420,6 +427,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
 
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = index_chunks_count(len, base_chunk, chunks);
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2101,6 +2109,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
                 hk[i] = NULL_I64;
         } else {
             base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
+            chunks = index_chunks_count(scope.range, base_chunk, chunks);
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2152,6 +2161,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         pool = pool_get();
         chunks = pool_split_by(pool, len, 0);
         base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        chunks = index_chunks_count(len, base_chunk, chunks);
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2488,6 +2498,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     pool = pool_get();
     chunks = pool_split_by(pool, len, 0);
     base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    chunks = index_chunks_count(len, base_chunk, chunks);
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
-- 
2.43.0


From 27168e1d6973ec128eeb8014be393ad4833aaee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 053/120] fix: distinct, union and group of lists with nulls,
 chars or nested lists ended the process

---
 core/hash.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/hash.c b/core/hash.c
index bd0d01b..5e7cedc 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -250,6 +250,10 @@ u64_t hash_index_obj(obj_p obj) {
     u64_t hash, len, i;
 
     switch (obj->type) {
+        case -TYPE_B8:
+        case -TYPE_U8:
+        case -TYPE_C8:
+            return (u64_t)obj->u8;
         case -TYPE_I16:
             return (u64_t)obj->i16;
         case -TYPE_I32:
@@ -264,6 +268,8 @@ u64_t hash_index_obj(obj_p obj) {
             return (u64_t)obj->f64;
         case -TYPE_GUID:
             return hash_index_u64(*(u64_t *)AS_GUID(obj), *((u64_t *)AS_GUID(obj) + 1));
+        case TYPE_B8:
+        case TYPE_U8:
         case TYPE_C8:
             return str_hash(AS_C8(obj), obj->len);
         case TYPE_I16:
@@ -290,8 +296,14 @@ u64_t hash_index_obj(obj_p obj) {
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
                 hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
             return hash;
+        case TYPE_LIST:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
+            return hash;
         default:
-            PANIC("type: %d", obj->type);
+            // values of the other types share one hash, the comparison tells them apart
+            return (u64_t)obj->type;
     }
 }
 
-- 
2.43.0


From a739fe354f81727c1b90bf0bb3b38fead04eb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 054/120] fix: shrinking a block of another heap copied past
 the end of the new one

---
 core/heap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/heap.c b/core/heap.c
index 4eb09e2..91fbabf 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -438,7 +438,9 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
             return NULL;
         }
 
-        memcpy(new_ptr, ptr, old_size - sizeof(struct obj_t));
+        // a block of another heap or a file-backed one may be shrinking
+        old_size -= sizeof(struct obj_t);
+        memcpy(new_ptr, ptr, (old_size < new_size) ? old_size : new_size);
         heap_free(ptr);
 
         return new_ptr;
-- 
2.43.0


From 56c05fc997ad42c29d4df0f94334b71c87129722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 055/120] fix: heap: a freed block was merged with a free buddy
 listed by another thread's heap

---
 core/heap.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 91fbabf..77466f3 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -186,6 +186,7 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
 
     block->prev = NULL;
     block->next = heap->freelist[order];
+    block->heap_id = heap->id;  // a free block belongs to the heap that lists it
     block->used = 0;
     block->order = order;
 
@@ -400,8 +401,8 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         buddy = BUDDYOF(block, order);
         __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
 
-        // buddy is used, or buddy is of different order, so we can't merge
-        if (buddy->used || buddy->order != order)
+        // buddy is used, is of different order, or is listed by another heap, so we can't merge
+        if (buddy->used || buddy->order != order || buddy->heap_id != heap->id)
             return heap_insert_block(heap, block, order);
 
         // merge blocks: remove buddy from its freelist.
@@ -490,12 +491,13 @@ i64_t heap_gc(nil_t) {
 
 nil_t heap_borrow(heap_p heap) {
     i64_t i, j, half;
+    block_p block;
     heap_p h = VM->heap;  // Cache heap pointer (source heap)
 
     // Transfer half of slab cache entries to worker (improves small object alloc)
     for (i = 0; i < SLAB_ORDERS; i++) {
         half = h->slabs[i].count / 2;
-        for (j = 0; j < half; j++) {
+        for (j = 0; j < half && heap->slabs[i].count < SLAB_CACHE_SIZE; j++) {
             heap->slabs[i].stack[heap->slabs[i].count++] = h->slabs[i].stack[--h->slabs[i].count];
         }
     }
@@ -506,13 +508,9 @@ nil_t heap_borrow(heap_p heap) {
         if (h->freelist[i] == NULL || h->freelist[i]->next == NULL)
             continue;
 
-        heap->freelist[i] = h->freelist[i];
-        h->freelist[i] = h->freelist[i]->next;
-        h->freelist[i]->prev = NULL;
-
-        heap->freelist[i]->next = NULL;
-        heap->freelist[i]->prev = NULL;
-        heap->avail |= BSIZEOF(i);
+        block = h->freelist[i];
+        heap_remove_block(h, block, i);
+        heap_insert_block(heap, block, i);
     }
 
     // Borrow large pool blocks (>=32MB) for big allocations
@@ -521,13 +519,9 @@ nil_t heap_borrow(heap_p heap) {
         if (h->freelist[i] == NULL || h->freelist[i]->next == NULL || h->freelist[i]->pool_order != i)
             continue;
 
-        heap->freelist[i] = h->freelist[i];
-        h->freelist[i] = h->freelist[i]->next;
-        h->freelist[i]->prev = NULL;
-
-        heap->freelist[i]->next = NULL;
-        heap->freelist[i]->prev = NULL;
-        heap->avail |= BSIZEOF(i);
+        block = h->freelist[i];
+        heap_remove_block(h, block, i);
+        heap_insert_block(heap, block, i);
     }
 }
 
@@ -564,10 +558,13 @@ nil_t heap_merge(heap_p heap) {
         if (heap->freelist[i] == NULL)
             continue;
 
-        // Find tail of worker's freelist
+        // Find tail of worker's freelist, handing its blocks over to the main heap
         last = heap->freelist[i];
-        while (last->next != NULL)
+        last->heap_id = h->id;
+        while (last->next != NULL) {
             last = last->next;
+            last->heap_id = h->id;
+        }
 
         // Link: worker_tail -> main_head, main_head = worker_head
         last->next = h->freelist[i];
-- 
2.43.0


From 1b27e65c08d37e233189c596cfd5c345f678bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 056/120] fix: pool: a worker waking late took tasks of a run
 still being prepared, or missed the stop

---
 core/pool.c | 33 +++++++++++++++++++++++----------
 core/pool.h |  3 +++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index 9450dcd..b633b45 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -168,7 +168,7 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
+    i64_t i, tasks_count, seen = 0;
     obj_p res;
     vm_p vm;
 
@@ -181,13 +181,20 @@ raw_p executor_run(raw_p arg) {
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+
+        // wait for a run this executor has not joined yet: a wakeup may come late, when the run is over and the
+        // next one is still being prepared, and a stop may come before this executor waits
+        while (executor->pool->state != RUN_STATE_STOPPED &&
+               (!executor->pool->running || executor->pool->run_id == seen))
+            cond_wait(&executor->pool->run, &executor->pool->mutex);
 
         if (executor->pool->state == RUN_STATE_STOPPED) {
             mutex_unlock(&executor->pool->mutex);
             break;
         }
 
+        seen = executor->pool->run_id;
+        executor->pool->active++;
         tasks_count = executor->pool->tasks_count;
         mutex_unlock(&executor->pool->mutex);
 
@@ -205,12 +212,11 @@ raw_p executor_run(raw_p arg) {
             mpmc_push(executor->pool->result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        mutex_lock(&executor->pool->mutex);
+        executor->pool->active--;
+        executor->pool->done_count += i;
+        cond_signal(&executor->pool->done);
+        mutex_unlock(&executor->pool->mutex);
     }
 
     vm_destroy(__VM);
@@ -228,6 +234,9 @@ pool_p pool_create(i64_t thread_count) {
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
+    pool->active = 0;
+    pool->run_id = 0;
+    pool->running = B8_FALSE;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -378,6 +387,8 @@ obj_p pool_run(pool_p pool) {
 
     rc_sync_set(1);
 
+    pool->running = B8_TRUE;
+    pool->run_id++;
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
 
@@ -408,10 +419,12 @@ obj_p pool_run(pool_p pool) {
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done, and for all executors to be off the queues
+    while (pool->done_count < tasks_count || pool->active > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = B8_FALSE;
+
     // collect results
     res = LIST(tasks_count);
 
diff --git a/core/pool.h b/core/pool.h
index cac2f16..326f867 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -87,6 +87,9 @@ typedef struct pool_t {
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
+    i64_t active;            // Number of executors working on the current run
+    i64_t run_id;            // Number of the current run
+    b8_t running;            // Tasks may be taken: set from the start of a run to its end
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
-- 
2.43.0


From 7ddb7eab69bf1ed689acb78840cbd5ad5d8f49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 057/120] fix: closing a handle twice gave two later
 connections the same handle

---
 core/freelist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..7a3f4d3 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -71,6 +71,10 @@ i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     if (pos < 0 || pos >= freelist->data_pos)
         return NULL_I64;
 
+    // already free: listing it twice would hand it out twice
+    if (freelist->data[pos] == NULL_I64)
+        return NULL_I64;
+
     if (freelist->free_pos == freelist->free_size) {
         freelist->free_size *= 2;
         freelist->free = (i64_t *)heap_realloc(freelist->free, freelist->free_size * sizeof(i64_t));
-- 
2.43.0


From fc6cd22ba8dc35873b8920f9ed3b0039a7a1e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 058/120] fix: ipc: messages queued behind an unsent one were
 lost

---
 core/poll.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..d295cfb 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -128,11 +128,12 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p *tail;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
-        selector->tx.buf = buf;
+    for (tail = &selector->tx.buf; *tail != NULL; tail = &(*tail)->next)
+        ;
+    *tail = buf;
 
     return poll_send(poll, selector);
 }
-- 
2.43.0


From fc2173d36142e5548bc649961ce290e9b79184ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 059/120] fix: ipc: a message header with an impossible size
 ended the server

---
 core/epoll.c | 4 +++-
 core/ipc.c   | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..e1e87e7 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -377,8 +377,10 @@ i64_t poll_run(poll_p poll) {
                             continue;
                     }
 
-                    if (option_is_error(&poll_result))
+                    if (option_is_error(&poll_result)) {
                         poll_deregister(poll, selector->id);
+                        goto next_event;
+                    }
 
                     break;
                 }
diff --git a/core/ipc.c b/core/ipc.c
index e04f989..7d120cd 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -333,9 +333,15 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
+    if (header->prefix != SERDE_PREFIX || msgsize <= 0 || msgsize > (1ll << MAX_POOL_ORDER)) {
+        LOG_ERROR("Malformed message header on connection %lld", selector->id);
+        return option_error(err_parse());
+    }
+
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
-- 
2.43.0


From 572c519304870aafe015d1d174915a413ba90ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 060/120] fix: ipc: closed connections kept their socket open

---
 core/epoll.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index e1e87e7..de10057 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -27,6 +27,7 @@
 #include <sys/eventfd.h>
 #include <fcntl.h>
 #include "poll.h"
+#include "sock.h"
 #include "heap.h"
 #include "log.h"
 #include "error.h"
@@ -187,6 +188,9 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
 
+    if (selector->type == SELECTOR_TYPE_SOCKET)
+        sock_close(selector->fd);
+
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
         selector->rx.buf = NULL;
-- 
2.43.0


From dfe890db9bfb56a8d95afe5b3d1c2e0eb965a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 061/120] fix: ipc: closing a connection from a message or
 callback used it after it was freed

---
 core/epoll.c | 19 ++++++++++++++++---
 core/ipc.c   | 22 +++++++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index de10057..57520af 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -150,7 +150,7 @@ i64_t poll_register(poll_p poll, poll_registry_p registry) {
     LOG_DEBUG("Setting up epoll event");
 
     ev.events = selector->interest;
-    ev.data.ptr = selector;
+    ev.data.u64 = (u64_t)id << 32;  // by id: an event may be seen after its selector is gone
 
     if (epoll_ctl(poll->fd, EPOLL_CTL_ADD, selector->fd, &ev) == -1) {
         LOG_ERROR("epoll_ctl: add failed for fd %lld, errno %d", selector->fd, errno);
@@ -306,7 +306,7 @@ send_loop:
 }
 
 i64_t poll_run(poll_p poll) {
-    i64_t n, nbytes, nfds, timeout;
+    i64_t n, nbytes, nfds, timeout, id;
     option_t poll_result = option_none();  // Initialize with none
     selector_p selector;
     struct epoll_event ev, events[MAX_EVENTS];
@@ -337,7 +337,12 @@ i64_t poll_run(poll_p poll) {
                 break;
             }
 
-            selector = (selector_p)ev.data.ptr;
+            id = (i64_t)(ev.data.u64 >> 32);
+            selector = poll_get_selector(poll, id);
+
+            // closed while an earlier event was handled
+            if (selector == NULL)
+                continue;
 
             // error or hang up
             if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
@@ -373,10 +378,18 @@ i64_t poll_run(poll_p poll) {
                     if (selector->rx.read_fn != NULL)
                         poll_result = selector->rx.read_fn(poll, selector);
 
+                    // closed by a callback
+                    if (poll_get_selector(poll, id) != selector)
+                        goto next_event;
+
                     if (option_is_some(&poll_result)) {
                         if (poll_result.value != NULL && selector->data_fn != NULL)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
 
+                        // closed by the message itself
+                        if (poll_get_selector(poll, id) != selector)
+                            goto next_event;
+
                         if (option_is_some(&poll_result))
                             continue;
                     }
diff --git a/core/ipc.c b/core/ipc.c
index 7d120cd..f998dfd 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -282,6 +282,7 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 option_t ipc_read_handshake(poll_p poll, selector_p selector) {
     UNUSED(poll);
 
+    i64_t id;
     poll_buffer_p buf;
 
     if (selector->rx.buf == NULL) {
@@ -299,8 +300,13 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
         poll_send_buf(poll, selector, buf);
 
         // Now we are ready for income messages and can call userspace callback (if any)
+        id = selector->id;
         ipc_call_usr_cb(poll, selector, ".z.po", 5);
 
+        // the callback may have refused the connection
+        if (poll_get_selector(poll, id) != selector)
+            return option_none();
+
         selector->rx.read_fn = ipc_read_header;
         LOG_DEBUG("Handshake completed, switching to header reading mode");
 
@@ -378,7 +384,7 @@ option_t ipc_read_msg(poll_p poll, selector_p selector) {
 obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
     UNUSED(poll);
 
-    obj_p res;
+    obj_p res, name;
     ipc_ctx_p ctx;
 
     ctx = (ipc_ctx_p)selector->data;
@@ -387,7 +393,9 @@ obj_p ipc_process_msg(poll_p poll, selector_p selector, obj_p msg) {
         res = msg;
     else if (msg->type == TYPE_C8) {
         LOG_TRACE("Evaluating string message: %.*s", (i32_t)msg->len, AS_C8(msg));
-        res = ray_eval_str(msg, ctx->name);
+        name = clone_obj(ctx->name);
+        res = ray_eval_str(msg, name);
+        drop_obj(name);
         drop_obj(msg);
     } else {
         LOG_TRACE("Evaluating object message");
@@ -436,16 +444,24 @@ option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
 
     LOG_TRACE("Received data from connection %lld", selector->id);
 
+    i64_t id;
     ipc_ctx_p ctx;
     obj_p v, res;
 
+    id = selector->id;
     ctx = (ipc_ctx_p)selector->data;
     res = (obj_p)data;
 
-    poll_set_usr_fd(selector->id);
+    poll_set_usr_fd(id);
     v = ipc_process_msg(poll, selector, res);
     poll_set_usr_fd(0);
 
+    // The message may have closed its own connection
+    if (poll_get_selector(poll, id) != selector) {
+        drop_obj(v);
+        return option_none();
+    }
+
     // Send a response if the message is a synchronous request
     if (ctx->msgtype == MSG_TYPE_SYNC)
         ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
-- 
2.43.0


From de6e7aa9480567b4ea254a1ca7ef8f7b56b70724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 062/120] fix: ipc: messages received together with the end of
 the connection were dropped

---
 core/epoll.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 57520af..f06c849 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -344,8 +344,9 @@ i64_t poll_run(poll_p poll) {
             if (selector == NULL)
                 continue;
 
-            // error or hang up
-            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
+            // error or hang up; what was received before it is read first, and reading finds the end
+            if (((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) &&
+                (!(ev.events & POLL_EVENT_READ) || selector->rx.recv_fn == NULL)) {
                 LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
                 poll_deregister(poll, selector->id);
                 continue;
-- 
2.43.0


From ae79ec972112c87459de68723bb0dbc7d3df78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 063/120] fix: ipc: a message arriving before the response was
 returned as the response

---
 core/ipc.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index f998dfd..e5cbddf 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -514,6 +514,7 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
     option_t result;
     obj_p res;
     ipc_ctx_p ctx;
+    u8_t reqtype;
 
     LOG_DEBUG("Starting synchronous IPC send for id %lld", id);
 
@@ -530,10 +531,10 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
 
     // wait for the response
     if (msgtype == MSG_TYPE_SYNC) {
-        do {
-            LOG_DEBUG("Waiting for response from connection %lld", selector->id);
+        for (;;) {
+            LOG_DEBUG("Waiting for response from connection %lld", id);
             result = poll_block_on(poll, selector);
-            LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
+            LOG_DEBUG("Response received from connection %lld RESULT: %s", id,
                       option_is_some(&result) ? "some" : "none");
             if (option_is_some(&result) && result.value != NULL) {
                 res = option_take(&result);
@@ -541,14 +542,24 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
                 if (ctx->msgtype == MSG_TYPE_RESP)
                     break;
 
-                // Process the request otherwise
+                // Process the request otherwise, and keep waiting
+                reqtype = ctx->msgtype;
                 res = ipc_process_msg(poll, selector, res);
+
+                // The request may have closed the connection
+                if (poll_get_selector(poll, id) != selector) {
+                    drop_obj(res);
+                    return err_os();
+                }
+
+                if (reqtype == MSG_TYPE_SYNC)
+                    ipc_send_msg(poll, selector, res, MSG_TYPE_RESP);
                 drop_obj(res);
             } else if (option_is_error(&result)) {
-                LOG_ERROR("Error occurred on connection %lld", selector->id);
+                LOG_ERROR("Error occurred on connection %lld", id);
                 return option_take(&result);
             }
-        } while (option_is_none(&result));
+        }
     }
 
     return res;
-- 
2.43.0


From 697d1d6cf91a86870c30f1eeb6c7ba71563e737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 064/120] fix: ipc: the late response of a request that timed
 out was returned for the next one

---
 core/epoll.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/epoll.c b/core/epoll.c
index f06c849..080fcc8 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -453,8 +453,11 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
 
         LOG_TRACE("select returned %lld", ret);
 
-        if (ret == 0)
+        if (ret == 0) {
+            // a response still to come must not be taken for that of the next request
+            poll_deregister(poll, selector->id);
             return option_error(err_os());
+        }
 
         // In case we have a low level IO recv function, use it
         if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
-- 
2.43.0


From 6323c5e5122e482a0222bb7e859985dddd2b056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 065/120] fix: ipc: a request larger than the socket's buffer
 was never sent completely

---
 core/epoll.c | 16 ++++++++++++++--
 core/ipc.c   |  4 +++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 080fcc8..fdda0e4 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -430,7 +430,7 @@ i64_t poll_run(poll_p poll) {
 
 option_t poll_block_on(poll_p poll, selector_p selector) {
     option_t result;
-    fd_set readfds;
+    fd_set readfds, writefds;
     struct timeval timeout;
     i64_t nbytes, ret;
 
@@ -441,11 +441,14 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
         // Setup select (must be done each iteration as select modifies these)
         FD_ZERO(&readfds);
         FD_SET(selector->fd, &readfds);
+        FD_ZERO(&writefds);
+        if (selector->tx.buf != NULL)
+            FD_SET(selector->fd, &writefds);
         timeout.tv_sec = 3;
         timeout.tv_usec = 0;
 
         // Wait for the file descriptor to become readable
-        ret = select(selector->fd + 1, &readfds, NULL, NULL, &timeout);
+        ret = select(selector->fd + 1, &readfds, &writefds, NULL, &timeout);
         if (ret == -1) {
             LOG_ERROR("select failed");
             return option_error(err_os());
@@ -459,6 +462,15 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
             return option_error(err_os());
         }
 
+        // The request itself may not be sent completely yet
+        if (selector->tx.buf != NULL && FD_ISSET(selector->fd, &writefds) && poll_send(poll, selector) == -1) {
+            poll_deregister(poll, selector->id);
+            return option_error(err_os());
+        }
+
+        if (!FD_ISSET(selector->fd, &readfds))
+            continue;
+
         // In case we have a low level IO recv function, use it
         if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
             nbytes = poll_recv(poll, selector);
diff --git a/core/ipc.c b/core/ipc.c
index e5cbddf..97a74cc 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -253,10 +253,12 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 
     registry.fd = fd;
     registry.type = SELECTOR_TYPE_SOCKET;
-    registry.events = POLL_EVENT_READ | POLL_EVENT_ERROR | POLL_EVENT_HUP;
+    registry.events =
+        POLL_EVENT_READ | POLL_EVENT_WRITE | POLL_EVENT_ERROR | POLL_EVENT_HUP | POLL_EVENT_RDHUP | POLL_EVENT_EDGE;
     registry.recv_fn = sock_recv;
     registry.send_fn = sock_send;
     registry.read_fn = ipc_read_header;
+    registry.data_fn = ipc_on_data;
     registry.close_fn = ipc_on_close;
     registry.error_fn = ipc_on_error;
     registry.data = ctx;
-- 
2.43.0


From b101658817f350ab0fe9f25d39fd066866315d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 066/120] fix: ipc: output waiting for a slow reader stalled
 when it could be sent as input arrived

---
 core/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/epoll.c b/core/epoll.c
index fdda0e4..f5dcc55 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -370,7 +370,7 @@ i64_t poll_run(poll_p poll) {
 
                         if (nbytes == 0) {
                             // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
-                            goto next_event;
+                            break;
                         }
                     }
 
-- 
2.43.0


From 3d4947a4e7c34362eb8fb0127b427c9934450162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 067/120] fix: parse: text without a terminator was read past
 its end

---
 core/parse.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 4174519..42b5700 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -1248,7 +1248,7 @@ obj_p parse_do(parser_t *parser) {
     return lst != NULL_OBJ ? lst : car;
 }
 
-obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+static obj_p parse_text(lit_p input, i64_t input_len, obj_p nfo) {
     obj_p res, err;
     span_t span;
 
@@ -1292,3 +1292,17 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
 
     return res;
 }
+
+obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+    obj_p res;
+    str_p text;
+
+    // The scanner looks beyond the token it reads, so the text must be terminated: strings are not
+    text = (str_p)heap_alloc(input_len + 1);
+    memcpy(text, input, input_len);
+    text[input_len] = '\0';
+    res = parse_text(text, input_len, nfo);
+    heap_free(text);
+
+    return res;
+}
-- 
2.43.0


From 9c9e97f2049a88221dc8d9008291928b89419b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 068/120] fix: timers: the id returned did not name the timer,
 and removing one could misorder the rest

---
 core/chrono.c | 43 ++++++++++++++++++++++++-------------------
 core/chrono.h |  1 +
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..d8dada9 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -263,6 +263,7 @@ timers_p timers_create(i64_t capacity) {
     timers->capacity = capacity;
     timers->size = 0;
     timers->counter = 0;
+    timers->current = NULL;
 
     return timers;
 }
@@ -285,24 +286,31 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
 
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
+    timer_push(timers, timer);
 
-    return timer_push(timers, timer);
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
     i64_t i, l;
 
-    l = (i64_t)timers->size;
-
-    if (id < 0 || id >= l)
+    // The timer whose callback is running is out of the heap: it is not put back
+    if (timers->current != NULL && timers->current->id == id) {
+        timers->current->num = 0;
         return;
+    }
+
+    l = (i64_t)timers->size;
 
     for (i = 0; i < l; i++) {
         if (timers->timers[i]->id == id) {
             timer_free(timers->timers[i]);
-            timers->timers[i] = timers->timers[timers->size - 1];
             timers->size--;
-            timer_down(timers, i);
+            if (i < timers->size) {
+                timers->timers[i] = timers->timers[timers->size];
+                timer_up(timers, i);
+                timer_down(timers, i);
+            }
             return;
         }
     }
@@ -321,9 +329,11 @@ i64_t timer_next_timeout(timers_p timers) {
         timer = timer_pop(timers);
 
         // Execute the callback associated with the timer
+        timers->current = timer;
         vm_stack_push(i64(now));
         res = call(timer->clb, 1);
         drop_obj(vm_stack_pop());
+        timers->current = NULL;
 
         if (IS_ERR(res))
             io_write(1, MSG_TYPE_RESP, res);
@@ -331,19 +341,14 @@ i64_t timer_next_timeout(timers_p timers) {
         drop_obj(res);
 
         // Check if the timer should be repeated
-        if (timer->num > 0) {
-            if (timer->num > 1) {
-                timer->num--;  // Decrement repeat count if not infinite
-
-                // Update the timer's expiration time for the next occurrence
-                timer->exp += timer->tic;
-
-                // Re-add the timer to the heap
-                timer_push(timers, timer);
-            } else {
-                // Free the timer if it should not be repeated
-                timer_free(timer);
-            }
+        if (timer->num > 1) {
+            timer->num--;
+
+            // Update the timer's expiration time for the next occurrence
+            timer->exp += timer->tic;
+
+            // Re-add the timer to the heap
+            timer_push(timers, timer);
         } else {
             // Free the timer if it should not be repeated
             timer_free(timer);
diff --git a/core/chrono.h b/core/chrono.h
index 1b65deb..706c716 100644
--- a/core/chrono.h
+++ b/core/chrono.h
@@ -42,6 +42,7 @@ typedef struct timers_t {
     i64_t capacity;       // Maximum size of the heap
     i64_t size;           // Current number of timers in the heap
     i64_t counter;        // Counter to assign unique IDs to timers
+    ray_timer_p current;  // Timer whose callback is running
 } *timers_p;
 
 #if defined(OS_WINDOWS)
-- 
2.43.0


From 0ef02482c777fd383e1b23caf7134e2b846e38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 069/120] fix: timers: a timer without an end fired once

---
 core/chrono.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index d8dada9..f888f0b 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -341,8 +341,9 @@ i64_t timer_next_timeout(timers_p timers) {
         drop_obj(res);
 
         // Check if the timer should be repeated
-        if (timer->num > 1) {
-            timer->num--;
+        if (timer->num == NULL_I64 || timer->num > 1) {
+            if (timer->num != NULL_I64)
+                timer->num--;  // Decrement repeat count if not infinite
 
             // Update the timer's expiration time for the next occurrence
             timer->exp += timer->tic;
@@ -397,6 +398,10 @@ obj_p ray_timer(obj_p *x, i64_t n) {
     if (AS_LAMBDA(x[2])->args->len != 1)
         return err_arity(1, AS_LAMBDA(x[2])->args->len, 3);
 
+    // A timer without an interval and without an end would never let go
+    if (x[0]->i64 < 1 && x[1]->i64 == 0)
+        return err_domain(1, 0);
+
     timers = runtime_get()->poll->timers;
 
     num = (i64_t)((x[1]->i64 == 0) ? NULL_I64 : x[1]->i64);
-- 
2.43.0


From c9f554c004c54b8094e3ac1fbd58a614730c1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 070/120] fix: timers: the seventeenth timer was lost

---
 core/chrono.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index f888f0b..77f79e5 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -235,13 +235,15 @@ nil_t timer_down(timers_p timers, i64_t index) {
     }
 }
 
-i64_t timer_push(timers_p timers, ray_timer_p timer) {
-    if (timers->size == timers->capacity)
-        return -1;
+nil_t timer_push(timers_p timers, ray_timer_p timer) {
+    if (timers->size == timers->capacity) {
+        timers->capacity *= 2;
+        timers->timers = (ray_timer_p *)heap_realloc(timers->timers, timers->capacity * sizeof(ray_timer_p));
+    }
 
     timers->timers[timers->size] = timer;
     timer_up(timers, timers->size);
-    return timers->size++;
+    timers->size++;
 }
 
 ray_timer_p timer_pop(timers_p timers) {
-- 
2.43.0


From a97a64dda9a36cb6aab6bece122da878d33ab8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 071/120] fix: timers: waiting for one more than 24 days ahead
 never ended

---
 core/epoll.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index f5dcc55..dc689d1 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -23,6 +23,7 @@
 
 #include <stdio.h>
 #include <errno.h>
+#include <limits.h>
 #include <signal.h>
 #include <sys/eventfd.h>
 #include <fcntl.h>
@@ -317,6 +318,9 @@ i64_t poll_run(poll_p poll) {
         LOG_TRACE("Waiting for events");
 
         timeout = timer_next_timeout(poll->timers);
+        // what epoll can wait at most: the rest is waited for afterwards
+        if (timeout > INT_MAX)
+            timeout = INT_MAX;
         nfds = epoll_wait(poll->fd, events, MAX_EVENTS, timeout);
 
         if (nfds == -1) {
-- 
2.43.0


From 54ee9924b3c734b5079e88d8264a75c446b255c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 072/120] fix: a splayed symbol column reads back with the
 symbols of its own symbol file

---
 core/io.c   | 209 ++++++++++++++++++++++++++++++++++------------------
 core/io.h   |   1 +
 core/vary.c |  37 ++++++++--
 3 files changed, 166 insertions(+), 81 deletions(-)

diff --git a/core/io.c b/core/io.c
index 5f87b11..e220558 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1104,7 +1104,7 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
         a = *(x + i);
         for (j = 0; j < l; j++) {
             p = ht_oa_tab_next(&set, AS_SYMBOL(a)[j]);
-            if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64) {
+            if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64 && AS_SYMBOL(a)[j] != NULL_I64) {
                 AS_SYMBOL(AS_LIST(set)[0])[p] = AS_SYMBOL(a)[j];
                 h++;
             }
@@ -1126,28 +1126,64 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
     return vec;
 }
 
-obj_p io_get_symfile(obj_p path) {
+obj_p io_read_symfile(obj_p path) {
     obj_p s, col, v;
 
-    if (path->len < 2 || AS_C8(path)[path->len - 1] != '/') {
-        v = ray_get(path);
-    } else {
-        s = string_from_str("sym", 3);
-        col = ray_concat(path, s);
-        v = ray_get(col);
-        drop_obj(s);
-        drop_obj(col);
-    }
+    if (path->len < 2 || AS_C8(path)[path->len - 1] != '/')
+        return ray_get(path);
 
-    if (IS_ERR(v))
-        return v;
+    s = string_from_str("sym", 3);
+    col = ray_concat(path, s);
+    v = ray_get(col);
+    drop_obj(s);
+    drop_obj(col);
+
+    return v;
+}
+
+static b8_t io_syms_prefix(obj_p x, obj_p y) {
+    return x->len <= y->len && memcmp(AS_SYMBOL(x), AS_SYMBOL(y), x->len * sizeof(i64_t)) == 0;
+}
+
+// All the enumerations in memory refer to the one variable `sym`, so it may only grow: it is bound to syms
+// unless that changed the meaning of what was read before. Returns whether enumerations over syms can be used
+static b8_t io_bind_syms(obj_p syms) {
+    obj_p s, *cur;
+
+    if (syms->type != TYPE_SYMBOL)
+        return B8_FALSE;
+
+    cur = resolve(SYMBOL_SYM);
+
+    if (cur != NULL && (*cur)->type != TYPE_SYMBOL)
+        return B8_FALSE;
+
+    if (cur != NULL && io_syms_prefix(syms, *cur))
+        return B8_TRUE;
+
+    if (cur != NULL && !io_syms_prefix(*cur, syms))
+        return B8_FALSE;
 
     s = symbol("sym", 3);
-    drop_obj(ray_set(s, v));
+    drop_obj(binary_set(s, syms));
     drop_obj(s);
+
+    return B8_TRUE;
+}
+
+obj_p io_get_symfile(obj_p path) {
+    b8_t bound;
+    obj_p v;
+
+    v = io_read_symfile(path);
+
+    if (IS_ERR(v))
+        return v;
+
+    bound = io_bind_syms(v);
     drop_obj(v);
 
-    return NULL_OBJ;
+    return bound ? NULL_OBJ : err_value(0);
 }
 
 obj_p io_set_table(obj_p path, obj_p table) {
@@ -1160,7 +1196,7 @@ obj_p io_set_table(obj_p path, obj_p table) {
 
     // Save as a blob (serialized)
     s = cstring_from_obj(path);
-    fd = fs_fopen(AS_C8(s), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+    fd = fs_fcreate(AS_C8(s));
 
     if (fd == -1) {
         res = err_os();
@@ -1192,8 +1228,9 @@ obj_p io_set_table(obj_p path, obj_p table) {
 }
 
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
-    i64_t i, l;
+    i64_t i, j, l;
     obj_p res, col, s, p, v, e, cols, sym;
+    b8_t enums;
 
     // save columns schema
     s = cstring_from_str(".d", 2);
@@ -1210,84 +1247,86 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
     l = AS_LIST(table)[0]->len;
 
+    if (symfile->type != TYPE_NULL && symfile->type != TYPE_C8)
+        return err_type(TYPE_C8, symfile->type, 0, 0);
+
     cols = LIST(0);
 
+    // there is no place for a symfile next to a column of that name: symbols are saved as they are
+    enums = symfile->type == TYPE_C8 || find_raw(AS_LIST(table)[0], &SYMBOL_SYM) == NULL_I64;
+
     // find symbol columns
     for (i = 0; i < l; i++) {
-        if (AS_LIST(AS_LIST(table)[1])[i]->type == TYPE_SYMBOL)
-            push_obj(&cols, clone_obj(AS_LIST(AS_LIST(table)[1])[i]));
+        v = AS_LIST(AS_LIST(table)[1])[i];
+        v = (v->type == TYPE_ENUM) ? ray_value(v) : clone_obj(v);
+        if (v->type == TYPE_SYMBOL)
+            push_obj(&cols, v);
+        else
+            drop_obj(v);
     }
 
     sym = distinct_syms(AS_LIST(cols), cols->len);
 
-    if (sym->len > 0) {
-        switch (symfile->type) {
-            case TYPE_NULL:
-                s = cstring_from_str("sym", 3);
-                col = ray_concat(path, s);
-                res = binary_set(col, sym);
-                drop_obj(s);
-                drop_obj(col);
-                break;
-            case TYPE_C8:
-                // First we need to ckeck if symfile is already exist, if so - we need to merge
-                // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
-                // ones
-                s = ray_get(symfile);
-                if (s->type == TYPE_SYMBOL) {
-                    // First retrieve distinct symbols from the new columns not present in current sym file
-                    v = ray_except(sym, s);
-                    drop_obj(sym);
-                    sym = ray_concat(s, v);
-                    drop_obj(v);
-                }
-
-                drop_obj(s);
-                res = binary_set(symfile, sym);
-                break;
-            default:
-                drop_obj(cols);
+    if (enums && cols->len > 0) {
+        if (symfile->type == TYPE_NULL) {
+            s = cstring_from_str("sym", 3);
+            col = ray_concat(path, s);
+            res = binary_set(col, sym);
+            drop_obj(s);
+            drop_obj(col);
+        } else {
+            // First we need to ckeck if symfile is already exist, if so - we need to merge
+            // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
+            // ones
+            s = ray_get(symfile);
+            if (s->type == TYPE_SYMBOL) {
+                // First retrieve distinct symbols from the new columns not present in current sym file
+                v = ray_except(sym, s);
                 drop_obj(sym);
-                return err_type(TYPE_C8, symfile->type, 0, 0);
-        }
-
-        if (IS_ERR(res))
-            return res;
-
-        drop_obj(res);
-
-        s = symbol("sym", 3);
-        res = binary_set(s, sym);
+                sym = ray_concat(s, v);
+                drop_obj(v);
+            }
 
-        drop_obj(s);
+            drop_obj(s);
+            res = binary_set(symfile, sym);
+        }
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(cols);
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
+        io_bind_syms(sym);
     }
 
     drop_obj(cols);
-    drop_obj(sym);
     // --
 
     // save columns data
     for (i = 0; i < l; i++) {
         v = at_idx(AS_LIST(table)[1], i);
 
-        // symbol column need to be converted to enum
-        if (v->type == TYPE_SYMBOL) {
-            s = symbol("sym", 3);
-            e = ray_enum(s, v);
-            drop_obj(s);
+        if (v->type == TYPE_ENUM) {
+            e = ray_value(v);
             drop_obj(v);
-
-            if (IS_ERR(e))
-                return e;
-
             v = e;
         }
 
+        // symbol column need to be converted to enum
+        if (enums && v->type == TYPE_SYMBOL) {
+            if (sym->len > 0) {
+                e = index_find_i64(AS_I64(sym), sym->len, AS_I64(v), v->len);
+            } else {
+                e = I64(v->len);
+                for (j = 0; j < v->len; j++)
+                    AS_I64(e)[j] = NULL_I64;
+            }
+            drop_obj(v);
+            v = enumerate(symboli64(SYMBOL_SYM), e);
+        }
+
         p = at_idx(AS_LIST(table)[0], i);
         s = cast_obj(TYPE_C8, p);
         col = ray_concat(path, s);
@@ -1298,18 +1337,22 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
         drop_obj(s);
         drop_obj(col);
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
     }
 
+    drop_obj(sym);
+
     return clone_obj(path);
 }
 
 obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
     obj_p col, keys, vals, val, s, v;
-    i64_t i, l;
+    i64_t i, j, l;
     b8_t syms_present = B8_FALSE;
 
     // first try to read columns schema
@@ -1355,10 +1398,30 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
             syms_present = B8_TRUE;
     }
 
-    // read symbol data (if any) if sym is not present in current env
+    // read symbol data (if any)
     // symfile is optional - ignore error if it doesn't exist
-    if (syms_present && resolve(SYMBOL_SYM) == NULL)
-        drop_obj((symfile->type != TYPE_NULL) ? io_get_symfile(symfile) : io_get_symfile(path));
+    if (syms_present) {
+        if (symfile->type == TYPE_SYMBOL)
+            s = clone_obj(symfile);
+        else
+            s = io_read_symfile((symfile->type != TYPE_NULL) ? symfile : path);
+
+        if (s->type == TYPE_SYMBOL && !io_bind_syms(s)) {
+            // sym of the current env stands for other symbols: take the ones of the symfile
+            for (i = 0; i < l; i++) {
+                val = AS_LIST(vals)[i];
+                if (val->type == TYPE_ENUM) {
+                    v = SYMBOL(val->len);
+                    for (j = 0; j < val->len; j++)
+                        AS_SYMBOL(v)[j] = ENUM_SYM(AS_SYMBOL(s), s->len, AS_I64(ENUM_VAL(val))[j]);
+                    drop_obj(val);
+                    AS_LIST(vals)[i] = v;
+                }
+            }
+        }
+
+        drop_obj(s);
+    }
 
     return table(keys, vals);
 }
diff --git a/core/io.h b/core/io.h
index 3ee9e67..b44bd6f 100644
--- a/core/io.h
+++ b/core/io.h
@@ -36,6 +36,7 @@ obj_p ray_parse(obj_p x);
 obj_p ray_eval(obj_p x);
 obj_p ray_load(obj_p x);
 obj_p io_write(i64_t fd, u8_t msg_type, obj_p obj);
+obj_p io_read_symfile(obj_p path);
 obj_p io_get_symfile(obj_p path);
 obj_p io_set_table(obj_p path, obj_p table);
 obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile);
diff --git a/core/vary.c b/core/vary.c
index ad17a64..fe59259 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -185,7 +185,7 @@ obj_p ray_set_parted(obj_p *x, i64_t n) {
 obj_p ray_get_parted(obj_p *x, i64_t n) {
     i8_t type;
     i64_t i, j, l, wide;
-    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res;
+    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res, syms;
 
     switch (n) {
         case 2:
@@ -195,11 +195,6 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
             if (x[1]->type != -TYPE_SYMBOL)
                 return err_type(-TYPE_SYMBOL, x[1]->type, 2, 0);
 
-            // Load symfile if present (needed before reading partitions with ENUM columns)
-            // Ignore error if symfile doesn't exist - it's optional
-            if (resolve(SYMBOL_SYM) == NULL)
-                drop_obj(io_get_symfile(x[0]));
-
             // Read directories structure
             path = cstring_from_obj(x[0]);
             dir = fs_read_dir(AS_C8(path));
@@ -252,26 +247,47 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 return err_type(0, 0, 0, 0);
             }
 
+            // The symfile shared by the partitions, if there is one
+            syms = io_read_symfile(x[0]);
+            if (syms->type != TYPE_SYMBOL) {
+                drop_obj(syms);
+                syms = NULL_OBJ;
+            }
+
             // Load schema of the first partition
             path = str_fmt(-1, "%.*s%.*s/%s/", (i32_t)x[0]->len, AS_C8(x[0]), (i32_t)AS_LIST(res)[0]->len,
                            AS_C8(AS_LIST(res)[0]), str_from_symbol(x[1]->i64));
 
-            t1 = io_get_table_splayed(path, x[0]);
+            t1 = io_get_table_splayed(path, syms);
 
             if (IS_ERR(t1)) {
                 drop_obj(gcol);
                 drop_obj(res);
                 drop_obj(path);
+                drop_obj(syms);
                 return t1;
             }
 
             wide = AS_LIST(t1)[1]->len;
 
+            // Symbols of a partition must be enumerated over the symfile in use
+            for (i = 0; i < wide; i++) {
+                if (AS_LIST(AS_LIST(t1)[1])[i]->type == TYPE_SYMBOL) {
+                    drop_obj(gcol);
+                    drop_obj(res);
+                    drop_obj(t1);
+                    drop_obj(path);
+                    drop_obj(syms);
+                    return err_type(TYPE_ENUM, TYPE_SYMBOL, 0, 0);
+                }
+            }
+
             if (wide == 0) {
                 drop_obj(gcol);
                 drop_obj(res);
                 drop_obj(t1);
                 drop_obj(path);
+                drop_obj(syms);
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
@@ -291,7 +307,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 path = str_fmt(-1, "%.*s%.*s/%s/", (i32_t)x[0]->len, AS_C8(x[0]), (i32_t)AS_LIST(res)[i]->len,
                                AS_C8(AS_LIST(res)[i]), str_from_symbol(x[1]->i64));
 
-                t2 = io_get_table_splayed(path, x[0]);
+                t2 = io_get_table_splayed(path, syms);
 
                 if (IS_ERR(t2)) {
                     drop_obj(gcol);
@@ -299,6 +315,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     drop_obj(t1);
                     drop_obj(path);
                     drop_obj(fmaps);
+                    drop_obj(syms);
                     return t2;
                 }
 
@@ -310,6 +327,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     drop_obj(t2);
                     drop_obj(path);
                     drop_obj(fmaps);
+                    drop_obj(syms);
                     return err_length(0, 0, 0, 0, 0, 0);
                 }
 
@@ -323,6 +341,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     drop_obj(t2);
                     drop_obj(path);
                     drop_obj(fmaps);
+                    drop_obj(syms);
                     return err_type(0, 0, 0, 0);
                 }
 
@@ -337,6 +356,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                         drop_obj(t2);
                         drop_obj(path);
                         drop_obj(fmaps);
+                        drop_obj(syms);
                         return err_type(0, 0, 0, 0);
                     }
                 }
@@ -379,6 +399,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
             }
 
             drop_obj(sym);
+            drop_obj(syms);
             drop_obj(res);
             drop_obj(t1);
             drop_obj(gcol);
-- 
2.43.0


From a843bcd830cd1b0b1473619fec3ae505133441c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 073/120] fix: writing a file no longer changes values read
 from it before

---
 core/binary.c |  8 ++++----
 core/fs.c     | 17 +++++++++++++++++
 core/fs.h     |  1 +
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..7dba8d6 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -74,7 +74,7 @@ obj_p binary_set(obj_p x, obj_p y) {
             switch (y->type) {
                 case TYPE_SYMBOL:
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -107,7 +107,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                     return io_set_table(x, y);
                 case TYPE_ENUM:
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -212,7 +212,7 @@ obj_p binary_set(obj_p x, obj_p y) {
 
                     // save anymap
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -263,7 +263,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                 default:
                     if (IS_VECTOR(y)) {
                         path = cstring_from_obj(x);
-                        fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                        fd = fs_fcreate(AS_C8(path));
 
                         if (fd == -1) {
                             res = err_os();
diff --git a/core/fs.c b/core/fs.c
index 2536554..585518d 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -61,6 +61,9 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return (i64_t)CreateFile(path, attrs, FILE_SHARE_READ | FILE_SHARE_WRITE, NULL, disposition, flags, NULL);
 }
 
+// A file for a new value, replacing what was there.
+i64_t fs_fcreate(lit_p path) { return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC); }
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
@@ -199,6 +202,9 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
+// A file for a new value, replacing what was there.
+i64_t fs_fcreate(lit_p path) { return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC); }
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
@@ -313,6 +319,17 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     return open(path, attrs, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
 }
 
+// A file for a new value, replacing what was there. Values read from the old file are mapped onto it, so it is not
+// written in place: it keeps its contents until they are unmapped.
+i64_t fs_fcreate(lit_p path) {
+    struct stat st;
+
+    if (lstat(path, &st) == 0 && S_ISREG(st.st_mode))
+        unlink(path);
+
+    return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+}
+
 i64_t fs_fdelete(lit_p path) {
     i64_t res;
     obj_p s;
diff --git a/core/fs.h b/core/fs.h
index 033f4c4..ff06d78 100644
--- a/core/fs.h
+++ b/core/fs.h
@@ -48,6 +48,7 @@
 #include <fcntl.h>
 
 i64_t fs_fopen(lit_p path, i64_t attrs);
+i64_t fs_fcreate(lit_p path);
 i64_t fs_fdelete(lit_p path);
 i64_t fs_fsize(i64_t fd);
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size);
-- 
2.43.0


From cf113f3b51e65e2ef2b2517c38def03b89dbead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 074/120] fix: appending to a value mapped from a file kept
 neither its length nor its heap order

---
 core/rayforce.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index f8c2409..28d4961 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -385,7 +385,9 @@ obj_p resize_obj(obj_p* obj, i64_t len) {
         new_obj = (obj_p)heap_alloc(obj_size);
         // Copy only the original content, not the new (larger) size
         i64_t copy_size = (len < (*obj)->len) ? len : (*obj)->len;
-        memcpy(new_obj, old_obj, sizeof(struct obj_t) + copy_size * elem_size);
+        memcpy(new_obj->raw, old_obj->raw, copy_size * elem_size);
+        new_obj->type = old_obj->type;
+        new_obj->attrs = 0;
         new_obj->mmod = MMOD_INTERNAL;
         new_obj->rc = 1;
         *obj = new_obj;
@@ -414,6 +416,8 @@ obj_p push_raw(obj_p* obj, raw_p val) {
         memcpy(new_obj->raw, (*obj)->raw, off);
         new_obj->mmod = MMOD_INTERNAL;
         new_obj->type = (*obj)->type;
+        new_obj->attrs = 0;
+        new_obj->len = (*obj)->len;
         new_obj->rc = 1;
         drop_obj(*obj);
         *obj = new_obj;
@@ -870,7 +874,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                     return i64(AS_I64(ENUM_VAL(obj))[idx]);
                 }
                 idx = AS_I64(ENUM_VAL(obj))[idx];
-                res = at_idx(v, idx);
+                res = symboli64(ENUM_SYM(AS_I64(v), v->len, idx));
                 drop_obj(v);
                 return res;
             }
@@ -1191,7 +1195,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
 
             res = SYMBOL(len);
             for (i = 0; i < len; i++)
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(obj))[ids[i]]];
+                AS_I64(res)[i] = ENUM_SYM(AS_I64(v), v->len, AS_I64(ENUM_VAL(obj))[ids[i]]);
 
             drop_obj(v);
 
@@ -1303,7 +1307,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
                     m = n;
                     n += AS_LIST(obj)[++mapid]->len;
                 }
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]];
+                AS_I64(res)[i] = ENUM_SYM(AS_I64(v), v->len, AS_I64(ENUM_VAL(AS_LIST(obj)[mapid]))[ids[i] - m]);
             }
 
             drop_obj(v);
-- 
2.43.0


From d551336747d64f8759c21a0db1638100550be48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 075/120] fix: aggregates, comparisons, joins and set
 operations on columns read from disk

---
 core/aggr.c    | 30 ++++++++++++++++------
 core/cmp.c     | 67 +++++++++++---------------------------------------
 core/compose.c | 10 ++++++++
 core/index.c   | 17 ++++++++-----
 core/items.c   | 50 +++++++++++++++++++++++--------------
 core/join.c    | 15 ++++++++---
 core/ops.c     |  3 +++
 core/util.h    |  3 +++
 8 files changed, 106 insertions(+), 89 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 467fdbe..9bece4e 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -512,7 +512,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 return res;
             }
             case TYPE_ENUM: {
-                i64_t *in = AS_I64(val);
+                i64_t *in = AS_I64(ENUM_VAL(val));
                 res = I64(n);
                 i64_t *out = AS_I64(res);
                 if (filter_ids) {
@@ -538,7 +538,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = ENUM_SYM(xe, sym->len, xo[i]);
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
                 return res;
@@ -609,7 +609,10 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
+            if (val->type == TYPE_ENUM)
+                parts = aggr_map((raw_p)aggr_first_partial, ENUM_VAL(val), TYPE_I64, index);
+            else
+                parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
@@ -635,7 +638,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_SYMBOL(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = ENUM_SYM(xe, sym->len, xo[i]);
 
                 drop_obj(sym);
                 res->type = TYPE_SYMBOL;
@@ -923,7 +926,10 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
         case TYPE_ENUM:
-            parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
+            if (val->type == TYPE_ENUM)
+                parts = aggr_map((raw_p)aggr_last_partial, ENUM_VAL(val), TYPE_I64, index);
+            else
+                parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
@@ -947,9 +953,10 @@ obj_p aggr_last(obj_p val, obj_p index) {
                 xe = AS_SYMBOL(sym);
                 xo = AS_I64(res);
                 for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
+                    xo[i] = ENUM_SYM(xe, sym->len, xo[i]);
 
                 drop_obj(sym);
+                res->type = TYPE_SYMBOL;
             }
 
             return res;
@@ -1321,9 +1328,16 @@ obj_p aggr_count_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
     UNUSED(val);
     switch (val->type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
+        case TYPE_ENUM:
+        case TYPE_MAPLIST:
+            // the values do not matter
             AGGR_ITER(
                 index, len, offset, val, res, i32, i64, $out[$y] = 0,
                 {
@@ -3031,7 +3045,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
 }
 
 obj_p aggr_collect(obj_p val, obj_p index) {
-    i64_t i, j, l, n;
+    i64_t i, j, l, n, s;
     obj_p k, v, res, filter;
 
     l = index_group_len(index);
@@ -3081,7 +3095,7 @@ obj_p aggr_collect(obj_p val, obj_p index) {
                 return err_type(0, 0, 0, 0);
             }
 
-            AGGR_ITER(index, l, 0, val, res, i64, list, , push_raw($out + $y, AS_SYMBOL(v) + $in[$x]), );
+            AGGR_ITER(index, l, 0, val, res, i64, list, , (s = ENUM_SYM(AS_SYMBOL(v), v->len, $in[$x]), push_raw($out + $y, &s)), );
             drop_obj(v);
             return res;
         case TYPE_GUID:
diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..e0e1196 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -70,9 +70,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
         i64_t i;                                                                               \
-        i64_t *xi, *ei, si;                                                                    \
         b8_t *out;                                                                             \
-        obj_p k, sym, e;                                                                       \
                                                                                                \
         switch (MTYPE2(x->type, y->type)) {                                                    \
             case MTYPE2(-TYPE_B8, -TYPE_B8):                                                   \
@@ -257,55 +255,6 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_TIMESTAMP, TYPE_DATE):                                            \
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
-            case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
-                k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(x);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(sym);                                                              \
-                ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
-                k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(y);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
-                                                                                               \
-                xi = AS_I64(x);                                                                \
-                ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-                                                                                               \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
@@ -359,7 +308,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
@@ -376,6 +325,20 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         return map;
     }
 
+    // Enumerations are compared as the symbols they stand for
+    if (x->type == TYPE_ENUM) {
+        v = ray_value(x);
+        res = cmp_map(op, v, y);
+        drop_obj(v);
+        return res;
+    }
+    if (y->type == TYPE_ENUM) {
+        v = ray_value(y);
+        res = cmp_map(op, x, v);
+        drop_obj(v);
+        return res;
+    }
+
     // Handle TYPE_MAPLIST (lazy list type)
     // Optimization: for MAPLIST comparison with atom, avoid full materialization
     if (x->type == TYPE_MAPLIST && IS_ATOM(y) && y->type < 0) {
diff --git a/core/compose.c b/core/compose.c
index 97bd203..8218e18 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -466,6 +466,16 @@ obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, xl, yl;
     obj_p vec, kx, kxy, ix, iy, dx, dy;
 
+    // Columns read from files are joined as the values they stand for
+    if (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST || y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) {
+        kx = (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST) ? ray_value(x) : clone_obj(x);
+        kxy = (y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) ? ray_value(y) : clone_obj(y);
+        vec = ray_concat(kx, kxy);
+        drop_obj(kx);
+        drop_obj(kxy);
+        return vec;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
             vec = B8(2);
diff --git a/core/index.c b/core/index.c
index 268d6a9..9de5f69 100644
--- a/core/index.c
+++ b/core/index.c
@@ -78,7 +78,10 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-                if (AS_I64(lc)[r1] != AS_I64(rc)[r2])
+                if (UNLIKELY(rc->type == TYPE_ENUM)) {
+                    if (ops_eq_idx(lc, r1, rc, r2) == 0)
+                        return 1;
+                } else if (AS_I64(lc)[r1] != AS_I64(rc)[r2])
                     return 1;
                 break;
             case TYPE_I32:
@@ -169,7 +172,7 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
             u64v = (i64_t *)AS_I64(obj);
             if (filter) {
                 for (i = offset; i < len + offset; i++)
-                    out[i] = hash_index_u64(u64v[filter[i]], out[i]);
+                    out[i] = hash_index_u64(out[i], u64v[filter[i]]);
             } else {
                 // Use best available SIMD (AVX2/NEON) or scalar fallback
                 hash_index_i64_batch((u64_t *)(out + offset), (const u64_t *)(u64v + offset), len);
@@ -218,10 +221,10 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 ids = AS_I64(ENUM_VAL(obj));
                 if (filter)
                     for (i = offset; i < len + offset; i++)
-                        out[i] = hash_index_u64(u64v[ids[filter[i]]], out[i]);
+                        out[i] = hash_index_u64(out[i], ENUM_SYM(u64v, v->len, ids[filter[i]]));
                 else
                     for (i = offset; i < len + offset; i++)
-                        out[i] = hash_index_u64(u64v[ids[i]], out[i]);
+                        out[i] = hash_index_u64(out[i], ENUM_SYM(u64v, v->len, ids[i]));
                 drop_obj(v);
             } else {
                 u64v = (i64_t *)AS_I64(ENUM_VAL(obj));
@@ -2413,7 +2416,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     values = AS_LIST(obj);
     indices = is_null(filter) ? NULL : AS_I64(filter);
-    len = indices ? filter->len : values[0]->len;
+    len = indices ? (u64_t)filter->len : (u64_t)ops_count(values[0]);
 
     // Nothing to take the scopes of
     if (len == 0)
@@ -2450,9 +2453,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-            case TYPE_ENUM:
                 scopes[i] = index_scope_i64(AS_I64(values[i]), indices, len);
                 break;
+            case TYPE_ENUM:
+                scopes[i] = index_scope_i64(AS_I64(ENUM_VAL(values[i])), indices, len);
+                break;
             default:
                 __builtin_unreachable();
         }
diff --git a/core/items.c b/core/items.c
index 2a522bc..5bc2662 100644
--- a/core/items.c
+++ b/core/items.c
@@ -187,7 +187,7 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
@@ -197,12 +197,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 return i64(AS_I64(v)[y->i64]);
             }
 
-            if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
-                drop_obj(s);
-                return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
-            }
-
-            res = at_idx(s, AS_I64(v)[y->i64]);
+            res = symboli64(ENUM_SYM(AS_SYMBOL(s), s->len, AS_I64(v)[y->i64]));
 
             drop_obj(s);
 
@@ -226,7 +221,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 res = I64(yl);
 
                 for (i = 0; i < yl; i++) {
-                    if (AS_I64(y)[i] >= (i64_t)n) {
+                    if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                         drop_obj(s);
                         drop_obj(res);
                         return err_index(AS_I64(y)[i], n, 0, 0);
@@ -243,13 +238,13 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = SYMBOL(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(AS_I64(y)[i], n, 0, 0);
                 }
 
-                AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
+                AS_SYMBOL(res)[i] = ENUM_SYM(AS_SYMBOL(s), xl, AS_I64(v)[AS_I64(y)[i]]);
             }
 
             drop_obj(s);
@@ -300,6 +295,18 @@ obj_p ray_at(obj_p x, obj_p y) {
 }
 
 obj_p ray_find(obj_p x, obj_p y) {
+    obj_p xv, yv, res;
+
+    // Enumerations are looked up by the symbols they stand for
+    if (x->type == TYPE_ENUM || y->type == TYPE_ENUM) {
+        xv = (x->type == TYPE_ENUM) ? ray_value(x) : clone_obj(x);
+        yv = (y->type == TYPE_ENUM) ? ray_value(y) : clone_obj(y);
+        res = ray_find(xv, yv);
+        drop_obj(xv);
+        drop_obj(yv);
+        return res;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
         case MTYPE2(TYPE_I64, -TYPE_I64):
@@ -321,8 +328,6 @@ obj_p ray_find(obj_p x, obj_p y) {
         case MTYPE2(TYPE_SYMBOL, TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return index_find_i64(AS_I64(x), x->len, AS_I64(y), y->len);
-        case MTYPE2(TYPE_ENUM, TYPE_ENUM):
-            return index_find_i64(AS_I64(ENUM_VAL(x)), x->len, AS_I64(ENUM_VAL(y)), y->len);
         case MTYPE2(TYPE_F64, TYPE_F64):
             return index_find_i64((i64_t *)AS_F64(x), x->len, (i64_t *)AS_F64(y), y->len);
         case MTYPE2(TYPE_GUID, TYPE_GUID):
@@ -663,7 +668,7 @@ obj_p ray_take(obj_p from, obj_p count) {
             if (is_range) {
                 for (i = 0; i < m; i++) {
                     j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
+                    if (AS_I64(s)[j] < (i64_t)n) {
                         buf = AS_U8(k) + AS_I64(s)[j];
                         v = de_raw(buf, &size);
                         if (IS_ERR(v)) {
@@ -747,6 +752,16 @@ obj_p ray_in(obj_p x, obj_p y) {
     if (IS_ATOM(x) && IS_ATOM(y))
         return b8(cmp_obj(x, y) == 0);
 
+    // Enumerations are looked up by the symbols they stand for
+    if (x->type == TYPE_ENUM || y->type == TYPE_ENUM) {
+        obj_p xv = (x->type == TYPE_ENUM) ? ray_value(x) : clone_obj(x);
+        obj_p yv = (y->type == TYPE_ENUM) ? ray_value(y) : clone_obj(y);
+        vec = ray_in(xv, yv);
+        drop_obj(xv);
+        drop_obj(yv);
+        return vec;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_U8, TYPE_U8):
         case MTYPE2(TYPE_B8, TYPE_B8):
@@ -865,7 +880,7 @@ obj_p ray_within(obj_p x, obj_p y) {
                 min = AS_I64(y)[0];
                 max = AS_I64(y)[1];
 
-                return B8(x->i64 >= min && x->i64 <= max);
+                return b8(x->i64 >= min && x->i64 <= max);
 
             case MTYPE2(TYPE_I64, TYPE_I64):
                 l = x->len;
@@ -1177,10 +1192,7 @@ obj_p ray_value(obj_p x) {
             res = SYMBOL(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl)
-                    AS_SYMBOL(res)[i] = AS_SYMBOL(sym)[AS_I64(e)[i]];
-                else
-                    AS_SYMBOL(res)[i] = NULL_I64;
+                AS_SYMBOL(res)[i] = ENUM_SYM(AS_SYMBOL(sym), sl, AS_I64(e)[i]);
             }
 
             drop_obj(sym);
diff --git a/core/join.c b/core/join.c
index 81ed2e2..d3a2815 100644
--- a/core/join.c
+++ b/core/join.c
@@ -35,6 +35,11 @@
 #include "order.h"
 #include "query.h"
 
+// Type of the values of a column: columns read from files stand for symbols and lists
+static i8_t column_type(obj_p col) {
+    return (col->type == TYPE_ENUM) ? TYPE_SYMBOL : (col->type == TYPE_MAPLIST) ? TYPE_LIST : col->type;
+}
+
 obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
     i64_t i;
     obj_p v, res;
@@ -45,9 +50,9 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
     if (is_null(right_col))
         return clone_obj(left_col);
 
-    type = is_null(left_col) ? right_col->type : left_col->type;
+    type = is_null(left_col) ? column_type(right_col) : column_type(left_col);
 
-    if (right_col->type != type)
+    if (column_type(right_col) != type)
         return err_type(type, right_col->type, 0, 0);
 
     res = vector(type, len);
@@ -72,9 +77,9 @@ obj_p get_column(obj_p left_col, obj_p right_col, obj_p lids, obj_p rids) {
     if (is_null(right_col))
         return at_ids(left_col, AS_I64(lids), lids->len);
 
-    type = is_null(left_col) ? right_col->type : left_col->type;
+    type = is_null(left_col) ? column_type(right_col) : column_type(left_col);
 
-    if (right_col->type != type)
+    if (column_type(right_col) != type)
         return err_type(type, right_col->type, 0, 0);
 
     return at_ids(right_col, AS_I64(rids), rids->len);
@@ -129,6 +134,7 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
         col = select_column(c1, c2, AS_I64(idx), len);
         if (IS_ERR(col)) {
             drop_obj(cols);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -284,6 +290,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         if (IS_ERR(col)) {
             drop_obj(cols);
             drop_obj(idx);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
diff --git a/core/ops.c b/core/ops.c
index 2ca00d2..4cb9d26 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -140,6 +140,9 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_LIST, TYPE_LIST):
             return cmp_obj(AS_LIST(a)[ai], AS_LIST(b)[bi]) == 0;
         case MTYPE2(TYPE_ENUM, TYPE_ENUM):
+            // within one column the indices tell the symbols apart (and need no variable lookup)
+            if (a == b)
+                return AS_I64(ENUM_VAL(a))[ai] == AS_I64(ENUM_VAL(b))[bi];
             lv = at_idx(a, ai);
             rv = at_idx(b, bi);
             eq = lv->i64 == rv->i64;
diff --git a/core/util.h b/core/util.h
index edcc42e..1713145 100644
--- a/core/util.h
+++ b/core/util.h
@@ -104,6 +104,9 @@ nil_t dump_stack(nil_t);
     (x->mmod == MMOD_INTERNAL ? str_from_symbol(AS_LIST(x)[0]->i64) : AS_C8((obj_p)((str_p)x - RAY_PAGE_SIZE)))
 #define ENUM_VAL(x) (x->mmod == MMOD_INTERNAL ? AS_LIST(x)[1] : x)
 
+// Symbol an element of an enumeration stands for: null when it is out of the domain
+#define ENUM_SYM(syms, len, i) (((i) >= 0 && (i) < (i64_t)(len)) ? (syms)[(i)] : NULL_I64)
+
 #define MAPLIST_KEY(x) (((obj_p)((str_p)x - RAY_PAGE_SIZE))->obj)
 #define MAPLIST_VAL(x) (x)
 
-- 
2.43.0


From f3f6d6e2254d31a0688b5354f62aaf13f86ce1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 076/120] fix: queries over a parted table give the values of
 the rows that match

---
 core/aggr.c    | 231 +++++++++++++++++++++++++++++++++----------------
 core/compose.c |  25 +++---
 core/filter.c  |   4 +
 core/index.c   |  10 ++-
 core/items.c   |  45 ++++++----
 core/vary.c    |   8 +-
 6 files changed, 210 insertions(+), 113 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 9bece4e..b266afb 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -23,6 +23,7 @@
 
 #include <math.h>
 #include "aggr.h"
+#include "compose.h"
 #include "math.h"
 #include "ops.h"
 #include "error.h"
@@ -259,6 +260,14 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         $$res;                                                                                                       \
     })
 
+// A parted aggregate whose result is of the type of the column
+#define PARTED_SAME(groups, val, ...)                                        \
+    ({                                                                       \
+        obj_p $$same = PARTED_MAP(groups, val, __VA_ARGS__);                 \
+        $$same->type = AS_LIST(val)[0]->type;                                \
+        $$same;                                                              \
+    })
+
 static obj_p aggr_map_other(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     pool_p pool = runtime_get()->pool;
     i64_t i, l, n, group_count, group_len, out_len, chunk;
@@ -390,6 +399,82 @@ nil_t destroy_partial_result(obj_p res) {
     drop_obj(res);
 }
 
+// Whether an aggregate of a parted column skips rows: some are filtered out, or a partition is empty
+static b8_t parted_sparse(obj_p val, obj_p index) {
+    i64_t i;
+    obj_p filter;
+
+    if (val->type < TYPE_PARTEDLIST || val->type >= TYPE_TABLE)
+        return B8_FALSE;
+
+    filter = index_group_filter(index);
+    if (filter != NULL_OBJ)
+        return filter->type == TYPE_PARTEDI64;
+
+    if (index_group_count(index) != 1)
+        return B8_FALSE;
+
+    for (i = 0; i < (i64_t)val->len; i++)
+        if (ops_count(AS_LIST(val)[i]) == 0)
+            return B8_TRUE;
+
+    return B8_FALSE;
+}
+
+// Aggregate the rows of a parted column that pass the filter: partitions with no such rows are left out
+static obj_p parted_aggr(obj_p (*aggr)(obj_p, obj_p), obj_p val, obj_p index) {
+    i64_t i, j, l, n;
+    obj_p filter, ids, part, parts, idx, res;
+
+    n = index_group_count(index);
+    filter = index_group_filter(index);
+    l = val->len;
+    parts = LIST(l);
+
+    for (i = 0, j = 0; i < l; i++) {
+        part = AS_LIST(val)[i];
+        ids = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
+
+        if (filter == NULL_OBJ || (ids != NULL_OBJ && ids->type == -TYPE_I64)) {
+            if (n != 1 || ops_count(part) > 0)
+                AS_LIST(parts)[j++] = clone_obj(part);
+        } else if (ids != NULL_OBJ && ids->len > 0) {
+            part = at_ids(part, AS_I64(ids), ids->len);
+            if (IS_ERR(part)) {
+                parts->len = j;
+                drop_obj(parts);
+                return part;
+            }
+            AS_LIST(parts)[j++] = part;
+        }
+    }
+
+    parts->len = j;
+    parts->type = val->type;
+
+    // No row is left
+    if (j == 0 && l > 0) {
+        drop_obj(parts);
+        parts = at_ids(AS_LIST(val)[0], NULL, 0);
+        if (IS_ERR(parts))
+            return parts;
+    }
+
+    idx = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(j == 0 ? 1 : n), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ,
+                  NULL_OBJ);
+    res = aggr(parts, idx);
+    drop_obj(idx);
+    drop_obj(parts);
+
+    if (n == 0 && !IS_ERR(res)) {
+        part = at_ids(res, NULL, 0);
+        drop_obj(res);
+        return part;
+    }
+
+    return res;
+}
+
 obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
     i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
@@ -442,8 +527,17 @@ obj_p aggr_first(obj_p val, obj_p index) {
     i64_t *xo, *xe, *first_ids, *filter_ids;
     obj_p parts, res, ek, filter, sym;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_first, val, index);
+
     n = index_group_count(index);
 
+    // The first of a single group over all the partitions
+    if (n == 1 && val->type >= TYPE_PARTEDLIST && val->type < TYPE_TABLE && val->len > 0) {
+        i = 0;
+        return at_ids(AS_LIST(val)[0], &i, 1);
+    }
+
     // Fast path: if first indices are precomputed, use them directly
     first_ids = index_group_first_ids(index);
     filter_ids = index_group_filter_ids(index);
@@ -763,87 +857,45 @@ obj_p aggr_first(obj_p val, obj_p index) {
 
             return res;
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, f64, f64,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_first_partial, f64, f64,
                               if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, guid, guid,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_first_partial, guid, guid,
                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, i32, i32,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_first_partial, i32, i32,
                               if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, i16, i16,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_first_partial, i16, i16,
                               if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
         case TYPE_PARTEDENUM:
-            filter = index_group_filter(index);
-            // Get the enum key from the first partition
-            ek = ray_key(AS_LIST(val)[0]);
-            if (IS_ERR(ek))
-                return ek;
-
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                parts = I64(1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                        break;
-                    }
-                }
-                res = enumerate(ek, parts);
-                return res;
-            }
-
-            // Create the values vector with size n (number of groups/matching partitions)
-            parts = I64(n);
-
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                l = val->len;
-                for (i = 0; i < l; i++)
-                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                }
-                resize_obj(&parts, j);
+            // A partition with some rows filtered out is a vector of symbols
+            res = SYMBOL(n);
+            for (i = 0; i < n; i++) {
+                parts = at_idx(AS_LIST(val)[i], 0);
+                AS_SYMBOL(res)[i] = parts->i64;
+                drop_obj(parts);
             }
-
-            res = enumerate(ek, parts);
             return res;
         case TYPE_MAPCOMMON:
             filter = index_group_filter(index);
             if (filter == NULL_OBJ)
                 return clone_obj(AS_LIST(val)[0]);
 
-            if (n == 1) {
-                // Global first - return first matching value
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = filter->len;
-                for (i = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_DATE(res)[0] = AS_DATE(AS_LIST(val)[0])[i];
-                        break;
-                    }
-                }
-                return res;
-            }
-
-            res = vector(AS_LIST(val)[0]->type, n);
+            // The values of the partitions that have matching rows
             l = filter->len;
-
+            parts = I64(l);
             for (i = 0, j = 0; i < l; i++) {
-                if (AS_LIST(filter)[i] != NULL_OBJ)
-                    AS_DATE(res)[j++] = AS_DATE(AS_LIST(val)[0])[i];
+                obj_p fentry = AS_LIST(filter)[i];
+                if (fentry != NULL_OBJ && (fentry->type == -TYPE_I64 || fentry->len > 0))
+                    AS_I64(parts)[j++] = i;
             }
 
+            res = at_ids(AS_LIST(val)[0], AS_I64(parts), (j < n) ? j : n);
+            drop_obj(parts);
             return res;
         default:
             return err_type(0, 0, 0, 0);
@@ -901,6 +953,9 @@ obj_p aggr_last(obj_p val, obj_p index) {
     i64_t *xo, *xe;
     obj_p parts, res, ek, sym, filter;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_last, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -1062,22 +1117,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_last_partial, i64, i64,
                               if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_last_partial, f64, f64,
                               if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_last_partial, guid, guid,
                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_last_partial, i32, i32,
                               if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
+            return PARTED_SAME(n, val, index, (raw_p)aggr_last_partial, i16, i16,
                               if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
@@ -1117,6 +1172,9 @@ obj_p aggr_sum(obj_p val, obj_p index) {
     i64_t n;
     obj_p parts, res;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_sum, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -1191,6 +1249,9 @@ obj_p aggr_max(obj_p val, obj_p index) {
     i64_t n;
     obj_p parts, res;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_max, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -1227,15 +1288,15 @@ obj_p aggr_max(obj_p val, obj_p index) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_max_partial, i64, i64, $out[$y] = MAXI64($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_max_partial, i64, i64, $out[$y] = MAXI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_max_partial, f64, f64, $out[$y] = MAXF64($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_max_partial, f64, f64, $out[$y] = MAXF64($out[$y], $in[$x]));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_max_partial, i32, i32, $out[$y] = MAXI32($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_max_partial, i32, i32, $out[$y] = MAXI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_max_partial, i16, i16, $out[$y] = MAXI16($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_max_partial, i16, i16, $out[$y] = MAXI16($out[$y], $in[$x]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1273,6 +1334,9 @@ obj_p aggr_min(obj_p val, obj_p index) {
     i64_t n;
     obj_p parts, res;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_min, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -1309,15 +1373,15 @@ obj_p aggr_min(obj_p val, obj_p index) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_min_partial, i64, i64, $out[$y] = MINI64($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_min_partial, i64, i64, $out[$y] = MINI64($out[$y], $in[$x]));
         case TYPE_PARTEDF64:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_min_partial, f64, f64, $out[$y] = MINF64($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_min_partial, f64, f64, $out[$y] = MINF64($out[$y], $in[$x]));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_min_partial, i32, i32, $out[$y] = MINI32($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_min_partial, i32, i32, $out[$y] = MINI32($out[$y], $in[$x]));
         case TYPE_PARTEDI16:
-            return PARTED_MAP(n, val, index, (raw_p)aggr_min_partial, i16, i16, $out[$y] = MINI16($out[$y], $in[$x]));
+            return PARTED_SAME(n, val, index, (raw_p)aggr_min_partial, i16, i16, $out[$y] = MINI16($out[$y], $in[$x]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1397,6 +1461,9 @@ obj_p aggr_count(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     obj_p parts, res, filter;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_count, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -2032,6 +2099,9 @@ obj_p aggr_avg(obj_p val, obj_p index) {
     i64_t *co;
     obj_p parts, res, part;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_avg, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -2894,6 +2964,9 @@ obj_p aggr_dev(obj_p val, obj_p index) {
     i64_t *co;
     obj_p parts, res, part;
 
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_dev, val, index);
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -3046,7 +3119,10 @@ obj_p aggr_dev(obj_p val, obj_p index) {
 
 obj_p aggr_collect(obj_p val, obj_p index) {
     i64_t i, j, l, n, s;
-    obj_p k, v, res, filter;
+    obj_p k, v, res, filter, parts;
+
+    if (parted_sparse(val, index))
+        return parted_aggr(aggr_collect, val, index);
 
     l = index_group_len(index);
     n = index_group_count(index);
@@ -3122,9 +3198,14 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             filter = index_group_filter(index);
             res = LIST(n);
             if (filter == NULL_OBJ) {
-                // No filter - each partition is a group
+                // No filter - each partition is a group, unless there is one group only
+                parts = (n == 1) ? LIST(val->len) : res;
                 for (i = 0; i < (i64_t)val->len; i++)
-                    AS_LIST(res)[i] = ray_value(AS_LIST(val)[i]);
+                    AS_LIST(parts)[i] = ray_value(AS_LIST(val)[i]);
+                if (n == 1) {
+                    AS_LIST(res)[0] = ray_raze(parts);
+                    drop_obj(parts);
+                }
             } else {
                 // With filter - only include matching partitions
                 l = filter->len;
diff --git a/core/compose.c b/core/compose.c
index 8218e18..b81fdd3 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -285,9 +285,12 @@ obj_p ray_table(obj_p x, obj_p y) {
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
-                j = AS_LIST(AS_LIST(y)[i])[0]->len;
+                synergy = B8_FALSE;
+                j = ops_count(AS_LIST(y)[i]);
                 if (cl >= 0 && j != cl)
                     return err_length(0, 0, 0, 0, 0, 0);
+
+                cl = j;
                 break;
             default:
                 return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
@@ -906,19 +909,13 @@ obj_p ray_distinct(obj_p x) {
             // The values are already distinct, just return them
             return clone_obj(AS_LIST(x)[0]);
         case TYPE_PARTEDENUM: {
-            // For parted enum, get the domain (unique symbols) from the first partition
-            // All partitions share the same domain, so we just need to load it once
-            if (x->len == 0)
-                return SYMBOL(0);
-            obj_p first_part = AS_LIST(x)[0];
-            obj_p key = ray_key(first_part);
-            if (IS_ERR(key))
-                return key;
-            obj_p domain = ray_get(key);
-            drop_obj(key);
-            if (IS_ERR(domain))
-                return domain;
-            return domain;
+            // The domain has the symbols of all the columns enumerated over it, so it does not tell which are here
+            obj_p syms = ray_value(x);
+            if (IS_ERR(syms))
+                return syms;
+            res = ray_distinct(syms);
+            drop_obj(syms);
+            return res;
         }
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8: {
diff --git a/core/filter.c b/core/filter.c
index 5c88df3..2cb77ca 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -125,6 +125,10 @@ obj_p filter_collect(obj_p val, obj_p index) {
             }
         }
 
+        // No row is left
+        if (n == 0 && l > 0)
+            return at_ids(AS_LIST(val)[0], NULL, 0);
+
         parts = LIST(n);
         n = 0;
 
diff --git a/core/index.c b/core/index.c
index 9de5f69..0839021 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2830,7 +2830,7 @@ obj_p index_group_list_radix(obj_p obj, obj_p filter, i64_t *hashes, i64_t len)
 }
 
 obj_p index_group_list(obj_p obj, obj_p filter) {
-    i64_t i, len, parts;
+    i64_t i, l, len, parts;
     i64_t g, v, *xo, *indices;
     obj_p res, *values, ht;
     __index_list_ctx_t ctx;
@@ -2842,6 +2842,14 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
     if (ops_count(obj) == 1)
         return index_group(AS_LIST(obj)[0], filter);
 
+    // A parted column is a key only on its own
+    l = obj->len;
+    for (i = 0; i < l; i++) {
+        v = AS_LIST(obj)[i]->type;
+        if (v == TYPE_MAPCOMMON || (v >= TYPE_PARTEDLIST && v < TYPE_TABLE))
+            return err_type(0, 0, 0, 0);
+    }
+
     // If the list values range is small, use perfect hashing
     res = index_group_list_perfect(obj, filter);
     if (!is_null(res)) {
diff --git a/core/items.c b/core/items.c
index 5bc2662..7a5c9ed 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1102,6 +1102,17 @@ obj_p ray_last(obj_p x) {
             obj_p val = AS_LIST(x)[0];
             obj_p filter = AS_LIST(x)[1];
             if (val->type >= TYPE_PARTEDLIST && val->type <= TYPE_PARTEDGUID && filter->type == TYPE_PARTEDI64) {
+                // The last of the matching rows of the last partition that has any
+                for (l = filter->len - 1; l >= 0; l--) {
+                    obj_p ids = AS_LIST(filter)[l];
+                    i64_t n = (ids == NULL_OBJ)           ? 0
+                              : (ids->type == -TYPE_I64) ? ops_count(AS_LIST(val)[l])
+                                                         : (i64_t)ids->len;
+                    if (n > 0) {
+                        n = (ids->type == -TYPE_I64) ? n - 1 : AS_I64(ids)[n - 1];
+                        return at_ids(AS_LIST(val)[l], &n, 1);
+                    }
+                }
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
                                       clone_obj(filter), NULL_OBJ);
                 obj_p res = aggr_last(val, index);
@@ -1127,6 +1138,13 @@ obj_p ray_last(obj_p x) {
         case TYPE_PARTEDLIST: {
             obj_p index =
                 vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ, NULL_OBJ);
+            for (l = x->len - 1; l >= 0; l--) {
+                i64_t n = ops_count(AS_LIST(x)[l]) - 1;
+                if (n >= 0) {
+                    drop_obj(index);
+                    return at_ids(AS_LIST(x)[l], &n, 1);
+                }
+            }
             obj_p res = aggr_last(x, index);
             drop_obj(index);
             return res;
@@ -1160,7 +1178,7 @@ obj_p ray_value(obj_p x) {
     obj_p sym, k, v, res, e, *objptr;
     u8_t *u8ptr, *buf;
     i64_t size;
-    i64_t i, j, l, n, sl, xl, *i64ptr;
+    i64_t i, j, l, n, m, sl, xl, *i64ptr;
     i16_t *i16ptr;
     i32_t *i32ptr;
     f64_t *f64ptr;
@@ -1357,25 +1375,18 @@ obj_p ray_value(obj_p x) {
 
             return res;
 
-            // case TYPE_MAPCOMMON:
-            //     l = AS_LIST(x)[0]->len;
-            //     if (l == 0)
-            //         return NULL_OBJ;
+        case TYPE_MAPCOMMON:
+            l = AS_LIST(x)[0]->len;
+            k = I64(ops_count(x));
 
-            //     n = ops_count(x);
-            //     res = vector(AS_LIST(x)[0]->type, n);
-            //     i64ptr = AS_I64(res);
+            for (i = 0, m = 0; i < l; i++)
+                for (j = 0; j < AS_I64(AS_LIST(x)[1])[i]; j++)
+                    AS_I64(k)[m++] = i;
 
-            //     for (i = 0; i < l; i++) {
-            //         n = AS_I64(AS_LIST(x)[1])[i];
-
-            //         for (j = 0; j < n; j++)
-            //             i64ptr[j] = AS_I64(AS_LIST(x)[0])[i];
-
-            //         i64ptr += n;
-            //     }
+            res = at_ids(AS_LIST(x)[0], AS_I64(k), m);
+            drop_obj(k);
 
-            //     return res;
+            return res;
 
         default:
             return clone_obj(x);
diff --git a/core/vary.c b/core/vary.c
index fe59259..0dc7d4a 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -185,7 +185,7 @@ obj_p ray_set_parted(obj_p *x, i64_t n) {
 obj_p ray_get_parted(obj_p *x, i64_t n) {
     i8_t type;
     i64_t i, j, l, wide;
-    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res, syms;
+    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, fmaps, virtcol, v, keys, vals, res, syms;
 
     switch (n) {
         case 2:
@@ -332,9 +332,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 }
 
                 // Partitions must have the same column names
-                eq = ray_eq(AS_LIST(t1)[0], AS_LIST(t2)[0]);
-                if (!eq->b8) {
-                    drop_obj(eq);
+                if (cmp_obj(AS_LIST(t1)[0], AS_LIST(t2)[0]) != 0) {
                     drop_obj(gcol);
                     drop_obj(res);
                     drop_obj(t1);
@@ -345,8 +343,6 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                drop_obj(eq);
-
                 // Partitions must have the same column types
                 for (j = 0; j < wide; j++) {
                     if (AS_LIST(AS_LIST(t1)[1])[j]->type != AS_LIST(AS_LIST(t2)[1])[j]->type) {
-- 
2.43.0


From deb701f9d8e7fe305c35465dcbf488a1e63f4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 077/120] fix: times of a parted table are aggregated as
 integers, as before

---
 core/aggr.c  | 10 +++++++---
 core/items.c | 10 ++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index b266afb..5c99dbb 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -260,11 +260,12 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
         $$res;                                                                                                       \
     })
 
-// A parted aggregate whose result is of the type of the column
+// A parted aggregate whose result is of the type of the column; times are aggregated as integers
 #define PARTED_SAME(groups, val, ...)                                        \
     ({                                                                       \
         obj_p $$same = PARTED_MAP(groups, val, __VA_ARGS__);                 \
-        $$same->type = AS_LIST(val)[0]->type;                                \
+        if (AS_LIST(val)[0]->type != TYPE_TIME)                              \
+            $$same->type = AS_LIST(val)[0]->type;                            \
         $$same;                                                              \
     })
 
@@ -535,7 +536,10 @@ obj_p aggr_first(obj_p val, obj_p index) {
     // The first of a single group over all the partitions
     if (n == 1 && val->type >= TYPE_PARTEDLIST && val->type < TYPE_TABLE && val->len > 0) {
         i = 0;
-        return at_ids(AS_LIST(val)[0], &i, 1);
+        res = at_ids(AS_LIST(val)[0], &i, 1);
+        if (res->type == TYPE_TIME)
+            res->type = TYPE_I32;
+        return res;
     }
 
     // Fast path: if first indices are precomputed, use them directly
diff --git a/core/items.c b/core/items.c
index 7a5c9ed..73410fb 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1110,7 +1110,10 @@ obj_p ray_last(obj_p x) {
                                                          : (i64_t)ids->len;
                     if (n > 0) {
                         n = (ids->type == -TYPE_I64) ? n - 1 : AS_I64(ids)[n - 1];
-                        return at_ids(AS_LIST(val)[l], &n, 1);
+                        obj_p res = at_ids(AS_LIST(val)[l], &n, 1);
+                        if (res->type == TYPE_TIME)
+                            res->type = TYPE_I32;
+                        return res;
                     }
                 }
                 obj_p index = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ,
@@ -1142,7 +1145,10 @@ obj_p ray_last(obj_p x) {
                 i64_t n = ops_count(AS_LIST(x)[l]) - 1;
                 if (n >= 0) {
                     drop_obj(index);
-                    return at_ids(AS_LIST(x)[l], &n, 1);
+                    obj_p res = at_ids(AS_LIST(x)[l], &n, 1);
+                    if (res->type == TYPE_TIME)
+                        res->type = TYPE_I32;
+                    return res;
                 }
             }
             obj_p res = aggr_last(x, index);
-- 
2.43.0


From 5cc736471cac14e53d3f5c0b8ae7e074e2b87153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 078/120] fix: a number that only begins like a date is not
 read again and again for ever

---
 core/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 42b5700..e61161c 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -324,7 +324,7 @@ obj_p parse_timestamp(parser_t *parser) {
             return parse_error(parser, parser->count++, EC_DOMAIN);
         }
     } else
-        return NULL_OBJ;
+        return PARSE_ADVANCE;
 
     // just date passed
     if (*current != 'D') {
-- 
2.43.0


From a37a1529f7dcb998755a74758ba9ddb35878ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 079/120] fix: 0x without two hex digits is an error, not a
 byte from the stack

---
 core/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/parse.c b/core/parse.c
index e61161c..4fc1c06 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -516,6 +516,11 @@ obj_p parse_number(parser_t *parser) {
 
     if (remaining >= 2 && *parser->current == '0' && (*(parser->current + 1) == 'x')) {
         r = u8_from_str(parser->current + 2, remaining - 2, &num_u8);
+        if (r == 0) {
+            span.end_column += 2;
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_PARSE);
+        }
         shift(parser, r + 2);
         span_extend(parser, &span);
         num = u8(num_u8);
-- 
2.43.0


From 665c40caaf8da488698438ec8a9fff163e8e57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 080/120] fix: an unterminated string ends with the text

---
 core/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 4fc1c06..f120b7c 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -658,7 +658,7 @@ obj_p parse_string(parser_t *parser) {
 
     str = C8(0);
 
-    while (!at_eof(parser)) {
+    while (pos < parser->input + parser->input_len) {
         if (*pos == '\\') {
             switch (*++pos) {
                 case '\\':
-- 
2.43.0


From c2b0e74b6bd2b1f91cdf26838d75f8f5a5089493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 081/120] fix: a name that begins with true, false or null is
 one name

---
 core/parse.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/parse.c b/core/parse.c
index f120b7c..9981961 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -740,9 +740,16 @@ obj_p parse_symbol(parser_t *parser) {
     obj_p res = NULL_OBJ;
     span_t span = span_start(parser);
     i64_t id;
-    i64_t remaining = parser->input_len - (pos - parser->input);
+    i64_t len;
 
-    if (remaining >= 4 && strncmp(pos, "true", 4) == 0) {
+    // Skip first char and proceed until the end of the symbol
+    do {
+        pos++;
+    } while (pos < parser->input + parser->input_len && (is_alphanum(*pos) || is_op(*pos)));
+
+    len = pos - parser->current;
+
+    if (len == 4 && strncmp(parser->current, "true", 4) == 0) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = b8(B8_TRUE);
@@ -750,7 +757,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 5 && strncmp(pos, "false", 5) == 0) {
+    if (len == 5 && strncmp(parser->current, "false", 5) == 0) {
         shift(parser, 5);
         span_extend(parser, &span);
         res = b8(B8_FALSE);
@@ -758,7 +765,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 4 && strncmp(pos, "null", 4) == 0) {
+    if (len == 4 && strncmp(parser->current, "null", 4) == 0) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = NULL_OBJ;
@@ -766,12 +773,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    // Skip first char and proceed until the end of the symbol
-    do {
-        pos++;
-    } while (pos < parser->input + parser->input_len && (is_alphanum(*pos) || is_op(*pos)));
-
-    id = symbols_intern(parser->current, pos - parser->current);
+    id = symbols_intern(parser->current, len);
 
     if (parser->replace_symbols)
         res = env_get_internal_function_by_id(id);
-- 
2.43.0


From 90f68510f8fd15c2eb8fa358d00c7a8fcdce78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 082/120] fix: a text that is no date is the null date

---
 core/date.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
-- 
2.43.0


From 2fcbee859c3939640f6549ba273b5c837a6e53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:21 +0000
Subject: [PATCH 083/120] fix: remove, unify, diverse and the time joins freed
 an argument that only they held

---
 core/compose.c | 8 ++++----
 core/join.c    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index b81fdd3..99a74d5 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -839,10 +839,10 @@ obj_p ray_remove(obj_p x, obj_p y) {
     obj_p r;
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
+            r = copy_obj(x);
             return remove_idx(&r, y->i32);
         case -TYPE_I64:
-            r = cow_obj(x);
+            r = copy_obj(x);
             return remove_idx(&r, y->i64);
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
@@ -1101,14 +1101,14 @@ obj_p ray_group(obj_p x) {
 obj_p ray_diverse(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return diverse_obj(&res);
 }
 
 obj_p ray_unify(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return unify_list(&res);
 }
 
diff --git a/core/join.c b/core/join.c
index d3a2815..2ac402d 100644
--- a/core/join.c
+++ b/core/join.c
@@ -338,7 +338,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
@@ -408,7 +408,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
-- 
2.43.0


From 62fdcbf7861dca1250a4b7316ea0563997a4f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 084/120] fix: window joins read windows of other widths and
 lengths as 32-bit columns

---
 core/join.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/core/join.c b/core/join.c
index 2ac402d..1ef429f 100644
--- a/core/join.c
+++ b/core/join.c
@@ -362,6 +362,28 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     return res;
 }
 
+// The time columns and both window bounds are read as 32-bit values, one window per left row
+static obj_p window_check(obj_p windows, obj_p times) {
+    i64_t i;
+    obj_p v;
+
+    if (times->type != TYPE_I32 && times->type != TYPE_DATE && times->type != TYPE_TIME)
+        return err_type(TYPE_TIME, times->type, 0, 0);
+
+    if (windows->len != 2)
+        return err_length(2, windows->len, 0, 0, 0, 0);
+
+    for (i = 0; i < 2; i++) {
+        v = AS_LIST(windows)[i];
+        if (v->type != TYPE_I32 && v->type != TYPE_DATE && v->type != TYPE_TIME)
+            return err_type(times->type, v->type, 0, 0);
+        if (v->len != times->len)
+            return err_length(times->len, v->len, 0, 0, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
 static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     i64_t i, l;
     obj_p k, v, wjkl, wjkr, keys, lvals, rvals, idx;
@@ -385,6 +407,9 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (x[4]->type != TYPE_DICT)
         return err_type(TYPE_DICT, x[4]->type, 0, 0);
 
+    if (AS_LIST(x[4])[0]->type != TYPE_SYMBOL)
+        return err_type(TYPE_SYMBOL, AS_LIST(x[4])[0]->type, 0, 0);
+
     jtab = ray_xasc(x[3], x[0]);
     if (IS_ERR(jtab))
         return jtab;
@@ -408,6 +433,14 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
+    v = window_check(x[1], wjkl);
+    if (IS_ERR(v)) {
+        drop_obj(wjkl);
+        drop_obj(wjkr);
+        drop_obj(jtab);
+        return v;
+    }
+
     keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
-- 
2.43.0


From 8778c45ebc194df1e7af5e2af48c85ef1d9b3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 085/120] fix: setting several keys of a dictionary returned
 its values and ignored missing keys; a wrong index of a vector hung

---
 core/rayforce.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 28d4961..b5324f0 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1581,7 +1581,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
             return *obj;
         default:
             if ((*obj)->type == TYPE_LIST) {
-                if (IS_VECTOR(vals) && len != (*obj)->len) {
+                if (IS_VECTOR(vals) && len != vals->len) {
                     for (i = 0; i < len; i++) {
                         drop_obj(AS_LIST(*obj)[ids[i]]);
                         AS_LIST(*obj)[ids[i]] = clone_obj(vals);
@@ -1811,10 +1811,20 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             if (IS_ERR(ids))
                 return ids;
 
+            // Every key must be there
+            if (is_null(ids))
+                return err_value(0);
+
+            if (IS_VECTOR(val) && val->len != ids->len) {
+                i = ids->len;
+                drop_obj(ids);
+                return err_length(i, val->len, 0, 0, 0, 0);
+            }
+
             res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
             drop_obj(ids);
 
-            return res;
+            return IS_ERR(res) ? res : *obj;
         default:
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
@@ -1953,9 +1963,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                 return res;
             }
 
-            // Diverse to a list then
-            diverse_obj(obj);
-            return set_obj(obj, idx, val);
+            // Nothing else is addressed by such an index
+            {
+                i8_t got = idx->type;
+                drop_obj(val);
+                return err_type((*obj)->type, got, 0, 0);
+            }
     }
 }
 
-- 
2.43.0


From 4aeb59ec626f6a0c5adf7229f26b0564f388af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 086/120] fix: table of one plain column freed it; its error
 paths leaked; no columns were refused

---
 core/compose.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 99a74d5..d6e2db8 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -236,6 +236,14 @@ obj_p ray_table(obj_p x, obj_p y) {
         return err_length(0, 0, 0, 0, 0, 0);
     }
 
+    // without values every column is empty
+    if (x->len != y->len) {
+        lst = LIST(x->len);
+        for (i = 0; i < x->len; i++)
+            AS_LIST(lst)[i] = LIST(0);
+        return table(clone_obj(x), lst);
+    }
+
     len = y->len;
 
     for (i = 0; i < len; i++) {
@@ -271,36 +279,46 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl >= 0 && j != cl)
+                if (cl >= 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl >= 0 && j != cl)
+                if (cl >= 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 synergy = B8_FALSE;
                 j = ops_count(AS_LIST(y)[i]);
-                if (cl >= 0 && j != cl)
+                if (cl >= 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
-            default:
-                return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+            default: {
+                i8_t got = AS_LIST(y)[i]->type;
+                drop_obj(l);
+                return err_type(TYPE_LIST, got, 0, 0);
+            }
         }
     }
 
     // there are no atoms, no lazytypes and all columns are of the same length
     if (synergy) {
+        lst = clone_obj(y);
         drop_obj(l);
-        return table(clone_obj(x), clone_obj(y));
+        return table(clone_obj(x), lst);
     }
 
     // otherwise we need to expand atoms to vectors
-- 
2.43.0


From 89bf311e9c0711bbc299ec87368145efbeacd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 087/120] fix: joining dictionaries of different kinds of keys
 or values crashed

---
 core/compose.c | 61 +++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index d6e2db8..3b2cfb5 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -484,8 +484,8 @@ obj_p ray_rand(obj_p x, obj_p y) {
 }
 
 obj_p ray_concat(obj_p x, obj_p y) {
-    i64_t i, xl, yl;
-    obj_p vec, kx, kxy, ix, iy, dx, dy;
+    i64_t i, n, xl, yl;
+    obj_p vec, kx, kxy, ix, iy, dy;
 
     // Columns read from files are joined as the values they stand for
     if (x->type == TYPE_ENUM || x->type == TYPE_MAPLIST || y->type == TYPE_ENUM || y->type == TYPE_MAPLIST) {
@@ -754,38 +754,43 @@ obj_p ray_concat(obj_p x, obj_p y) {
             return vec;
 
         case MTYPE2(TYPE_DICT, TYPE_DICT):
-            kxy = ray_sect(AS_LIST(x)[0], AS_LIST(y)[0]);
-            dx = ray_except(AS_LIST(x)[0], kxy);
-            dy = ray_except(AS_LIST(y)[0], kxy);
-
-            vec = vector(TYPE_LIST, dx->len + kxy->len + dy->len);
-
-            // add items in x that are not in y
-            ix = ray_find(AS_LIST(x)[0], dx);
-            for (i = 0; i < (i64_t)dx->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(x)[1])[AS_I64(ix)[i]]);
+            xl = ops_count(AS_LIST(x)[0]);
+            yl = ops_count(AS_LIST(y)[0]);
+            if (xl == 0 || yl == 0)
+                return clone_obj(xl == 0 ? y : x);
+
+            // where the keys of y are among the keys of x
+            iy = ray_find(AS_LIST(x)[0], AS_LIST(y)[0]);
+            if (iy->type != TYPE_I64 || iy->len != yl) {
+                if (IS_ERR(iy))
+                    return iy;
+                drop_obj(iy);
+                return err_type(AS_LIST(x)[0]->type, AS_LIST(y)[0]->type, 0, 0);
             }
-            drop_obj(ix);
 
-            // add items in x and y with the same key
-            ix = ray_find(AS_LIST(x)[0], kxy);
-            iy = ray_find(AS_LIST(y)[0], kxy);
-            for (i = 0; i < (i64_t)kxy->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
-            }
-            drop_obj(ix);
-            drop_obj(iy);
+            ix = I64(yl);
+            for (i = 0, n = 0; i < yl; i++)
+                if (AS_I64(iy)[i] == NULL_I64)
+                    AS_I64(ix)[n++] = i;
 
-            // add items in y that are not in x
-            iy = ray_find(AS_LIST(y)[0], dy);
-            for (i = 0; i < (i64_t)dy->len; i++) {
-                AS_LIST(vec)[i + dx->len + kxy->len] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+            vec = LIST(xl + n);
+            for (i = 0; i < xl; i++)
+                AS_LIST(vec)[i] = at_idx(AS_LIST(x)[1], i);
+
+            for (i = 0, n = xl; i < yl; i++) {
+                // keys of both keep their place and take the value of y, the others follow
+                if (AS_I64(iy)[i] == NULL_I64) {
+                    AS_LIST(vec)[n++] = at_idx(AS_LIST(y)[1], i);
+                } else {
+                    drop_obj(AS_LIST(vec)[AS_I64(iy)[i]]);
+                    AS_LIST(vec)[AS_I64(iy)[i]] = at_idx(AS_LIST(y)[1], i);
+                }
             }
-            drop_obj(iy);
 
+            dy = at_ids(AS_LIST(y)[0], AS_I64(ix), n - xl);
             vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
-            drop_obj(kxy);
-            drop_obj(dx);
+            drop_obj(ix);
+            drop_obj(iy);
             drop_obj(dy);
             return vec;
 
-- 
2.43.0


From 8cfba58c86d71a9f871bc1b2ccd51799809fc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 088/120] fix: except with a list set returned uninitialised
 items when it failed

---
 core/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index 73410fb..e699fe8 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1019,7 +1019,7 @@ obj_p ray_except(obj_p x, obj_p y) {
                         mask = ray_eq(AS_LIST(x)[i], y);
 
                         if (IS_ERR(mask)) {
-                            res->len = i;
+                            res->len = j;
                             drop_obj(res);
                             return mask;
                         }
-- 
2.43.0


From b6636c293a8a4b147ef7520531b96b255a6936f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 089/120] fix: in of an atom that is no collection hung

---
 core/items.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index e699fe8..c9c72e3 100644
--- a/core/items.c
+++ b/core/items.c
@@ -855,9 +855,16 @@ obj_p ray_in(obj_p x, obj_p y) {
                 return vec;
             }
 
-            if (IS_VECTOR(x) || !IS_VECTOR(y))
+            if (IS_VECTOR(x))
                 return map_binary_left_fn(ray_in, 0, x, y);
 
+            // an atom is a collection of one
+            if (IS_ATOM(y))
+                return b8(find_obj_idx(y, x) != NULL_I64);
+
+            if (!IS_VECTOR(y))
+                return err_type(TYPE_LIST, y->type, 0, 0);
+
             if (!IS_VECTOR(x))
                 return b8(find_obj_idx(y, x) != NULL_I64);
 
-- 
2.43.0


From a885a32ba9dba9a432c502904958c3191908cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 090/120] fix: filter of a table by a mask of another length
 read past its end

---
 core/items.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/items.c b/core/items.c
index c9c72e3..787e6de 100644
--- a/core/items.c
+++ b/core/items.c
@@ -355,7 +355,7 @@ obj_p ray_find(obj_p x, obj_p y) {
 
 obj_p ray_filter(obj_p x, obj_p y) {
     i64_t i, j = 0, l;
-    obj_p res, vals;
+    obj_p res, vals, v;
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, TYPE_B8):
             __FILTER(x, y, B8, , =, );
@@ -391,7 +391,13 @@ obj_p ray_filter(obj_p x, obj_p y) {
             l = vals->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                AS_LIST(res)[i] = ray_filter(AS_LIST(vals)[i], y);
+                v = ray_filter(AS_LIST(vals)[i], y);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
+                }
+                AS_LIST(res)[i] = v;
             }
             return table(clone_obj(AS_LIST(x)[0]), res);
 
-- 
2.43.0


From 251e4e9edf1ef9d6b39ceb59d36a41960e1210c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 091/120] fix: take of a null count made a vector of negative
 length; take of a dictionary leaked

---
 core/items.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/items.c b/core/items.c
index 787e6de..a77c80c 100644
--- a/core/items.c
+++ b/core/items.c
@@ -441,6 +441,11 @@ obj_p ray_take(obj_p from, obj_p count) {
             default:
                 return err_type(-TYPE_I64, count->type, 0, 0);
         }
+
+        // The null is no count
+        if (m < 0 || (count->type == -TYPE_I32 && count->i32 == NULL_I32) ||
+            (count->type == -TYPE_I16 && count->i16 == NULL_I16))
+            return err_value(0);
     }
 
     // nothing to repeat
@@ -611,13 +616,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = TAKE_FROM(l, m, f); i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
-- 
2.43.0


From 617aac56f827c8cf748dd46cc527aac32952a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 092/120] fix: asof-join of tables without its other key
 columns ended the process

---
 core/join.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/join.c b/core/join.c
index 1ef429f..3508d2b 100644
--- a/core/join.c
+++ b/core/join.c
@@ -305,6 +305,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
 }
 
 obj_p ray_asof_join(obj_p *x, i64_t n) {
+    i64_t i;
     obj_p idx, v, ajkl, ajkr, keys, lvals, rvals, res;
 
     if (n != 3)
@@ -343,6 +344,20 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
 
+    // The other keys must be columns of one type in both tables as well
+    for (i = 0; i < lvals->len; i++) {
+        if (!IS_VECTOR(AS_LIST(lvals)[i]) || AS_LIST(lvals)[i]->type != AS_LIST(rvals)[i]->type) {
+            i8_t expected = AS_LIST(lvals)[i]->type;
+            i8_t actual = AS_LIST(rvals)[i]->type;
+            drop_obj(keys);
+            drop_obj(lvals);
+            drop_obj(rvals);
+            drop_obj(ajkl);
+            drop_obj(ajkr);
+            return err_type(expected, actual, 0, 0);
+        }
+    }
+
     idx = index_asof_join_obj(lvals, ajkl, rvals, ajkr);
 
     drop_obj(keys);
-- 
2.43.0


From f49d01219e4fd295ff176d9bd3601130f4a328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 093/120] fix: update with where wrote what it read past the
 end of a short value; a null as new column crashed

---
 core/update.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/core/update.c b/core/update.c
index 706238c..91b7749 100644
--- a/core/update.c
+++ b/core/update.c
@@ -805,6 +805,16 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
+            if (j == NULL_I64 && !IS_ATOM(AS_LIST(vals)[i]) && !IS_VECTOR(AS_LIST(vals)[i])) {
+                res = err_type(TYPE_LIST, AS_LIST(vals)[i]->type, 0, 0);
+                drop_obj(tab);
+                drop_obj(keys);
+                drop_obj(vals);
+                drop_obj(filters);
+                drop_obj(gids);
+                UNCOW_OBJ(obj, val, original, res);
+            }
+
             if (j != NULL_I64) {
                 for (m = 0; m < n; m++) {
                     v = at_idx(AS_LIST(vals)[i], m);
@@ -891,6 +901,29 @@ obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gro
         for (i = 0; i < l; i++) {
             j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
+            if (j == NULL_I64) {
+                // A new column holds one value per row: an atom (a string as well) for all, or one for each
+                if (!IS_ATOM(AS_LIST(vals)[i]) && !IS_VECTOR(AS_LIST(vals)[i])) {
+                    res = err_type(TYPE_LIST, AS_LIST(vals)[i]->type, 0, 0);
+                    drop_obj(tab);
+                    drop_obj(keys);
+                    drop_obj(vals);
+                    drop_obj(filters);
+                    UNCOW_OBJ(obj, val, original, res);
+                }
+
+                if (IS_VECTOR(AS_LIST(vals)[i]) && AS_LIST(vals)[i]->type != TYPE_C8 &&
+                    ops_count(AS_LIST(vals)[i]) != filters->len &&
+                    ops_count(AS_LIST(vals)[i]) != ops_count(obj)) {
+                    res = err_length(filters->len, ops_count(AS_LIST(vals)[i]), 0, 0, 0, 0);
+                    drop_obj(tab);
+                    drop_obj(keys);
+                    drop_obj(vals);
+                    drop_obj(filters);
+                    UNCOW_OBJ(obj, val, original, res);
+                }
+            }
+
             if (j != NULL_I64) {
                 if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
                     res = err_type(0, 0, 0, 0);
-- 
2.43.0


From 9c43c837b7d85caa75b82a0151eae6118f4cd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 094/120] fix: memory statistics counted free blocks by the
 wrong size

---
 core/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/heap.c b/core/heap.c
index 77466f3..beff46f 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -590,7 +590,7 @@ memstat_t heap_memstat(nil_t) {
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
         block = h->freelist[i];
         while (block) {
-            h->memstat.free += BLOCKSIZE(i);
+            h->memstat.free += BSIZEOF(i);
             block = block->next;
         }
     }
-- 
2.43.0


From 86def11657cd4d730388c87bc3d3291f0c0a6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 095/120] fix: round, floor and ceil of a shared vector of
 integers returned uninitialised numbers

---
 core/math.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/math.c b/core/math.c
index 61b3de6..563b19f 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2430,9 +2430,23 @@ obj_p ray_cnt(obj_p x) {
 }
 obj_p ray_min(obj_p x) { return unop_fold(ray_min_partial, x); }
 obj_p ray_max(obj_p x) { return unop_fold(ray_max_partial, x); }
-obj_p ray_round(obj_p x) { return unop_map(ray_round_partial, x); }
-obj_p ray_floor(obj_p x) { return unop_map(ray_floor_partial, x); }
-obj_p ray_ceil(obj_p x) { return unop_map(ray_ceil_partial, x); }
+// Rounding leaves integers as they are: there is nothing to compute, so nothing to write to an output vector
+static obj_p round_map(raw_p op, obj_p x) {
+    switch (x->type) {
+        case TYPE_I32:
+        case TYPE_I64:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_TIMESTAMP:
+            return clone_obj(x);
+        default:
+            return unop_map(op, x);
+    }
+}
+
+obj_p ray_round(obj_p x) { return round_map(ray_round_partial, x); }
+obj_p ray_floor(obj_p x) { return round_map(ray_floor_partial, x); }
+obj_p ray_ceil(obj_p x) { return round_map(ray_ceil_partial, x); }
 
 // Binaries
 obj_p ray_sq_sub(obj_p x, obj_p y) { return binop_fold(ray_sq_sub_partial, x, y); }
-- 
2.43.0


From 18bda6271ead8f4e13c0ee59771b7e391e75fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 096/120] fix: dev and a failing remove leaked their
 temporaries

---
 core/compose.c | 22 +++++++++++-----------
 core/math.c    | 11 ++++++++++-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 3b2cfb5..1fcea9c 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -859,17 +859,17 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
-    switch (y->type) {
-        case -TYPE_I32:
-            r = copy_obj(x);
-            return remove_idx(&r, y->i32);
-        case -TYPE_I64:
-            r = copy_obj(x);
-            return remove_idx(&r, y->i64);
-        default:
-            return err_type(-TYPE_I64, y->type, 0, 0);
-    }
+    obj_p r, res;
+
+    if (y->type != -TYPE_I32 && y->type != -TYPE_I64)
+        return err_type(-TYPE_I64, y->type, 0, 0);
+
+    r = copy_obj(x);
+    res = remove_idx(&r, y->type == -TYPE_I32 ? y->i32 : y->i64);
+    if (IS_ERR(res))
+        drop_obj(r);
+
+    return res;
 }
 
 obj_p ray_distinct(obj_p x) {
diff --git a/core/math.c b/core/math.c
index 563b19f..8872345 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2733,5 +2733,14 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    obj_p avg_obj = f64(favg);
+    sum_obj = ray_sq_sub(x, avg_obj);
+    drop_obj(avg_obj);
+    if (IS_ERR(sum_obj))
+        return sum_obj;
+
+    favg = sqrt(sum_obj->f64 / (f64_t)l);
+    drop_obj(sum_obj);
+
+    return f64(favg);
 }
-- 
2.43.0


From 4b405488dc89db5d20f0d30ddac0ed6b1d7a2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 097/120] fix: mapping over vectors of no elements wrote past
 the result

---
 core/iter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/iter.c b/core/iter.c
index cb37217..588e44c 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -429,6 +429,9 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     if (l == NULL_I64)
         return err_arity(1, n, 0);
 
+    if (l == 0)
+        return NULL_OBJ;
+
     for (j = 0; j < n; j++)
         vm_stack_push(at_idx(x[j], 0));
 
-- 
2.43.0


From 689df678b16822f1eaea7e6d68ba5c1fa5582b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 098/120] fix: locations of errors nobody reports were kept for
 ever

---
 core/eval.c | 20 +++++++++++++++++++-
 core/eval.h |  1 +
 core/pool.c |  1 +
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/core/eval.c b/core/eval.c
index e476da9..9c33d8d 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -259,6 +259,17 @@ nil_t bc_error_add_loc(obj_p err, obj_p fn, i64_t ip) {
         push_raw(&vm->trace, &loc);
 }
 
+// Forget the locations collected for an error nobody is going to report
+nil_t drop_trace(nil_t) {
+    vm_p vm = VM;
+
+    if (vm == NULL || vm->trace == NULL_OBJ)
+        return;
+
+    drop_obj(vm->trace);
+    vm->trace = NULL_OBJ;
+}
+
 // Add location info for tree-walking eval using vm->nfo
 nil_t eval_error_add_loc(obj_p expr) {
     obj_p loc, nfo;
@@ -973,13 +984,17 @@ obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
     return res;
 }
 
-obj_p eval_obj(obj_p obj) { return eval(obj); }
+obj_p eval_obj(obj_p obj) {
+    drop_trace();
+    return eval(obj);
+}
 
 obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     obj_p parsed, res;
     vm_p vm = VM;
     obj_p saved_nfo = vm ? vm->nfo : NULL_OBJ;
 
+    drop_trace();
     timeit_reset();
     timeit_span_start("top-level");
 
@@ -1056,6 +1071,9 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
         obj_p *pfn;
         obj_p fn = ctch;
 
+        // The error is handled here
+        drop_trace();
+
         switch (fn->type) {
             case TYPE_LAMBDA:
             call_catch:
diff --git a/core/eval.h b/core/eval.h
index fea7175..b3f6173 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -129,6 +129,7 @@ obj_p amend(obj_p sym, obj_p val);
 
 // Special forms
 obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file);
+nil_t drop_trace(nil_t);
 obj_p ray_eval_str(obj_p str, obj_p file);
 obj_p ray_eval_str_line(obj_p str, obj_p file, i64_t line);
 obj_p ray_raise(obj_p obj);
diff --git a/core/pool.c b/core/pool.c
index b633b45..958d911 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -208,6 +208,7 @@ raw_p executor_run(raw_p arg) {
 
             // execute task
             res = pool_call_task_fn(data.fn, data.argc, data.argv);
+            drop_trace();
             data.result = res;
             mpmc_push(executor->pool->result_queue, data);
         }
-- 
2.43.0


From e77cb9857233a49df1efcf50ae2bfe59c930b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:44 +0000
Subject: [PATCH 099/120] fix: modify left the freed old value in place when
 its change made a new one, and leaked when it failed

---
 core/update.c | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/core/update.c b/core/update.c
index 91b7749..76032c8 100644
--- a/core/update.c
+++ b/core/update.c
@@ -245,34 +245,25 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     }
 }
 
-obj_p dot_obj(obj_p obj, obj_p idx) {
+// the place of the value a path leads to, all but its last index; what is on the way is owned by the value above it
+static obj_p *dot_ref(obj_p *ref, obj_p idx) {
     i64_t i, l;
-    obj_p *ref;
 
     switch (idx->type) {
         case TYPE_NULL:
-            return obj;
+            return ref;
         case TYPE_LIST:
-            l = idx->len;
-            if (l < 2)
-                return err_value(0);
+            l = idx->len - 1;  // skip last element
+            if (l < 1)
+                return NULL;
 
-            l--;  // skip last element
+            for (i = 0; i < l && ref != NULL; i++)
+                ref = dot_ref(ref, AS_LIST(idx)[i]);
 
-            for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
-                obj = dot_obj(obj, AS_LIST(idx)[i]);
-                if (obj == NULL)
-                    return err_value(0);
-            }
-
-            return obj;
+            return ref;
 
         default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
+            return at_obj_ref(*ref, idx);
     }
 }
 
@@ -373,7 +364,7 @@ obj_p ray_alter(obj_p *x, i64_t n) {
 }
 
 obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
+    obj_p obj, own, res, *cur, *ref, idx;
 
     cur = NULL;
 
@@ -395,27 +386,34 @@ obj_p ray_modify(obj_p *x, i64_t n) {
             return obj;
     }
 
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
+    own = obj;
+    ref = dot_ref(&obj, x[2]);
+    res = (ref == NULL) ? err_value(0) : ray_last(x[2]);
 
-    idx = ray_last(x[2]);
-    if (IS_ERR(idx))
-        return idx;
+    if (!IS_ERR(res)) {
+        idx = res;
+        res = __alter(ref, x[1], idx, x[3]);
+        drop_obj(idx);
+    }
 
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
+    if (IS_ERR(res)) {
+        if (cur == NULL || own != *cur)
+            drop_obj(obj);
 
-    if (IS_ERR(res))
         return res;
+    }
 
-    if (x[0]->type != -TYPE_SYMBOL)
+    // the value may have been reallocated
+    *ref = res;
+
+    if (cur == NULL)
         return obj;
 
-    if (cur != NULL && (*cur) != obj) {
+    // own was a copy
+    if (own != *cur)
         drop_obj(*cur);
-        *cur = obj;
-    }
+
+    *cur = obj;
 
     return clone_obj(x[0]);
 }
-- 
2.43.0


From 5759d365bcb2e0a2c6c8652b425bb1b248dcdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 100/120] fix: asof-join refuses only other key columns it
 cannot compare

---
 core/join.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/core/join.c b/core/join.c
index 3508d2b..02e4375 100644
--- a/core/join.c
+++ b/core/join.c
@@ -304,6 +304,34 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     return table(cols, vals);
 }
 
+// Columns of one kind can be compared with each other; TYPE_NULL for what is no key column
+static i8_t key_kind(i8_t type) {
+    switch (type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+            return TYPE_U8;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            return TYPE_I32;
+        case TYPE_I64:
+        case TYPE_SYMBOL:
+        case TYPE_TIMESTAMP:
+        case TYPE_ENUM:
+            return TYPE_I64;
+        case TYPE_LIST:
+        case TYPE_MAPLIST:
+            return TYPE_LIST;
+        case TYPE_I16:
+        case TYPE_F64:
+        case TYPE_GUID:
+            return type;
+        default:
+            return TYPE_NULL;
+    }
+}
+
 obj_p ray_asof_join(obj_p *x, i64_t n) {
     i64_t i;
     obj_p idx, v, ajkl, ajkr, keys, lvals, rvals, res;
@@ -344,9 +372,10 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
 
-    // The other keys must be columns of one type in both tables as well
+    // The other keys must be columns of one kind in both tables as well
     for (i = 0; i < lvals->len; i++) {
-        if (!IS_VECTOR(AS_LIST(lvals)[i]) || AS_LIST(lvals)[i]->type != AS_LIST(rvals)[i]->type) {
+        if (key_kind(AS_LIST(lvals)[i]->type) == TYPE_NULL ||
+            key_kind(AS_LIST(lvals)[i]->type) != key_kind(AS_LIST(rvals)[i]->type)) {
             i8_t expected = AS_LIST(lvals)[i]->type;
             i8_t actual = AS_LIST(rvals)[i]->type;
             drop_obj(keys);
-- 
2.43.0


From ebba9568f3766bf4ce024ecc313308672ec21106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 101/120] fix: table kept a dictionary, table or function as a
 column instead of repeating it per row

---
 core/compose.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 1fcea9c..f4be0a9 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -345,6 +345,14 @@ obj_p ray_table(obj_p x, obj_p y) {
                 AS_LIST(lst)[i] = ray_take(AS_LIST(y)[i], c);
                 drop_obj(c);
                 break;
+            case TYPE_LAMBDA:
+            case TYPE_DICT:
+            case TYPE_TABLE:
+                c = LIST(cl);
+                for (j = 0; j < cl; j++)
+                    AS_LIST(c)[j] = clone_obj(AS_LIST(y)[i]);
+                AS_LIST(lst)[i] = c;
+                break;
             case TYPE_ENUM:
                 AS_LIST(lst)[i] = ray_value(AS_LIST(y)[i]);
                 break;
-- 
2.43.0


From 5415e82fdc41b4e455328956f66529516f7e3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 102/120] fix: round, floor and ceil of anything but numbers
 freed what they had not made

---
 core/math.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/math.c b/core/math.c
index 8872345..47b6d52 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2430,18 +2430,12 @@ obj_p ray_cnt(obj_p x) {
 }
 obj_p ray_min(obj_p x) { return unop_fold(ray_min_partial, x); }
 obj_p ray_max(obj_p x) { return unop_fold(ray_max_partial, x); }
-// Rounding leaves integers as they are: there is nothing to compute, so nothing to write to an output vector
+// Only floats are rounded; integers are returned as they are, whatever else is refused
 static obj_p round_map(raw_p op, obj_p x) {
-    switch (x->type) {
-        case TYPE_I32:
-        case TYPE_I64:
-        case TYPE_DATE:
-        case TYPE_TIME:
-        case TYPE_TIMESTAMP:
-            return clone_obj(x);
-        default:
-            return unop_map(op, x);
-    }
+    if (x->type == TYPE_F64)
+        return unop_map(op, x);
+
+    return ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, 0, 0, NULL_OBJ);
 }
 
 obj_p ray_round(obj_p x) { return round_map(ray_round_partial, x); }
-- 
2.43.0


From 0b5b363bb144e4f230465bcc63d1ce3e5d140a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 103/120] fix: rank of a dictionary wrote at the positions of
 its keys; iasc and idesc of one leaked

---
 core/order.c | 10 ++++++++++
 core/sort.c  | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index e9c3387..8c1a05b 100644
--- a/core/order.c
+++ b/core/order.c
@@ -143,6 +143,9 @@ obj_p ray_asc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_asc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
+
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
@@ -229,6 +232,9 @@ obj_p ray_desc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_desc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
+
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
@@ -520,6 +526,10 @@ obj_p ray_rank(obj_p x) {
     i64_t l;
     obj_p perm, res;
 
+    // A dictionary is ranked by its values
+    if (x->type == TYPE_DICT)
+        return ray_rank(AS_LIST(x)[1]);
+
     // Fast path for sorted vectors
     if (x->attrs & ATTR_ASC) {
         obj_p n = i64(x->len);
diff --git a/core/sort.c b/core/sort.c
index 975de30..b4b9fa2 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -427,6 +427,19 @@ obj_p ray_sort_asc_f64(obj_p vec) {
     return indices;
 }
 
+// keys of a dictionary in the order of its values
+static obj_p sort_dict_keys(obj_p dict, obj_p idx) {
+    obj_p res;
+
+    if (IS_ERR(idx))
+        return idx;
+
+    res = at_obj(AS_LIST(dict)[0], idx);
+    drop_obj(idx);
+
+    return res;
+}
+
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
     obj_p indices;
@@ -472,7 +485,7 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            return sort_dict_keys(vec, ray_sort_asc(AS_LIST(vec)[1]));
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -733,7 +746,7 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            return sort_dict_keys(vec, ray_sort_desc(AS_LIST(vec)[1]));
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From f613beb9dc6ea9c5c1ccacccde5bfb552011e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 104/120] fix: select and update leaked a null from, take or
 table

---
 core/query.c  | 7 +++++--
 core/update.c | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/query.c b/core/query.c
index 6a36c02..641b8b5 100644
--- a/core/query.c
+++ b/core/query.c
@@ -273,8 +273,10 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "from", 4);
 
-    if (is_null(prm))
+    if (is_null(prm)) {
+        drop_obj(prm);
         return err_value(symbols_intern("from", 4));
+    }
 
     val = eval(prm);
     drop_obj(prm);
@@ -301,7 +303,8 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
             return val;
 
         ctx->take = val;
-    }
+    } else
+        drop_obj(prm);
 
     timeit_tick("fetch table");
 
diff --git a/core/update.c b/core/update.c
index 76032c8..10e834a 100644
--- a/core/update.c
+++ b/core/update.c
@@ -999,8 +999,10 @@ obj_p ray_update(obj_p obj) {
     // Retrive a table
     tabsym = at_sym(obj, "from", 4);
 
-    if (is_null(tabsym))
+    if (is_null(tabsym)) {
+        drop_obj(tabsym);
         return err_length(0, 0, 0, 0, 0, 0);
+    }
 
     tab = eval(tabsym);
     if (IS_ERR(tab)) {
-- 
2.43.0


From 732b3a73f08c0763752e8f7e8dfb597ac272e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 105/120] fix: xrank of an atom took its value for a length

---
 core/order.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/order.c b/core/order.c
index 8c1a05b..438ca21 100644
--- a/core/order.c
+++ b/core/order.c
@@ -607,7 +607,11 @@ obj_p xrank_worker(i64_t len, i64_t offset, void* ctx) {
 
 obj_p ray_xrank(obj_p y, obj_p x) {
     i64_t l, n_buckets;
-    obj_p perm, res;
+    obj_p perm = NULL_OBJ, res;
+
+    // A dictionary is ranked by its values
+    if (y->type == TYPE_DICT)
+        return ray_xrank(AS_LIST(y)[1], x);
 
     switch (x->type) {
         case -TYPE_I64:
@@ -628,10 +632,19 @@ obj_p ray_xrank(obj_p y, obj_p x) {
     if (n_buckets <= 0)
         return err_domain(0, 0);
 
+    // What cannot be sorted has no length either
+    if (!(y->attrs & (ATTR_ASC | ATTR_DESC))) {
+        perm = ray_iasc(y);
+        if (IS_ERR(perm))
+            return perm;
+    }
+
     l = y->len;
     res = I64(l);
-    if (IS_ERR(res))
+    if (IS_ERR(res)) {
+        drop_obj(perm);
         return res;
+    }
 
     // Fast path for sorted vectors
     if (y->attrs & ATTR_ASC) {
@@ -645,12 +658,6 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         return res;
     }
 
-    perm = ray_iasc(y);
-    if (IS_ERR(perm)) {
-        drop_obj(res);
-        return perm;
-    }
-
     xrank_ctx_t ctx = {AS_I64(perm), AS_I64(res), n_buckets, l};
     pool_map(l, xrank_worker, &ctx);
 
-- 
2.43.0


From 01730864ed0d3e84cd1a8734e7dbb48e34cfbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 106/120] fix: joins compared key columns of different kinds,
 missing ones or none at all

---
 core/join.c | 130 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 84 insertions(+), 46 deletions(-)

diff --git a/core/join.c b/core/join.c
index 02e4375..d551f98 100644
--- a/core/join.c
+++ b/core/join.c
@@ -161,6 +161,49 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
     return table(rescols, resvals);
 }
 
+// Columns of one kind can be compared with each other; TYPE_NULL for what is no key column
+static i8_t key_kind(i8_t type) {
+    switch (type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+            return TYPE_U8;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            return TYPE_I32;
+        case TYPE_I64:
+        case TYPE_SYMBOL:
+        case TYPE_TIMESTAMP:
+        case TYPE_ENUM:
+            return TYPE_I64;
+        case TYPE_LIST:
+        case TYPE_MAPLIST:
+            return TYPE_LIST;
+        case TYPE_I16:
+        case TYPE_F64:
+        case TYPE_GUID:
+            return type;
+        default:
+            return TYPE_NULL;
+    }
+}
+
+// Key columns must be there and of one kind in both tables
+static obj_p check_keys(obj_p lcols, obj_p rcols) {
+    i64_t i;
+    i8_t lt, rt;
+
+    for (i = 0; i < lcols->len; i++) {
+        lt = AS_LIST(lcols)[i]->type;
+        rt = AS_LIST(rcols)[i]->type;
+        if (key_kind(lt) == TYPE_NULL || key_kind(lt) != key_kind(rt))
+            return err_type(lt, rt, 0, 0);
+    }
+
+    return NULL_OBJ;
+}
+
 obj_p ray_left_join(obj_p *x, i64_t n) {
     obj_p k1, k2, idx, res;
 
@@ -170,6 +213,9 @@ obj_p ray_left_join(obj_p *x, i64_t n) {
     if (x[0]->type != TYPE_SYMBOL)
         return err_type(TYPE_SYMBOL, x[0]->type, 0, 0);
 
+    if (x[0]->len == 0)
+        return err_length(1, 0, 0, 0, 0, 0);
+
     if (x[1]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[1]->type, 0, 0);
 
@@ -189,7 +235,10 @@ obj_p ray_left_join(obj_p *x, i64_t n) {
         return k2;
     }
 
-    idx = index_left_join_obj(k1, k2, x[0]->len);
+    idx = (x[0]->len > 1) ? check_keys(k1, k2) : NULL_OBJ;
+    if (!IS_ERR(idx))
+        idx = index_left_join_obj(k1, k2, x[0]->len);
+
     drop_obj(k2);
 
     if (IS_ERR(idx)) {
@@ -213,6 +262,9 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     if (x[0]->type != TYPE_SYMBOL)
         return err_type(TYPE_SYMBOL, x[0]->type, 0, 0);
 
+    if (x[0]->len == 0)
+        return err_length(1, 0, 0, 0, 0, 0);
+
     if (x[1]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[1]->type, 0, 0);
 
@@ -232,7 +284,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return k2;
     }
 
-    idx = index_inner_join_obj(k1, k2, x[0]->len);
+    idx = (x[0]->len > 1) ? check_keys(k1, k2) : NULL_OBJ;
+    if (!IS_ERR(idx))
+        idx = index_inner_join_obj(k1, k2, x[0]->len);
+
     drop_obj(k1);
     drop_obj(k2);
 
@@ -240,8 +295,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return idx;
 
     un = ray_union(AS_LIST(x[1])[0], AS_LIST(x[2])[0]);
-    if (IS_ERR(un))
+    if (IS_ERR(un)) {
+        drop_obj(idx);
         return un;
+    }
 
     // exclude columns that we are joining on
     cols = ray_except(un, x[0]);
@@ -304,36 +361,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     return table(cols, vals);
 }
 
-// Columns of one kind can be compared with each other; TYPE_NULL for what is no key column
-static i8_t key_kind(i8_t type) {
-    switch (type) {
-        case TYPE_B8:
-        case TYPE_U8:
-        case TYPE_C8:
-            return TYPE_U8;
-        case TYPE_I32:
-        case TYPE_DATE:
-        case TYPE_TIME:
-            return TYPE_I32;
-        case TYPE_I64:
-        case TYPE_SYMBOL:
-        case TYPE_TIMESTAMP:
-        case TYPE_ENUM:
-            return TYPE_I64;
-        case TYPE_LIST:
-        case TYPE_MAPLIST:
-            return TYPE_LIST;
-        case TYPE_I16:
-        case TYPE_F64:
-        case TYPE_GUID:
-            return type;
-        default:
-            return TYPE_NULL;
-    }
-}
-
 obj_p ray_asof_join(obj_p *x, i64_t n) {
-    i64_t i;
     obj_p idx, v, ajkl, ajkr, keys, lvals, rvals, res;
 
     if (n != 3)
@@ -342,6 +370,9 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     if (x[0]->type != TYPE_SYMBOL)
         return err_type(TYPE_SYMBOL, x[0]->type, 0, 0);
 
+    if (x[0]->len == 0)
+        return err_length(1, 0, 0, 0, 0, 0);
+
     if (x[1]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[1]->type, 0, 0);
 
@@ -372,19 +403,14 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
 
-    // The other keys must be columns of one kind in both tables as well
-    for (i = 0; i < lvals->len; i++) {
-        if (key_kind(AS_LIST(lvals)[i]->type) == TYPE_NULL ||
-            key_kind(AS_LIST(lvals)[i]->type) != key_kind(AS_LIST(rvals)[i]->type)) {
-            i8_t expected = AS_LIST(lvals)[i]->type;
-            i8_t actual = AS_LIST(rvals)[i]->type;
-            drop_obj(keys);
-            drop_obj(lvals);
-            drop_obj(rvals);
-            drop_obj(ajkl);
-            drop_obj(ajkr);
-            return err_type(expected, actual, 0, 0);
-        }
+    res = check_keys(lvals, rvals);
+    if (IS_ERR(res)) {
+        drop_obj(keys);
+        drop_obj(lvals);
+        drop_obj(rvals);
+        drop_obj(ajkl);
+        drop_obj(ajkr);
+        return res;
     }
 
     idx = index_asof_join_obj(lvals, ajkl, rvals, ajkr);
@@ -439,6 +465,9 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (x[0]->type != TYPE_SYMBOL)
         return err_type(TYPE_SYMBOL, x[0]->type, 0, 0);
 
+    if (x[0]->len == 0)
+        return err_length(1, 0, 0, 0, 0, 0);
+
     if (x[1]->type != TYPE_LIST)
         return err_type(TYPE_LIST, x[1]->type, 0, 0);
 
@@ -464,6 +493,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     drop_obj(v);
 
     if (is_null(wjkl) || is_null(wjkr)) {
+        drop_obj(jtab);
         drop_obj(wjkl);
         drop_obj(wjkr);
         return err_value(0);
@@ -472,6 +502,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (wjkl->type != wjkr->type) {
         i8_t expected = wjkl->type;
         i8_t actual = wjkr->type;
+        drop_obj(jtab);
         drop_obj(wjkl);
         drop_obj(wjkr);
         return err_type(expected, actual, 0, 0);
@@ -490,7 +521,9 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
 
-    idx = index_window_join_obj(lvals, wjkl, rvals, wjkr, x[1], x[2], jtab, tp);
+    idx = check_keys(lvals, rvals);
+    if (!IS_ERR(idx))
+        idx = index_window_join_obj(lvals, wjkl, rvals, wjkr, x[1], x[2], jtab, tp);
 
     drop_obj(keys);
     drop_obj(lvals);
@@ -498,6 +531,11 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     drop_obj(wjkl);
     drop_obj(wjkr);
 
+    if (IS_ERR(idx)) {
+        drop_obj(jtab);
+        return idx;
+    }
+
     rtab = group_map(jtab, idx);
 
     // Use query context for column resolution during aggregation
-- 
2.43.0


From 6acaa26115802105926d4dcdf12be937235a3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 107/120] fix: a failed alter or modify left an error or other
 values in its variable

---
 core/rayforce.c |  9 ++++++++-
 core/update.c   | 46 +++++++++++++++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index b5324f0..4120efb 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -434,7 +434,12 @@ obj_p push_obj(obj_p* obj, obj_p val) {
     obj_p res, lst = NULL_OBJ;
 
     if (*obj == NULL_OBJ) {
-        *obj = vector(val->type, 1);
+        res = vector(val->type, 1);
+        if (IS_ERR(res)) {
+            drop_obj(val);
+            return res;
+        }
+        *obj = res;
         return ins_obj(obj, 0, val);
     }
 
@@ -3080,6 +3085,8 @@ obj_p copy_obj(obj_p obj) {
             return table(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
         case TYPE_DICT:
             return dict(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
+        case TYPE_NULL:
+            return NULL_OBJ;
         default:
             return err_nyi(obj->type);
     }
diff --git a/core/update.c b/core/update.c
index 10e834a..6645546 100644
--- a/core/update.c
+++ b/core/update.c
@@ -214,6 +214,10 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
 
             p = &AS_LIST(obj)[idx->i64];
             v = cow_obj(*p);
+            if (IS_ERR(v)) {
+                drop_obj(v);
+                return NULL;
+            }
             if (v != *p) {
                 drop_obj(*p);
                 *p = v;
@@ -232,6 +236,10 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
 
                     p = AS_LIST(AS_LIST(obj)[1]) + j;
                     v = cow_obj(*p);
+                    if (IS_ERR(v)) {
+                        drop_obj(v);
+                        return NULL;
+                    }
                     if (v != *p) {
                         drop_obj(*p);
                         *p = v;
@@ -279,6 +287,21 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
         if (idx->type == TYPE_NULL)
             return push_obj(obj, clone_obj(val));
 
+        // an element of a vector of a dictionary is replaced: the vector is left alone when that fails
+        if ((*obj)->type == TYPE_DICT && AS_LIST(*obj)[1]->type != TYPE_LIST) {
+            if (find_obj_idx(AS_LIST(*obj)[0], idx) == NULL_I64)
+                return err_value(0);
+            v = at_obj(*obj, idx);
+            if (IS_ERR(v))
+                return v;
+            res = push_obj(&v, clone_obj(val));
+            if (IS_ERR(res)) {
+                drop_obj(v);
+                return res;
+            }
+            return set_obj(obj, idx, v);
+        }
+
         p = at_obj_ref(*obj, idx);
         if (p == NULL)
             return err_value(0);
@@ -364,7 +387,7 @@ obj_p ray_alter(obj_p *x, i64_t n) {
 }
 
 obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, own, res, *cur, *ref, idx;
+    obj_p obj, res, *cur, *ref, idx;
 
     cur = NULL;
 
@@ -378,15 +401,13 @@ obj_p ray_modify(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        // the caller keeps its value: change a copy
-        obj = copy_obj(x[0]);
-        if (IS_ERR(obj))
-            return obj;
     }
 
-    own = obj;
+    // the caller keeps its value, and so does a variable when the change fails half way: change a copy
+    obj = copy_obj((cur == NULL) ? x[0] : *cur);
+    if (IS_ERR(obj))
+        return obj;
+
     ref = dot_ref(&obj, x[2]);
     res = (ref == NULL) ? err_value(0) : ray_last(x[2]);
 
@@ -397,9 +418,7 @@ obj_p ray_modify(obj_p *x, i64_t n) {
     }
 
     if (IS_ERR(res)) {
-        if (cur == NULL || own != *cur)
-            drop_obj(obj);
-
+        drop_obj(obj);
         return res;
     }
 
@@ -409,10 +428,7 @@ obj_p ray_modify(obj_p *x, i64_t n) {
     if (cur == NULL)
         return obj;
 
-    // own was a copy
-    if (own != *cur)
-        drop_obj(*cur);
-
+    drop_obj(*cur);
     *cur = obj;
 
     return clone_obj(x[0]);
-- 
2.43.0


From 83bc68c3f28149be40eeda2a23223cbd588d85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 108/120] fix: upsert compared key columns of different types,
 and crashed

---
 core/join.c   | 10 +++++-----
 core/join.h   |  3 +++
 core/update.c | 26 +++++++++++---------------
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/core/join.c b/core/join.c
index d551f98..02d4db6 100644
--- a/core/join.c
+++ b/core/join.c
@@ -190,7 +190,7 @@ static i8_t key_kind(i8_t type) {
 }
 
 // Key columns must be there and of one kind in both tables
-static obj_p check_keys(obj_p lcols, obj_p rcols) {
+obj_p join_check_keys(obj_p lcols, obj_p rcols) {
     i64_t i;
     i8_t lt, rt;
 
@@ -235,7 +235,7 @@ obj_p ray_left_join(obj_p *x, i64_t n) {
         return k2;
     }
 
-    idx = (x[0]->len > 1) ? check_keys(k1, k2) : NULL_OBJ;
+    idx = (x[0]->len > 1) ? join_check_keys(k1, k2) : NULL_OBJ;
     if (!IS_ERR(idx))
         idx = index_left_join_obj(k1, k2, x[0]->len);
 
@@ -284,7 +284,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return k2;
     }
 
-    idx = (x[0]->len > 1) ? check_keys(k1, k2) : NULL_OBJ;
+    idx = (x[0]->len > 1) ? join_check_keys(k1, k2) : NULL_OBJ;
     if (!IS_ERR(idx))
         idx = index_inner_join_obj(k1, k2, x[0]->len);
 
@@ -403,7 +403,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
 
-    res = check_keys(lvals, rvals);
+    res = join_check_keys(lvals, rvals);
     if (IS_ERR(res)) {
         drop_obj(keys);
         drop_obj(lvals);
@@ -521,7 +521,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
 
-    idx = check_keys(lvals, rvals);
+    idx = join_check_keys(lvals, rvals);
     if (!IS_ERR(idx))
         idx = index_window_join_obj(lvals, wjkl, rvals, wjkr, x[1], x[2], jtab, tp);
 
diff --git a/core/join.h b/core/join.h
index c731db1..96df751 100644
--- a/core/join.h
+++ b/core/join.h
@@ -32,4 +32,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n);
 obj_p ray_window_join(obj_p *x, i64_t n);
 obj_p ray_window_join1(obj_p *x, i64_t n);
 
+// Key columns must be of one kind in both tables: an error if they are not
+obj_p join_check_keys(obj_p lcols, obj_p rcols);
+
 #endif  // JOIN_H
diff --git a/core/update.c b/core/update.c
index 6645546..a0eeb5f 100644
--- a/core/update.c
+++ b/core/update.c
@@ -29,6 +29,7 @@
 #include "binary.h"
 #include "vary.h"
 #include "index.h"
+#include "join.h"
 #include "items.h"
 #include "group.h"
 #include "filter.h"
@@ -666,7 +667,9 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
                         AS_LIST(k2)[i] = ray_enlist(AS_LIST(lst) + i, 1);
                 }
 
-                idx = index_upsert_obj(k2, k1, x[1]->i64);
+                idx = (keys > 1) ? join_check_keys(k2, k1) : NULL_OBJ;
+                if (!IS_ERR(idx))
+                    idx = index_upsert_obj(k2, k1, x[1]->i64);
 
                 drop_obj(k1);
                 drop_obj(k2);
@@ -709,6 +712,10 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 
                 if (AS_LIST(lst)[i]->len != ll)
                     UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
+
+                // the keys are compared with the table's: their types are to match first
+                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i]))
+                    UPSERT_ERROR(err_type(0, 0, 0, 0));
             }
 
             if (keys == 1) {
@@ -721,7 +728,9 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
                 m = ops_count(AS_LIST(k2)[0]);
             }
 
-            idx = index_upsert_obj(k2, k1, x[1]->i64);
+            idx = (keys > 1) ? join_check_keys(k2, k1) : NULL_OBJ;
+            if (!IS_ERR(idx))
+                idx = index_upsert_obj(k2, k1, x[1]->i64);
 
             drop_obj(k1);
             drop_obj(k2);
@@ -729,19 +738,6 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
             if (IS_ERR(idx))
                 UPSERT_ERROR(idx);
 
-            // Check all the elements of the list
-            for (i = 0; i < l; i++) {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-                }
-
-                if (AS_LIST(lst)[i]->len != m) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-                }
-            }
-
             rows = AS_I64(idx);
 
             // Process each column
-- 
2.43.0


From efedb8cafa5d1026caa283a733f9e64ba442ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:23 +0000
Subject: [PATCH 109/120] fix: text without a number in it became whatever
 memory held

---
 core/rayforce.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 4120efb..adb2bd0 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2400,9 +2400,9 @@ i64_t find_raw(obj_p obj, raw_p val) {
 obj_p cast_obj(i8_t type, obj_p obj) {
     obj_p v, res;
     u8_t* g;
-    i32_t num_i32;
-    i64_t i, l, num_i64;
-    f64_t num_f64;
+    i32_t num_i32 = NULL_I32;
+    i64_t i, l, num_i64 = NULL_I64;
+    f64_t num_f64 = NULL_F64;
     lit_p str;
 
     // Do nothing if the type is the same
-- 
2.43.0


From 7a8a89c120be677229d9a3b6564e966e5e7d1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:26 +0000
Subject: [PATCH 110/120] fix: remove took an atom's value for a length

---
 core/rayforce.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index adb2bd0..d6dbef5 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2000,6 +2000,10 @@ obj_p pop_obj(obj_p* obj) {
 }
 
 obj_p remove_idx(obj_p* obj, i64_t idx) {
+    // an atom has no elements (nor a length)
+    if (IS_ATOM(*obj))
+        return err_type(TYPE_LIST, (*obj)->type, 0, 0);
+
     if (idx < 0 || idx >= (i64_t)(*obj)->len)
         return *obj;
 
@@ -2038,6 +2042,9 @@ obj_p remove_idx(obj_p* obj, i64_t idx) {
 obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
     i64_t i, j;
 
+    if (IS_ATOM(*obj))
+        return err_type(TYPE_LIST, (*obj)->type, 0, 0);
+
     if (len == 0 || (*obj)->len == 0 || len > (*obj)->len)
         return *obj;
 
-- 
2.43.0


From 55eb6f846d37fb0be0c544eb1cd8729d98622cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:47 +0000
Subject: [PATCH 111/120] fix: the last line of a csv file without a newline
 was lost

---
 core/io.c | 27 ++++++++++++++++++---------
 core/io.h |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/core/io.c b/core/io.c
index e220558..f6c70e7 100644
--- a/core/io.c
+++ b/core/io.c
@@ -60,7 +60,7 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
 // Build line offset index in single pass with SIMD acceleration
 // Returns number of lines, allocates line_offsets_out array
 // line_offsets[i] = byte offset where line i starts (line 0 is first data line after header)
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
+i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out, i64_t *capacity_out) {
     i64_t capacity;
     i64_t line_count = 0;
     i64_t *offsets;
@@ -137,7 +137,18 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
         pos++;
     }
 
+    // The last line may have no newline
+    if (size > 0 && buf[size - 1] != '\n') {
+        if (line_count >= capacity) {
+            offsets = grow_offsets(offsets, &capacity, line_count);
+            if (offsets == NULL)
+                return -1;
+        }
+        offsets[line_count++] = size;
+    }
+
     *line_offsets_out = offsets;
+    *capacity_out = capacity;
     return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
 
@@ -669,7 +680,7 @@ i64_t io_symbol_from_str_trimmed(str_p src, i64_t len) {
 
 obj_p ray_read_csv(obj_p *x, i64_t n) {
     i64_t fd, size;
-    i64_t i, l, len, lines, line_index_capacity;
+    i64_t i, j, l, len, lines, line_index_capacity = 0;
     i64_t *line_offsets = NULL;
     str_p buf, prev, pos, line;
     obj_p types, names, cols, path, res;
@@ -732,12 +743,14 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
 
             if (buf == NULL) {
                 drop_obj(types);
+                res = err_os();
                 fs_fclose(fd);
-                return err_os();
+                drop_obj(path);
+                return res;
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
-            lines = io_build_line_index(buf, size, &line_offsets);
+            lines = io_build_line_index(buf, size, &line_offsets, &line_index_capacity);
 
             if (lines <= 0 || line_offsets == NULL) {
                 drop_obj(types);
@@ -747,11 +760,6 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
-            // Calculate capacity for cleanup (next power of 2 >= lines+1)
-            line_index_capacity = 1024;
-            while (line_index_capacity < lines + 2)
-                line_index_capacity *= 2;
-
             // parse header (line 0)
             pos = buf + line_offsets[1];  // End of header line
             if (pos > buf && *(pos - 1) == '\n')
@@ -771,6 +779,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                         drop_obj(names);
                         fs_fclose(fd);
                         mmap_free(buf, size);
+                        drop_obj(path);
                         heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
diff --git a/core/io.h b/core/io.h
index b44bd6f..5140639 100644
--- a/core/io.h
+++ b/core/io.h
@@ -44,6 +44,6 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile);
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep);
 i64_t io_symbol_from_str_trimmed(str_p src, i64_t len);
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out);
+i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out, i64_t *capacity_out);
 
 #endif  // IO_H
-- 
2.43.0


From fbabe2c5c2565825ea7ce4b44124a7edd6bde474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 112/120] fix: csv fields: empty, quoted, unparsable and
 missing ones were read as whatever was near

---
 core/io.c | 122 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 46 deletions(-)

diff --git a/core/io.c b/core/io.c
index f6c70e7..ca9b8d1 100644
--- a/core/io.c
+++ b/core/io.c
@@ -379,6 +379,10 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
     b8_t num_b8 = 0;
     i64_t n, num_i64 = 0;  // Initialize to avoid uninitialized value
 
+    // an empty field is a null
+    if (start != NULL && end <= start)
+        start = end = NULL;
+
     switch (type) {
         case TYPE_B8:
             if (start == NULL || end == NULL) {
@@ -401,15 +405,15 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I16(out)[row] = NULL_I16;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I16(out)[row] = (i16_t)num_i64;
+            AS_I16(out)[row] = i64_from_str(start, end - start, &num_i64) ? (i16_t)num_i64 : NULL_I16;
             break;
         case TYPE_I32:
             if (start == NULL || end == NULL) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
+            if (i32_from_str(start, end - start, &AS_I32(out)[row]) == 0)
+                AS_I32(out)[row] = NULL_I32;
             break;
         case TYPE_DATE:
             if (start == NULL || end == NULL) {
@@ -430,8 +434,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I64(out)[row] = NULL_I64;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I64(out)[row] = num_i64;
+            AS_I64(out)[row] = i64_from_str(start, end - start, &num_i64) ? num_i64 : NULL_I64;
             break;
         case TYPE_TIMESTAMP:
             if (start == NULL || end == NULL) {
@@ -445,24 +448,15 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_F64(out)[row] = NULL_F64;
                 break;
             }
-            f64_from_str(start, end - start, &AS_F64(out)[row]);
+            if (f64_from_str(start, end - start, &AS_F64(out)[row]) == 0)
+                AS_F64(out)[row] = NULL_F64;
             break;
         case TYPE_SYMBOL:
-            if (start == NULL || end == NULL) {
-                AS_SYMBOL(out)[row] = 0;
-                break;
-            }
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-
-            AS_SYMBOL(out)[row] = symbols_intern(start, n);
+            AS_SYMBOL(out)[row] = (start == NULL) ? NULL_I64 : symbols_intern(start, end - start);
             break;
         case TYPE_C8:
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-            AS_LIST(out)[row] = string_from_str(start, n);
+            n = (start == NULL) ? 0 : end - start;
+            AS_LIST(out)[row] = string_from_str((start == NULL) ? "" : start, n);
             break;
         case TYPE_GUID:
             if (start == NULL || end == NULL) {
@@ -481,6 +475,44 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
     return NULL_OBJ;
 }
 
+// A field in quotes: *pos is at the opening quote and is moved behind the closing one; a doubled quote stands for one.
+static obj_p parse_csv_quoted(i8_t type, str_p *pos, str_p end, i64_t row, obj_p out) {
+    str_p start = *pos + 1, p = start;
+    b8_t doubled = B8_FALSE;
+    i64_t n = 0;
+    obj_p str, res;
+
+    for (; p < end; p++) {
+        if (*p == '"') {
+            if (p + 1 >= end || p[1] != '"')
+                break;
+            doubled = B8_TRUE;
+            p++;
+        }
+        n++;
+    }
+
+    if (p >= end)
+        return err_length(0, 0, 0, 0, 0, 0);
+
+    *pos = p + 1;
+
+    if (!doubled)
+        return parse_csv_field(type, start, p, row, out);
+
+    str = C8(n);
+    for (n = 0; start < p; start++) {
+        AS_C8(str)[n++] = *start;
+        if (*start == '"')
+            start++;
+    }
+
+    res = parse_csv_field(type, AS_C8(str), AS_C8(str) + n, row, out);
+    drop_obj(str);
+
+    return res;
+}
+
 obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row, obj_p cols, c8_t sep) {
     i64_t i, len;
     str_p prev, pos;
@@ -501,22 +533,30 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
 
         // quoted field?
         if (len > 0 && *prev == '"') {
-            prev++;
-            pos = (str_p)memchr(prev, '"', len - 1);
-
-            if (pos == NULL)
-                return err_length(0, 0, 0, 0, 0, 0);
-
-            res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
-            pos += 2;  // skip quote and comma
+            res = parse_csv_quoted(types[i], &pos, end, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
                 return res;
 
+            // the separator, or the end of the line
+            if (pos >= end) {
+                if (i < cnt - 1)
+                    return err_length(0, 0, 0, 0, 0, 0);
+                break;
+            }
+
+            if (*pos != sep)
+                return err_length(0, 0, 0, 0, 0, 0);
+
+            pos++;
             continue;
         }
 
         if (len == 0) {
+            // the line ends here (an empty line is a row of nulls)
+            if (i < cnt - 1 && start != end)
+                return err_length(0, 0, 0, 0, 0, 0);
+
             res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
 
             if (!is_null(res))
@@ -545,8 +585,8 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
 
 obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
                       c8_t sep) {
-    i64_t i, j, k, l;
-    str_p line_end, prev;
+    i64_t i;
+    str_p line_end, text_end, prev;
     obj_p res = NULL_OBJ;
 
     for (i = 0, prev = buf; i < lines; i++) {
@@ -555,26 +595,16 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
             __builtin_prefetch(prev + 256, 0, 1);
 
         line_end = (str_p)memchr(prev, '\n', buf + size - prev);
-        if (line_end == NULL) {
+        if (line_end == NULL)
             line_end = buf + size;  // Handle last line without newline
-            if (line_end > prev && *(line_end - 1) == '\r')
-                line_end--;  // Handle carriage return
-        }
 
-        res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
+        // Handle carriage return
+        text_end = (line_end > prev && *(line_end - 1) == '\r') ? line_end - 1 : line_end;
 
-        if (res != NULL_OBJ) {
-            l = cols->len;
-            for (j = 0; j < l; j++) {
-                // Need to free allocated objects in case of compound type
-                if (AS_LIST(cols)[j]->type == TYPE_LIST) {
-                    for (k = 0; k < i; k++) {
-                        drop_obj(AS_LIST(AS_LIST(cols)[j])[k]);
-                    }
-                }
-                return res;
-            }
-        }
+        res = parse_csv_line(types, num_types, prev, text_end, start_line + i, cols, sep);
+
+        if (res != NULL_OBJ)
+            return res;
 
         prev = line_end + 1;  // Move past the newline
     }
-- 
2.43.0


From 3cc06edf90b95a71185136d64fe3d8bef8047914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:03 +0000
Subject: [PATCH 113/120] fix: read-csv lost the error of a part read by
 another thread

---
 core/io.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/core/io.c b/core/io.c
index ca9b8d1..dbb6e83 100644
--- a/core/io.c
+++ b/core/io.c
@@ -614,8 +614,8 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
 
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep) {
-    obj_p err, res = NULL_OBJ;
-    i64_t i, l, batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
+    obj_p res = NULL_OBJ;
+    i64_t batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
     str_p batch_start, batch_end;
     pool_p pool = runtime_get()->pool;
 
@@ -657,15 +657,8 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
     }
 
     res = pool_run(pool);
-
-    l = res->len;
-    for (i = 0; i < l; i++) {
-        if (IS_ERR(AS_LIST(res)[i])) {
-            err = clone_obj(AS_LIST(res)[i]);
-            drop_obj(res);
-            return err;
-        }
-    }
+    if (IS_ERR(res))
+        return res;
 
     drop_obj(res);
 
@@ -747,6 +740,12 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                 if (type < 0)
                     type = -type;
 
+                // only types that a field can have
+                if (type < TYPE_B8 || type > TYPE_C8) {
+                    drop_obj(types);
+                    return err_value(AS_SYMBOL(x[0])[i]);
+                }
+
                 types->raw[i] = type;
             }
 
@@ -850,9 +849,11 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             // allocate columns
             cols = LIST(l);
             for (i = 0; i < l; i++) {
-                if (AS_C8(types)[i] == TYPE_C8)
+                if (AS_C8(types)[i] == TYPE_C8) {
                     AS_LIST(cols)[i] = LIST(lines);
-                else
+                    for (j = 0; j < lines; j++)
+                        AS_LIST(AS_LIST(cols)[i])[j] = NULL_OBJ;
+                } else
                     AS_LIST(cols)[i] = vector(AS_C8(types)[i], lines);
             }
 
@@ -868,10 +869,6 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
 
             if (!is_null(res)) {
                 drop_obj(names);
-                l = cols->len;
-                for (i = 0; i < l; i++)
-                    AS_LIST(cols)[i]->len = 0;
-
                 drop_obj(cols);
                 return res;
             }
-- 
2.43.0


From 7710e9ff75869b9de64d61e61010a582241c2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:12 +0000
Subject: [PATCH 114/120] fix: csv column names lost their underscores and
 other name characters

---
 core/io.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/io.c b/core/io.c
index dbb6e83..068719c 100644
--- a/core/io.c
+++ b/core/io.c
@@ -682,12 +682,10 @@ i64_t io_symbol_from_str_trimmed(str_p src, i64_t len) {
             return NULL_I64;
     }
 
-    // Filter: keep only alphabetical characters (A-Z, a-z)
+    // Filter: keep only the characters of a name
     for (i = 0; i < len; i++) {
         c = src[i];
-        // Manual check for alphabetic characters for better performance
-        // This is faster than isalpha() and avoids locale-dependent behavior
-        if (is_alphanum(c))
+        if (is_alphanum(c) || is_op(c))
             trimmed[j++] = c;
     }
 
-- 
2.43.0


From 4065d79f9e504906c7c06edf6e3ab6dee0be3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:19 +0000
Subject: [PATCH 115/120] fix: write-csv wrote what read-csv cannot read back

---
 core/io.c | 92 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/core/io.c b/core/io.c
index 068719c..4a7874e 100644
--- a/core/io.c
+++ b/core/io.c
@@ -877,16 +877,52 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
     }
 }
 
-static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
+// A text, in quotes when it contains the separator, a line break or a quote
+static i64_t csv_text_to_str(str_p s, i64_t n, c8_t sep, obj_p *dst) {
+    i64_t i, m;
+
+    for (i = 0; i < n; i++)
+        if (s[i] == sep || s[i] == '"' || s[i] == '\n' || s[i] == '\r')
+            break;
+
+    if (i == n)
+        return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+
+    m = str_fmt_into(dst, -1, "\"");
+    for (i = 0; i < n; i++)
+        m += str_fmt_into(dst, -1, (s[i] == '"') ? "\"\"" : "%c", s[i]);
+
+    return m + str_fmt_into(dst, -1, "\"");
+}
+
+// The shortest decimal text that reads as the same number
+static i64_t csv_f64_to_str(f64_t v, obj_p *dst) {
+    c8_t buf[64];
+    i32_t p;
+
+    for (p = 15; p <= 17; p++) {
+        snprintf(buf, sizeof(buf), "%.*g", p, v);
+        if (strtod(buf, NULL) == v)
+            break;
+    }
+
+    return str_fmt_into(dst, -1, "%s", buf);
+}
+
+static i64_t csv_field_to_str(obj_p col, i64_t row, c8_t sep, obj_p *dst) {
     i64_t n;
     str_p s;
-    obj_p str_obj;
+    obj_p str_obj, one;
 
     switch (col->type) {
         case TYPE_B8:
             return AS_B8(col)[row] ? str_fmt_into(dst, -1, "true") : str_fmt_into(dst, -1, "false");
         case TYPE_U8:
             return str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+        case TYPE_I16:
+            if (AS_I16(col)[row] == NULL_I16)
+                return 0;
+            return str_fmt_into(dst, -1, "%d", AS_I16(col)[row]);
         case TYPE_I32:
             if (AS_I32(col)[row] == NULL_I32)
                 return 0;
@@ -922,47 +958,25 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
         case TYPE_F64:
             if (ISNANF64(AS_F64(col)[row]))
                 return 0;
-            return str_fmt_into(dst, -1, "%g", AS_F64(col)[row]);
+            return csv_f64_to_str(AS_F64(col)[row], dst);
         case TYPE_SYMBOL:
             if (AS_SYMBOL(col)[row] == NULL_I64)
                 return 0;
             s = str_from_symbol(AS_SYMBOL(col)[row]);
-            return str_fmt_into(dst, -1, "%s", s);
+            return csv_text_to_str(s, strlen(s), sep, dst);
         case TYPE_C8:
-            // String type - output with quotes if it contains separator or quotes
-            s = AS_C8(col);
-            n = col->len;
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            return csv_text_to_str(AS_C8(col) + row, 1, sep, dst);
         case TYPE_LIST:
-            // List of strings
             str_obj = AS_LIST(col)[row];
             if (str_obj == NULL_OBJ || str_obj->type == TYPE_NULL)
                 return 0;
-            s = AS_C8(str_obj);
-            n = str_obj->len;
-            // Check if we need to quote (contains separator, newline, or quote)
-            {
-                i64_t i;
-                b8_t need_quote = B8_FALSE;
-                for (i = 0; i < n; i++) {
-                    if (s[i] == ',' || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
-                        need_quote = B8_TRUE;
-                        break;
-                    }
-                }
-                if (need_quote) {
-                    i64_t m = str_fmt_into(dst, -1, "\"");
-                    for (i = 0; i < n; i++) {
-                        if (s[i] == '"')
-                            m += str_fmt_into(dst, -1, "\"\"");
-                        else
-                            m += str_fmt_into(dst, -1, "%c", s[i]);
-                    }
-                    m += str_fmt_into(dst, -1, "\"");
-                    return m;
-                }
-            }
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            if (str_obj->type == TYPE_C8)
+                return csv_text_to_str(AS_C8(str_obj), str_obj->len, sep, dst);
+            // Any other value as it is printed
+            str_obj = obj_fmt(str_obj, B8_FALSE);
+            n = csv_text_to_str(AS_C8(str_obj), str_obj->len, sep, dst);
+            drop_obj(str_obj);
+            return n;
         case TYPE_GUID:
             if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) == 0)
                 return 0;
@@ -972,6 +986,14 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
                                     (*g)[0], (*g)[1], (*g)[2], (*g)[3], (*g)[4], (*g)[5], (*g)[6], (*g)[7], (*g)[8],
                                     (*g)[9], (*g)[10], (*g)[11], (*g)[12], (*g)[13], (*g)[14], (*g)[15]);
             }
+        case TYPE_ENUM:
+            // The symbol it stands for
+            str_obj = at_idx(col, row);
+            one = ray_enlist(&str_obj, 1);
+            n = (one->type == TYPE_SYMBOL) ? csv_field_to_str(one, 0, sep, dst) : 0;
+            drop_obj(one);
+            drop_obj(str_obj);
+            return n;
         default:
             return 0;
     }
@@ -1035,7 +1057,7 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             for (j = 0; j < rows; j++) {
                 for (i = 0; i < l; i++) {
                     col = AS_LIST(cols)[i];
-                    csv_field_to_str(col, j, &buf);
+                    csv_field_to_str(col, j, sep, &buf);
                     if (i < l - 1)
                         str_fmt_into(&buf, -1, "%c", sep);
                 }
-- 
2.43.0


From 2c270aa58775c22d3bf6521b4f57ccbae228b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:27 +0000
Subject: [PATCH 116/120] fix: scan-right with a function pushed one argument
 too many

---
 core/iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/iter.c b/core/iter.c
index 588e44c..62f4909 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -1633,7 +1633,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
                 x2 = clone_obj(v);
                 vm_stack_push(x2);
                 // Push all other arguments in between
-                for (j = 0; j < n - 1; j++) {
+                for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
                 }
 
-- 
2.43.0


From c60ac8a1cd7c405f12fc1484df2b8f43eb423a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:37 +0000
Subject: [PATCH 117/120] fix: equal items of a vector known to be sorted lost
 their order when sorted the other way

---
 core/order.c | 6 +++---
 core/sort.c  | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/order.c b/core/order.c
index 438ca21..fe7d4b2 100644
--- a/core/order.c
+++ b/core/order.c
@@ -537,7 +537,7 @@ obj_p ray_rank(obj_p x) {
         drop_obj(n);
         return res;
     }
-    if (x->attrs & ATTR_DESC) {
+    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -633,7 +633,7 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         return err_domain(0, 0);
 
     // What cannot be sorted has no length either
-    if (!(y->attrs & (ATTR_ASC | ATTR_DESC))) {
+    if (!(y->attrs & ATTR_ASC) && (y->attrs & (ATTR_DESC | ATTR_DISTINCT)) != (ATTR_DESC | ATTR_DISTINCT)) {
         perm = ray_iasc(y);
         if (IS_ERR(perm))
             return perm;
@@ -652,7 +652,7 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if (y->attrs & ATTR_DESC) {
+    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
diff --git a/core/sort.c b/core/sort.c
index b4b9fa2..21a2aa1 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -455,7 +455,8 @@ obj_p ray_sort_asc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_DESC) {
+    // Reversing keeps equal items in their order only when there are none
+    if ((vec->attrs & ATTR_DESC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -716,7 +717,8 @@ obj_p ray_sort_desc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_ASC) {
+    // Reversing keeps equal items in their order only when there are none
+    if ((vec->attrs & ATTR_ASC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
-- 
2.43.0


From d5d9566df83b6a7f1e736d45ad76031d2f2e65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:46 +0000
Subject: [PATCH 118/120] fix: i16 vectors could not be reversed

---
 core/compose.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index f4be0a9..3c8f652 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = vector(x->type, l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-- 
2.43.0


From ca9f34b09c580be2809bcc8254598c095345030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:55 +0000
Subject: [PATCH 119/120] fix: a vector changed in place was still believed to
 be sorted and distinct

---
 core/rayforce.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index d6dbef5..97dc1a3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3116,12 +3116,15 @@ obj_p cow_obj(obj_p obj) {
     else
         rc = __atomic_load_n(&obj->rc, __ATOMIC_RELAXED);
 
-    // we only own the reference, so we can freely modify it
-    if (rc == 1)
-        return obj;
+    // we only own the reference, so we can freely modify it; otherwise we need to copy object
+    if (rc != 1)
+        obj = copy_obj(obj);
 
-    // we don't own the reference, so we need to copy object
-    return copy_obj(obj);
+    // What is about to change may no longer be sorted or distinct
+    if (obj->type >= TYPE_LIST && obj->type <= TYPE_C8)
+        obj->attrs &= ~(ATTR_ASC | ATTR_DESC | ATTR_DISTINCT);
+
+    return obj;
 }
 
 nil_t own_parts(obj_p obj) {
-- 
2.43.0


From 03e297ab6ee0eb8062605d3f29d5d28249e8f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:00 +0000
Subject: [PATCH 120/120] fix: results computed in the place of a sorted
 operand were still believed to be sorted

---
 core/logic.c | 5 ++++-
 core/math.c  | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/logic.c b/core/logic.c
index 1cb146a..011a730 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -90,8 +90,11 @@ static obj_p mask_own(obj_p x) {
     i64_t i, l;
     obj_p res;
 
-    if (rc_obj(x) == 1)
+    if (rc_obj(x) == 1) {
+        if (x->type == TYPE_B8)
+            x->attrs &= ~(ATTR_ASC | ATTR_DESC | ATTR_DISTINCT);
         return x;
+    }
 
     switch (x->type) {
         case -TYPE_B8:
diff --git a/core/math.c b/core/math.c
index 47b6d52..eff7f2e 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2249,6 +2249,8 @@ obj_p unop_map(raw_p op, obj_p x) {
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
     out = (rc_obj(x) == 1) ? clone_obj(x) : vector(x->type, l);
+    // What the operand was known to be does not hold for the result
+    out->attrs &= ~(ATTR_ASC | ATTR_DESC | ATTR_DISTINCT);
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, l, 0, out);
@@ -2313,6 +2315,8 @@ obj_p binop_map(raw_p op, obj_p x, obj_p y) {
     out = (rc_obj(x) == 1 && IS_VECTOR(x) && x->type == t)   ? clone_obj(x)
           : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                              : vector(t, l);
+    // What the operand was known to be does not hold for the result
+    out->attrs &= ~(ATTR_ASC | ATTR_DESC | ATTR_DISTINCT);
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)(x, y, l, 0, out);
-- 
2.43.0

