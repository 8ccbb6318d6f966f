From f1f5e028e46a0cfff1ac9afe075464a585063597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 01/91] fix: define the stack functions under the names their
 header declares

---
 src/commons/collections/pdc_stack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/pdc_stack.c b/src/commons/collections/pdc_stack.c
index 3b33275..8bd5cb8 100644
--- a/src/commons/collections/pdc_stack.c
+++ b/src/commons/collections/pdc_stack.c
@@ -6,7 +6,7 @@
 #define DEFAULT_CAPACITY 16
 
 void
-stack_init(PDC_stack_t *stack)
+PDC_stack_init(PDC_stack_t *stack)
 {
     stack->data     = malloc(sizeof(void *) * DEFAULT_CAPACITY);
     stack->size     = 0;
@@ -14,7 +14,7 @@ stack_init(PDC_stack_t *stack)
 }
 
 void
-stack_push(PDC_stack_t *stack, void *value)
+PDC_stack_push(PDC_stack_t *stack, void *value)
 {
     if (stack->size == stack->capacity) {
         size_t new_capacity = stack->capacity * 2;
@@ -30,7 +30,7 @@ stack_push(PDC_stack_t *stack, void *value)
 }
 
 void *
-stack_pop(PDC_stack_t *stack)
+PDC_stack_pop(PDC_stack_t *stack)
 {
     if (stack->size == 0) {
         printf("Stack underflow!\n");
@@ -40,7 +40,7 @@ stack_pop(PDC_stack_t *stack)
 }
 
 void
-stack_free(PDC_stack_t *stack)
+PDC_stack_free(PDC_stack_t *stack)
 {
     free(stack->data);
 }
\ No newline at end of file
-- 
2.43.0


From 8243802d0d12740c627065d08b2af8ab7c632afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 02/91] fix: do not read through NULL when a list search finds
 nothing

---
 src/commons/utils/include/pdc_linkedlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From 6a27ebe6a4c97e525cf617f37242ef27aec0d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 03/91] fix: keep a deque's elements when it is full or shrinks
 to nothing

---
 src/commons/collections/pdc_deque.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..6c0fb0f 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,10 +22,10 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
-    size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
+    // head == tail both when the deque is empty and when it is full: go by its size
+    size_t i;
+    for (i = 0; i < deque->size; i++) {
+        new_data[i] = deque->data[(deque->head + i) % deque->capacity];
     }
 
     free(deque->data);
@@ -66,7 +66,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +81,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From 6f8efa31f3786c886e047315f1c544763ef4f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/91] fix: let a vector grow whatever its expansion factor

---
 src/commons/collections/pdc_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..c510d11 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -57,6 +57,10 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
         vector->capacity *= vector->expansion_factor;
+        // the factor may be too small to make room for one more item
+        if (vector->capacity <= vector->item_count) {
+            vector->capacity = vector->item_count + 1;
+        }
         vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
         if (vector->items == NULL) {
             return;
-- 
2.43.0


From 317658ddb3ded2b80099685b9936f2b3242d2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 05/91] fix: removing an absent element from a profiling hash
 table does nothing

---
 src/commons/profiling/pdc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e59b7e3..e4bf401 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -429,7 +429,7 @@ PTR  element;
     PTR *slot;
 
     slot = htab_find_slot(htab, element, NO_INSERT);
-    if (*slot == EMPTY_ENTRY)
+    if (slot == NULL || *slot == EMPTY_ENTRY)
         return;
 
     if (htab->del_f)
-- 
2.43.0


From 78b88abf9fd1fa3ff176039de35204e3d7546b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 06/91] fix: an emptied profiling hash table has no elements

---
 src/commons/profiling/pdc_hashtab.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index e4bf401..c0926c3 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -218,6 +218,8 @@ void htab_empty(htab) htab_t htab;
                 (*htab->del_f)(htab->entries[i]);
 
     memset(htab->entries, 0, htab->size * sizeof(PTR));
+    htab->n_elements = 0;
+    htab->n_deleted  = 0;
 }
 
 /* Similar to htab_find_slot, but without several unwanted side effects:
-- 
2.43.0


From 647f0e064a0a3433094105d2515c7b036341130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 07/91] fix: do not read past the end of a key shorter than a
 long common prefix

---
 src/commons/collections/art.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..9a94fb5 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -264,6 +264,16 @@ min(int a, int b)
     return (a < b) ? a : b;
 }
 
+/**
+ * Returns the key's byte at depth. A key may end inside a compressed path,
+ * of which a node stores only the first bytes: it reads as terminated there.
+ */
+static inline unsigned char
+key_at(const unsigned char *key, int key_len, int depth)
+{
+    return (depth < key_len) ? key[depth] : 0;
+}
+
 /**
  * Returns the number of prefix characters shared between
  * the key and node.
@@ -330,7 +340,7 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
         }
 
         // Recursively search
-        child = find_child(n, key[depth]);
+        child = find_child(n, key_at(key, key_len, depth));
         n     = (child) ? *child : NULL;
         depth++;
     }
@@ -694,21 +704,21 @@ recursive_insert(art_node *n, art_node **ref, const unsigned char *key, int key_
 
         // Insert the new leaf
         art_leaf *l = make_leaf(key, key_len, value);
-        add_child4(new_node, ref, key[depth + prefix_diff], SET_LEAF(l));
+        add_child4(new_node, ref, key_at(key, key_len, depth + prefix_diff), SET_LEAF(l));
         return NULL;
     }
 
 RECURSE_SEARCH:;
 
     // Find a child to recurse to
-    art_node **child = find_child(n, key[depth]);
+    art_node **child = find_child(n, key_at(key, key_len, depth));
     if (child) {
         return recursive_insert(*child, child, key, key_len, value, depth + 1, old, replace);
     }
 
     // No child, node goes within us
     art_leaf *l = make_leaf(key, key_len, value);
-    add_child(n, ref, key[depth], SET_LEAF(l));
+    add_child(n, ref, key_at(key, key_len, depth), SET_LEAF(l));
     return NULL;
 }
 
@@ -896,7 +906,7 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
     }
 
     // Find child node
-    art_node **child = find_child(n, key[depth]);
+    art_node **child = find_child(n, key_at(key, key_len, depth));
     if (!child)
         return NULL;
 
@@ -904,7 +914,7 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
     if (IS_LEAF(*child)) {
         art_leaf *l = LEAF_RAW(*child);
         if (!leaf_matches(l, key, key_len, depth)) {
-            remove_child(n, ref, key[depth], child);
+            remove_child(n, ref, key_at(key, key_len, depth), child);
             return l;
         }
         return NULL;
@@ -1088,7 +1098,7 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
         }
 
         // Recursively search
-        child = find_child(n, key[depth]);
+        child = find_child(n, key_at(key, key_len, depth));
         n     = (child) ? *child : NULL;
         depth++;
     }
-- 
2.43.0


From 95b2939fe8203d8d31c93ceb4aeb7eb39f94d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 08/91] fix: order bytes above 0x7f after the others in 16-way
 index nodes

---
 src/commons/collections/art.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 9a94fb5..2772897 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -502,8 +502,11 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
 #ifdef __i386__
         __m128i cmp;
 
-        // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // Compare the key to all 16 stored keys. The comparison is signed: flip the top bits of both
+        // sides to order the bytes as unsigned, as the other node types do
+        __m128i top = _mm_set1_epi8((char)0x80);
+        cmp         = _mm_cmplt_epi8(_mm_xor_si128(_mm_set1_epi8((char)c), top),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), top));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -511,8 +514,11 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
 #ifdef __amd64__
         __m128i cmp;
 
-        // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // Compare the key to all 16 stored keys. The comparison is signed: flip the top bits of both
+        // sides to order the bytes as unsigned, as the other node types do
+        __m128i top = _mm_set1_epi8((char)0x80);
+        cmp         = _mm_cmplt_epi8(_mm_xor_si128(_mm_set1_epi8((char)c), top),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), top));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
-- 
2.43.0


From ab369cb7955aeecbb4f2fe953d9cecb0b26bd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 09/91] fix: a prefix listing skips subtrees that only share
 part of the prefix

---
 src/commons/collections/art.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 2772897..b265fc3 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -1099,6 +1099,11 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
                 return recursive_iter(n, cb, data);
             }
 
+            // If the match ends before this node's path does, nothing below has the prefix
+            if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
+            }
+
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
         }
-- 
2.43.0


From b1b3bcffd6c4c25693f4e2662a52c0119e8983cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 10/91] fix: keep a Bloom filter's counters when it grows and
 start new ones at zero

---
 src/server/dablooms/pdc_dablooms.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..165865e 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -38,7 +38,17 @@ free_bitmap(bitmap_t *bitmap)
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    size_t old_size = bitmap->array ? bitmap->bytes : 0;
+    char * array    = (char *)realloc(bitmap->array, new_size);
+
+    if (array == NULL) {
+        return NULL;
+    }
+    // keep the counters and headers already there, and start the new ones at zero
+    if (new_size > old_size) {
+        memset(array + old_size, 0, new_size - old_size);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
-- 
2.43.0


From 69b48557489e1b340b342102576d0d2e64ca2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 11/91] fix: do not decrement a saturated Bloom filter counter

---
 src/server/dablooms/pdc_dablooms.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 165865e..73f5d02 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -121,6 +121,12 @@ bitmap_decrement(bitmap_t *bitmap, unsigned int index, long offset)
         return -1;
     }
 
+    // A full counter may have missed increments: it no longer tells how many items it stands for, so it
+    // must stay set for the items that remain
+    if (temp == 0x0f) {
+        return 0;
+    }
+
     bitmap->array[access] = n;
     return 0;
 }
-- 
2.43.0


From 4429775831a28d4ac9a82944db6e5c569a66ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 12/91] fix: a substring that starts beyond the end of the
 string does not exist

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..2e7ef47 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -116,6 +116,11 @@ substring(const char *str, int start, int end)
     // Length of the original string
     int str_len = strlen(str);
 
+    // Nothing to take from beyond the end
+    if (start > str_len) {
+        return NULL;
+    }
+
     // Adjust end if it is beyond the length of the string
     if (end > str_len) {
         end = str_len;
-- 
2.43.0


From 83d44eb4c1a2eacd5503544b01dc964a4beb03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 13/91] fix: a tag that is not in the list has no value in any
 range

---
 src/commons/utils/query_utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..818d72c 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,7 +340,11 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
-    char *      value      = get_value(matched_kv, '=');
-    int         v          = atoi(value);
+    if (matched_kv == NULL) {
+        return 0;
+    }
+    char *value = get_value(matched_kv, '=');
+    int   v     = atoi(value);
+    free(value);
     return (v >= from && v <= to);
 }
-- 
2.43.0


From 2c3e396b4401c5b327330eb144a146448de472a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 14/91] fix: do not read past the end of a token shorter than
 the DART tree

---
 src/commons/index/dart/dart_core.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..387fdb0 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -79,14 +79,14 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
 {
     int      n = 0;
     uint64_t c;
-    uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t rst     = 0;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
+        if (met_end == 0) { // if not, we calculate the character index.
             i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
-- 
2.43.0


From 85b32f32be262878d79db0e412f176ef47ddff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 15/91] fix: place tokens with bytes above 0x7f by their
 unsigned value

---
 src/commons/index/dart/dart_core.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 387fdb0..34c7ca4 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -87,7 +87,7 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
             met_end = 1;
         }
         if (met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -288,13 +288,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +302,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +331,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -483,7 +483,7 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
         int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
+        int region_start = ((((unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
 
         uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
         uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-- 
2.43.0


From e19fd3eff2933db80b3aec251bac5b2118edcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 16/91] fix: a short prefix or infix query visits every server
 that may hold a match

---
 src/commons/index/dart/dart_core.c | 62 +++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 34c7ca4..bf75ed1 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -418,6 +418,25 @@ get_server_ids_for_insert(DART *dart_g, char *keyword, get_server_info_callback
     return rst_len;
 }
 
+/**
+ * Mark the servers that hold any of the given number of virtual nodes from the given one on.
+ */
+static void
+mark_servers_of_vnodes(DART *dart, uint64_t start, uint64_t len, char *marks)
+{
+    uint64_t step = dart->num_vnode / dart->num_server;
+    uint64_t i;
+
+    if (start + len > dart->num_vnode) {
+        mark_servers_of_vnodes(dart, 0, start + len - dart->num_vnode, marks);
+        len = dart->num_vnode - start;
+    }
+    for (i = 0; i < len; i += step) {
+        marks[get_server_id_by_vnode_id(dart, start + i)] = 1;
+    }
+    marks[get_server_id_by_vnode_id(dart, start + len - 1)] = 1;
+}
+
 /**
  * This function gives all the server ID according to the given query token.
  * The query token should not contain any wildcard sign.
@@ -471,7 +490,9 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    // a token as long as the tree is high does not determine the alternative virtual nodes either, since they
+    // depend on the character after it.
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
                                                      || op_type == OP_INFIX_QUERY
 #else
@@ -482,20 +503,35 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: currently broadcast request to all virtual nodes in one region.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
+        uint64_t region_size  = dart_g->num_vnode / dart_g->alphabet_size;
+        uint64_t region_index = (unsigned char)token[0] % dart_g->alphabet_size;
+        uint64_t region_start = region_index * region_size;
+        char *   marks        = (char *)calloc(dart_g->num_server, sizeof(char));
+
+        if (token[0] == '\0') {
+            // every keyword starts with the empty string
+            mark_servers_of_vnodes(dart_g, 0, dart_g->num_vnode, marks);
+        }
+        else {
+            mark_servers_of_vnodes(dart_g, region_start, region_size, marks);
+            if (dart_g->dart_tree_height > 1) {
+                // A keyword may have been placed on its alternative virtual node instead, which lies at most
+                // two regions from here: see get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2
+                int      ir_idx      = (int)ceil((double)(dart_g->alphabet_size / 2));
+                uint64_t alter_index = ((unsigned char)token[0] + ir_idx) % dart_g->alphabet_size;
+                uint64_t alter_start = (region_start + alter_index * region_size) % dart_g->num_vnode;
+                mark_servers_of_vnodes(dart_g, alter_start, 2 * region_size - 1, marks);
+            }
+        }
 
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        int      num_srvs = 0;
+        uint64_t srvId;
+        out[0] = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+        for (srvId = 0; srvId < dart_g->num_server; srvId++) {
+            if (marks[srvId])
+                out[0][num_srvs++] = srvId;
         }
+        free(marks);
         return num_srvs;
     }
     else {
-- 
2.43.0


From 81aef6f1bb9ee975139e4188f4b1a4888c2ac77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 17/91] fix: search every server when a full hash cannot tell
 where a suffix or one-character prefix is

---
 src/commons/index/dart/dart_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index bf75ed1..0ff6073 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -695,14 +695,19 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
+    else if (op_type == OP_PREFIX_QUERY) {
+        // keywords hashed by their initial are where their prefixes are; a token of one character does not
+        // tell whether the keywords are.
+        if (len > 1 || strlen(key) <= 1) {
             is_full_scan = 1;
         }
         else {
             is_full_scan = 0;
         }
     }
+    else if (op_type == OP_SUFFIX_QUERY) {
+        is_full_scan = 1;
+    }
     else if (op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
-- 
2.43.0


From 2a25fa033181f59cb2d3818edcff4503bd021e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 18/91] fix: an escaped backslash before a closing quote does
 not escape the quote when minifying

---
 src/tools/cjson/cJSON.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/cjson/cJSON.c b/src/tools/cjson/cJSON.c
index 41fccd5..ec94325 100644
--- a/src/tools/cjson/cJSON.c
+++ b/src/tools/cjson/cJSON.c
@@ -2584,7 +2584,7 @@ minify_string(char **input, char **output)
             *output += static_strlen("\"");
             return;
         }
-        else if (((*input)[0] == '\\') && ((*input)[1] == '\"')) {
+        else if (((*input)[0] == '\\') && ((*input)[1] != '\0')) {
             (*output)[1] = (*input)[1];
             *input += static_strlen("\"");
             *output += static_strlen("\"");
-- 
2.43.0


From 00bd5944d4c95f2859369cdb464e16ea8ee82bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 19/91] fix: a JSON object text that ends after a comma is not
 read past its end

---
 src/tools/cjson/cJSON.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/cjson/cJSON.c b/src/tools/cjson/cJSON.c
index ec94325..42c5b55 100644
--- a/src/tools/cjson/cJSON.c
+++ b/src/tools/cjson/cJSON.c
@@ -1515,6 +1515,10 @@ parse_object(cJSON *const item, parse_buffer *const input_buffer)
             current_item       = new_item;
         }
 
+        if (cannot_access_at_index(input_buffer, 1)) {
+            goto fail; /* nothing comes after the comma */
+        }
+
         /* parse the name of the child */
         input_buffer->offset++;
         buffer_skip_whitespace(input_buffer);
-- 
2.43.0


From d6b55d965afc5704022779c752e44fc99f061877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 20/91] fix: a read of a region that nothing was stored in
 overlaps no server regions

---
 src/api/pdc_region/pdc_region_transfer.c      | 81 +++++++++++--------
 ...dc_server_region_transfer_metadata_query.c |  5 +-
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..24502e7 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -631,8 +631,21 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
     FUNC_LEAVE(ret_value);
 }
 
+// Allocate the per-region arrays of a request that overlaps n_regions regions (possibly none).
+static void
+set_request_regions(pdc_transfer_request *local_request, int n_regions)
+{
+    local_request->n_obj_servers  = n_regions;
+    local_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
+    set_obj_server_bufs(local_request);
+}
+
 static perr_t
 unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
+                             int input_size,
                              pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
@@ -655,7 +668,7 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
     ptr += sizeof(int);
     // printf("unpack_region_metadata_query: received %d obj partitions\n", size);
     counter = 0;
-    index   = 0;
+    index   = -1;
     for (i = 0; i < size; ++i) {
         if (transfer_request_head) {
             transfer_request_end->next =
@@ -667,23 +680,14 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                 (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
             transfer_request_end = transfer_request_head;
         }
-        // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
+        // A request that overlaps no region has a counter of zero, followed by the next request.
+        while (!counter) {
             counter = *(int *)ptr;
             ptr += sizeof(int);
-            local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
+            local_request = transfer_request_input[++index]->transfer_request;
+            set_request_regions(local_request, counter);
         }
+        // Obj ID + Obj dim + region offset + region size
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
         transfer_request_end->data_server_id   = *(uint32_t *)ptr;
@@ -734,11 +738,12 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                              transfer_request_end->remote_size);
         }
         counter--;
-        if (!counter) {
-            index++;
-        }
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
+    // The requests after the last one that overlaps a region.
+    while (++index < input_size) {
+        set_request_regions(transfer_request_input[index]->transfer_request, 0);
+    }
 
     *transfer_request_head_ptr = transfer_request_head;
     *transfer_request_end_ptr  = transfer_request_end;
@@ -808,17 +813,19 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                             &transfer_request_end, &output_size);
+                unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                             &transfer_request_head, &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
             }
             index = i;
         }
@@ -847,21 +854,23 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                         &transfer_request_end, &output_size);
+            unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                         &transfer_request_head, &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
         }
     }
 
-    if (output_size) {
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
@@ -1605,6 +1614,8 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
         if (transfer_request->region_partition == PDC_REGION_STATIC ||
             transfer_request->region_partition == PDC_REGION_DYNAMIC ||
             transfer_request->region_partition == PDC_REGION_LOCAL) {
+            // A read that overlaps no stored region has nothing to wait for.
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..6bb48ab 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -283,13 +283,14 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                 region_metadata = region_metadata->next;
             }
             transfer_request_counter_total += transfer_request_counters[i];
-            total_data_size += sizeof(int) + transfer_request_counters[i] *
-                                                 (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
                    (long int)regions[i].obj_id);
         }
+        // The counter is written for every region, also for those that overlap nothing.
+        total_data_size += sizeof(int) + transfer_request_counters[i] *
+                                             (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
     }
     if (!total_data_size) {
         query_id = 0;
-- 
2.43.0


From 2aa2b8a95a83039db62af9a736525f7f2f618213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 21/91] fix: removing an object's last outstanding transfer
 request keeps the list's end

---
 src/api/pdc_region/pdc_region_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 24502e7..b88537b 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,9 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp) {
+                    p->local_transfer_request_end = previous;
+                }
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 3daa8433f49db754f9a67a39f6782f537b8b7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 22/91] fix: closing an object with outstanding transfers does
 not walk the list it freed

---
 src/api/pdc_obj/pdc_obj.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..9390545 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -393,12 +393,13 @@ PDC_obj_close(struct _pdc_obj_info *op)
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
     pdc_local_transfer_request *temp, *previous;
-    int                         i;
+    int                         i, n_requests;
 
     FUNC_ENTER(NULL);
 
     if (op->local_transfer_request_size) {
-        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * op->local_transfer_request_size);
+        n_requests          = op->local_transfer_request_size;
+        transfer_request_id = (pdcid_t *)malloc(sizeof(pdcid_t) * n_requests);
         temp                = op->local_transfer_request_head;
         i                   = 0;
         while (temp != NULL) {
@@ -408,8 +409,12 @@ PDC_obj_close(struct _pdc_obj_info *op)
             free(previous);
             ++i;
         }
-        PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-        for (i = 0; i < op->local_transfer_request_size; ++i) {
+        // The list is gone: waiting must not remove the requests from it again.
+        op->local_transfer_request_head = NULL;
+        op->local_transfer_request_end  = NULL;
+        op->local_transfer_request_size = 0;
+        PDCregion_transfer_wait_all(transfer_request_id, n_requests);
+        for (i = 0; i < n_requests; ++i) {
             PDCregion_transfer_close(transfer_request_id[i]);
         }
         free(transfer_request_id);
-- 
2.43.0


From f2c6dde4fdaf0efe9367d466b5872321843a3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 23/91] fix: a write takes a multi-dimensional local region
 from a buffer laid out like the object, as a read does

---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index b88537b..09955aa 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -540,7 +540,7 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
         if (access_type == PDC_WRITE) {
             ptr = *new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(ptr, buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit,
+                memcpy(ptr, buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -553,8 +553,8 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
                     memcpy(ptr,
-                           buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
-                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
+                           buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
+                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
                                      unit,
                            local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From 74ad9f4ce966ae0334a2d17756e2a99a5c71aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 24/91] fix: stamp a cached object before a full cache is
 flushed

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..761c1f8 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -472,6 +472,9 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
 
+    // A flush of the full cache frees obj_cache, so stamp it first.
+    gettimeofday(&(obj_cache->timestamp), NULL);
+
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
     if (total_cache_size > maximum_cache_size) {
@@ -484,11 +487,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
         PDC_region_cache_flush_all();
     }
 
-    // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
-    //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
-
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From 8a5fae3dbcdd50847140b5bb366158b4b9120514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 25/91] fix: merging overlapping cached regions skips elements,
 not bytes

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 761c1f8..f7f6036 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -652,7 +652,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From b6b2757a33abc07ce8e2accf361e7afa339ddcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 26/91] fix: a write updates every cached region it overlaps

---
 .../pdc_server_region/pdc_server_region_cache.c    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index f7f6036..fd0fd29 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -555,26 +555,24 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
     flag = 0;
     if (obj_cache != NULL) {
         // If we have region that is contained inside a cached region, we can directly modify the cache region
-        // data.
+        // data. Every cached region that overlaps must see the new data, so the search never stops early.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim)) {
+                    flag = 1;
+                }
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From 2404ae62311f984112aefdcedd40332e7097fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 27/91] fix: checkpoint and restore the regions of dynamically
 placed objects

---
 .../pdc_server_region_transfer_metadata_query.c          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 6bb48ab..13bf3b6 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,13 +79,14 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
+            metadata_server_objs_end->next = NULL;
 
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
@@ -226,7 +227,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From 5eb6a4d67d02b31cf6cd58fdcd0a41f481abfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 28/91] fix: an object's consistency semantics are stored with
 its metadata

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..561e63a 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2651,6 +2651,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     in.data_type             = create_prop->obj_prop_pub->type;
     in.data.data_server_id   = PDC_CLIENT_DATA_SERVER();
     in.data.region_partition = create_prop->obj_prop_pub->region_partition;
+    in.data.consistency      = create_prop->obj_prop_pub->consistency;
     // printf("prepare for sending region partition %d with obj name %s\n", (int)in.data.region_partition,
     // obj_name);
     *data_server_id = in.data.data_server_id;
-- 
2.43.0


From f30b3ecd555ccef2436cc49c7aa46a4eb98f7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 29/91] fix: a static partition does not send empty regions to
 servers

---
 src/api/pdc_region/pdc_region_transfer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 09955aa..4b6b79c 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -448,8 +448,10 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
         // unsigned)static_offset, (long unsigned)static_size, (long unsigned)offset[split_dim], (long
         // unsigned)size[split_dim]);
         // Check if this region fits into the server static region.
-        if ((static_offset + static_size > offset[split_dim] && offset[split_dim] >= static_offset) ||
-            (offset[split_dim] + size[split_dim] > static_offset && static_offset >= offset[split_dim])) {
+        // With fewer elements than servers, some servers have an empty static region.
+        if (static_size &&
+            ((static_offset + static_size > offset[split_dim] && offset[split_dim] >= static_offset) ||
+             (offset[split_dim] + size[split_dim] > static_offset && static_offset >= offset[split_dim]))) {
             // record data server ID
             data_server_ids[0][*n_data_servers] = i;
             // The overlapping region is allocated here.
-- 
2.43.0


From cc44341e63a3b8888bdcea1b07883ab389782113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 30/91] fix: a short write deep inside a stored 1-D region is
 not rejected

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..2699c77 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,9 +4789,9 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
+                if (pos >= overlap_region->count[0] * unit) {
                     printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
+                           pdc_server_rank_g, pos, overlap_region->count[0] * unit, __LINE__);
                     ret_value = -1;
                     goto done;
                 }
-- 
2.43.0


From 6ad808b00aba759f5ba787cf991a14f397c91f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 31/91] fix: a request polled on one server can still be waited
 for or polled again

---
 src/api/pdc_region/pdc_region_transfer.c                     | 5 +++++
 .../pdc_server_region/pdc_server_region_request_handler.h    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 4b6b79c..76be0fa 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1624,6 +1624,11 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
+                // A server forgets a request once it has reported it complete, so one that was started and
+                // is not found was complete at an earlier check that stopped at another server.
+                if (*completed == PDC_TRANSFER_STATUS_NOT_FOUND) {
+                    *completed = PDC_TRANSFER_STATUS_COMPLETE;
+                }
                 if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
                     goto done;
                 }
diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..d8d833c 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -276,8 +276,6 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From 9874131cd02b6518059d91406c69a1022f76ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 32/91] fix: md5_hash has room for the whole digest

---
 src/commons/index/dart/dart_algo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/commons/index/dart/dart_algo.c b/src/commons/index/dart/dart_algo.c
index 6546d0c..cd59cc3 100644
--- a/src/commons/index/dart/dart_algo.c
+++ b/src/commons/index/dart/dart_algo.c
@@ -205,8 +205,9 @@ md5_hash(int prefix_len, char *word)
 
     char *prefix = (char *)calloc(prefix_len + 1, sizeof(char));
     strncpy(prefix, word, prefix_len);
-    uint8_t digest;
-    md5((uint8_t *)prefix, strlen(prefix), &digest);
-    uint32_t inthash = to_int32(&digest);
+    uint8_t digest[16];
+    md5((uint8_t *)prefix, strlen(prefix), digest);
+    free(prefix);
+    uint32_t inthash = to_int32(digest);
     return inthash;
 }
-- 
2.43.0


From 579a7a29d27c6dc7906f12ac0024b89fbf5815e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 33/91] fix: open binary files with a mode that begins with the
 kind of access

---
 src/commons/file/common_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index ae7af7f..365ddd7 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -141,7 +141,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
 int
 read_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY);
     if (fread(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error reading file\n");
         close_file(fp);
@@ -154,7 +154,7 @@ read_binary_file(char *filename, void *buffer, size_t size)
 int
 write_binary_file(char *filename, void *buffer, size_t size)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_WRITE IO_MODE_BINARY);
     if (fwrite(buffer, 1, size, fp) != size) {
         fprintf(stderr, "Error writing file\n");
         close_file(fp);
@@ -167,7 +167,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
 int
 update_binary_file(char *filename, void *buffer, size_t size, unsigned long start_pos, size_t length)
 {
-    FILE *fp = open_file(filename, IO_MODE_BINARY IO_MODE_READ IO_MODE_WRITE);
+    FILE *fp = open_file(filename, IO_MODE_READ IO_MODE_BINARY "+");
     if (fseek(fp, start_pos, SEEK_SET) != 0) {
         fprintf(stderr, "Error seeking to starting position\n");
         close_file(fp);
-- 
2.43.0


From ac68ddc22c5084c374711af673f2778e5f9d3720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 34/91] fix: report buffered data that could not be written
 when a file is closed

---
 src/commons/file/common_io.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index 365ddd7..83fe7b7 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -134,8 +134,7 @@ write_text_file(char *filename, char **lines, size_t num_lines)
             return 1;
         }
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -160,8 +159,7 @@ write_binary_file(char *filename, void *buffer, size_t size)
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
 
 int
@@ -183,6 +181,5 @@ update_binary_file(char *filename, void *buffer, size_t size, unsigned long star
         close_file(fp);
         return 1;
     }
-    close_file(fp);
-    return 0;
+    return close_file(fp);
 }
\ No newline at end of file
-- 
2.43.0


From b21e0b114159cfbdc5ea024fc18bd9b826439051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 35/91] fix: a thread pool is not freed while its last thread
 releases the pool's lock

---
 src/commons/utils/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..c9e8e76 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -227,6 +227,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread counts itself out while it holds this lock: let it go before the pool is freed */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
-- 
2.43.0


From 1c540491735eefc8e45a007049b3fb622e2633d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 36/91] fix: waiting for several requests waits for those that
 are not complete yet

---
 src/api/pdc_region/pdc_region_transfer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 76be0fa..5b35ce4 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1734,13 +1734,10 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     for (i = 0; i < size; ++i) {
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
+        // metadata is freed when the request is complete (e.g. with posix consistency): nothing to wait for,
+        // as in PDCregion_transfer_wait
         if (!transfer_request->metadata_id) {
-            fprintf(stderr,
-                    "PDCregion_transfer_wait_all [rank %d] @ line %d: Attempt to wait for a transfer request "
-                    "that has not been started.\n",
-                    pdc_client_mpi_rank_g, __LINE__);
-            ret_value = FAIL;
-            goto done;
+            continue;
         }
         total_requests += transfer_request->n_obj_servers;
         for (j = 0; j < transfer_request->n_obj_servers; ++j) {
@@ -1875,7 +1872,10 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     for (i = 0; i < size; ++i) {
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-        unit             = transfer_request->unit;
+        if (!transfer_request->metadata_id) {
+            continue;
+        }
+        unit = transfer_request->unit;
 
         if (transfer_request->region_partition == PDC_OBJ_STATIC &&
             transfer_request->access_type == PDC_READ) {
-- 
2.43.0


From 07401ff3d6cf9421d80a204de6b5eb1163810322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 37/91] fix: Opening an object that does not exist returns 0

---
 src/api/pdc_client_connect.c | 19 ++++++++++++++-----
 src/api/pdc_obj/pdc_obj.c    | 29 +++++++++++++----------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 561e63a..839ae60 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2371,10 +2371,8 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     in.hash_value = PDC_get_hash_by_name(obj_name);
     in.time_step  = time_step;
 
-    lookup_args.data = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t));
-    if (lookup_args.data == NULL)
-        PGOTO_ERROR(FAIL, "==PDC_CLIENT: ERROR - PDC_Client_query_metadata_with_name() "
-                          "cannnot allocate space for client_lookup_args->data");
+    // The callback allocates the result, if there is one
+    lookup_args.data = NULL;
 
     hg_ret = HG_Forward(metadata_query_handle, metadata_query_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
@@ -2433,17 +2431,28 @@ PDC_Client_query_metadata_name_timestep_agg(const char *obj_name, int time_step,
                                             uint32_t *metadata_server_id)
 {
     perr_t ret_value = SUCCEED;
+#ifdef ENABLE_MPI
+    int found = 0;
+#endif
 
     FUNC_ENTER(NULL);
 
+    *out = NULL;
 #ifdef ENABLE_MPI
-    if (pdc_client_mpi_rank_g == 0)
+    if (pdc_client_mpi_rank_g == 0) {
         ret_value = PDC_Client_query_metadata_name_timestep(obj_name, time_step, out, metadata_server_id);
+        found     = (ret_value == SUCCEED && *out != NULL);
+    }
 
     MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
     if (ret_value != SUCCEED)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - ERROR with query [%s]", pdc_client_mpi_rank_g, obj_name);
 
+    // No object has that name and time step
+    MPI_Bcast(&found, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
+    if (!found)
+        PGOTO_DONE(ret_value);
+
     if (pdc_client_mpi_rank_g != 0)
         *out = (pdc_metadata_t *)calloc(1, sizeof(pdc_metadata_t));
 
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9390545..ee2e667 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -536,13 +536,23 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     perr_t                ret       = SUCCEED;
     struct _pdc_obj_info *p         = NULL;
     pdc_metadata_t *      out       = NULL;
-    pdcid_t               obj_prop;
     size_t                i;
     uint32_t              metadata_server_id;
 
     FUNC_ENTER(NULL);
 
-    p = (struct _pdc_obj_info *)PDC_malloc(sizeof(struct _pdc_obj_info));
+    // contact metadata server
+    if (is_col == 0)
+        ret = PDC_Client_query_metadata_name_timestep(obj_name, 0, &out, &metadata_server_id);
+    else
+        ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
+
+    if (ret == FAIL)
+        PGOTO_ERROR(0, "query object failed");
+    if (out == NULL)
+        PGOTO_ERROR(0, "object [%s] does not exist", obj_name);
+
+    p = (struct _pdc_obj_info *)PDC_calloc(1, sizeof(struct _pdc_obj_info));
     if (!p)
         PGOTO_ERROR(0, "PDC object memory allocation failed");
     p->cont = (struct _pdc_cont_info *)PDC_calloc(1, sizeof(struct _pdc_cont_info));
@@ -563,7 +573,7 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     p->obj_pt->obj_prop_pub = (struct pdc_obj_prop *)PDC_calloc(1, sizeof(struct pdc_obj_prop));
     if (!p->obj_pt->obj_prop_pub)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
-    p->obj_info_pub = (struct pdc_obj_info *)PDC_malloc(sizeof(struct pdc_obj_info));
+    p->obj_info_pub = (struct pdc_obj_info *)PDC_calloc(1, sizeof(struct pdc_obj_info));
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->obj_pt = (struct pdc_obj_prop *)PDC_calloc(1, sizeof(struct pdc_obj_prop));
@@ -573,19 +583,6 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     if (!p->obj_pt->pdc)
         PGOTO_ERROR(0, "cannot allocate ret_value->pdc");
 
-    // contact metadata server
-    if (is_col == 0)
-        ret = PDC_Client_query_metadata_name_timestep(obj_name, 0, &out, &metadata_server_id);
-    else
-        ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
-
-    if (ret == FAIL)
-        PGOTO_ERROR(0, "query object failed");
-
-    obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
-    PDCprop_set_obj_dims(obj_prop, out->ndim, out->dims);
-    PDCprop_set_obj_type(obj_prop, out->data_type);
-
     p->cont->cont_info_pub->meta_id = out->cont_id;
     p->obj_pt->obj_prop_pub->ndim   = out->ndim;
     p->obj_pt->obj_prop_pub->dims   = malloc(out->ndim * sizeof(uint64_t));
-- 
2.43.0


From e8c3db466c8b168b91622eefa67ecae55708fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 38/91] fix: Collective container operations agree on failure
 on every rank

---
 src/api/pdc_client_connect.c | 8 ++++++--
 src/api/pdc_obj/pdc_cont.c   | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 839ae60..9abf202 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2551,10 +2551,14 @@ PDC_Client_create_cont_id_mpi(const char *cont_name, pdcid_t cont_create_prop, p
 
     if (pdc_client_mpi_rank_g == 0) {
         ret_value = PDC_Client_create_cont_id(cont_name, cont_create_prop, cont_id);
+        if (ret_value != SUCCEED)
+            *cont_id = 0;
     }
 #ifdef ENABLE_MPI
     MPI_Bcast(cont_id, 1, MPI_LONG_LONG, 0, PDC_CLIENT_COMM_WORLD_g);
 #endif
+    if (*cont_id == 0)
+        ret_value = FAIL;
 
     FUNC_LEAVE(ret_value);
 }
@@ -5686,9 +5690,9 @@ PDC_Client_query_container_name_col(const char *cont_name, uint64_t *cont_meta_i
 #ifdef ENABLE_MPI
     if (pdc_client_mpi_rank_g == 0) {
         ret_value = PDC_Client_query_container_name(cont_name, cont_meta_id);
+        // All ranks must take part in the broadcast
         if (ret_value != SUCCEED)
-            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error with PDC_Client_query_container_name",
-                        pdc_client_mpi_rank_g);
+            *cont_meta_id = 0;
     }
 
     MPI_Bcast(cont_meta_id, 1, MPI_LONG_LONG, 0, PDC_CLIENT_COMM_WORLD_g);
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..70ee5e9 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -299,6 +299,9 @@ PDCcont_open_col(const char *cont_name, pdcid_t pdc)
     ret = PDC_Client_query_container_name_col(cont_name, &cont_meta_id);
     if (ret == FAIL)
         PGOTO_ERROR(0, "query container name failed");
+    if (cont_meta_id == 0)
+        PGOTO_ERROR(0, "query container not found");
+
     cont_id   = PDC_cont_create_local(pdc, cont_name, cont_meta_id);
     ret_value = cont_id;
 
-- 
2.43.0


From 000c11b6f435772dd612b2d567da2cbdf506027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 39/91] fix: Metadata searches send complete requests and size
 their results by what was found

---
 src/api/pdc_client_connect.c     | 24 ++++++++++++++++++------
 src/server/pdc_server_metadata.c | 22 +++++++++-------------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 9abf202..025366d 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1617,7 +1617,7 @@ metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
     origin_bulk_handle = output.bulk_handle;
     hg_info            = HG_Get_info(handle);
 
-    bulk_args = (struct bulk_args_t *)malloc(sizeof(struct bulk_args_t));
+    bulk_args = (struct bulk_args_t *)calloc(1, sizeof(struct bulk_args_t));
 
     bulk_args->handle = handle;
     bulk_args->nbytes = HG_Bulk_get_size(origin_bulk_handle);
@@ -1680,18 +1680,22 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
 
     // Fill input structure
     metadata_query_transfer_in_t in;
+    memset(&in, 0, sizeof(in));
     in.is_list_all    = is_list_all;
     in.user_id        = -1;
     in.app_name       = " ";
     in.obj_name       = " ";
     in.time_step_from = -1;
     in.time_step_to   = -1;
-    in.ndim           = -1;
+    in.ndim           = 0;
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
-        in.ndim           = ndim;
+        in.ndim           = ndim > 0 ? ndim : 0;
         in.time_step_from = time_step_from;
         in.time_step_to   = time_step_to;
         if (app_name != NULL)
@@ -1717,7 +1721,7 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         my_server_start = pdc_client_mpi_rank_g;
         my_server_end   = my_server_start + 1;
         if (pdc_client_mpi_rank_g >= pdc_server_num_g) {
-            my_server_end = -1;
+            my_server_end = my_server_start; // no server left for this client
         }
     }
 
@@ -1741,8 +1745,10 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
-        if (lookup_args.n_meta == 0)
+        if (lookup_args.n_meta == 0) {
+            HG_Destroy(query_partial_handle);
             continue;
+        }
 
         // We do not have the results ready yet, need to wait.
         while (1) {
@@ -1793,6 +1799,7 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
 
     // Fill input structure
     metadata_query_transfer_in_t in;
+    memset(&in, 0, sizeof(in));
     in.is_list_all    = 0;
     in.user_id        = -1;
     in.app_name       = " ";
@@ -1801,6 +1808,9 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
     in.time_step_to   = -1;
     in.ndim           = 0;
     in.tags           = tags;
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     *out   = NULL;
     *n_res = 0;
@@ -1825,8 +1835,10 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
-        if ((lookup_args.n_meta) == 0)
+        if ((lookup_args.n_meta) == 0) {
+            HG_Destroy(query_partial_handle);
             continue;
+        }
 
         // We do not have the results ready yet, need to wait.
         while (1) {
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..6ae31d1 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1542,8 +1542,7 @@ perr_t
 PDC_Server_get_partial_query_result(metadata_query_transfer_in_t *in, uint32_t *n_meta, void ***buf_ptrs)
 {
     perr_t                     ret_value = FAIL;
-    uint32_t                   i;
-    uint32_t                   n_buf, iter = 0;
+    uint32_t                   n_alloc = 0, iter = 0;
     pdc_hash_table_entry_head *head;
     pdc_metadata_t *           elt;
     HashTableIterator          hash_table_iter;
@@ -1552,12 +1551,8 @@ PDC_Server_get_partial_query_result(metadata_query_transfer_in_t *in, uint32_t *
 
     FUNC_ENTER(NULL);
 
-    // n_buf = n_metadata_g + 1 for potential padding array
-    n_buf     = n_metadata_g + 1;
-    *buf_ptrs = (void **)calloc(n_buf, sizeof(void *));
-    for (i = 0; i < n_buf; i++) {
-        (*buf_ptrs)[i] = (void *)calloc(1, sizeof(void *));
-    }
+    *n_meta   = 0;
+    *buf_ptrs = NULL;
     // TODO: free buf_ptrs
     if (metadata_hash_table_g != NULL) {
 
@@ -1570,11 +1565,12 @@ PDC_Server_get_partial_query_result(metadata_query_transfer_in_t *in, uint32_t *
             DL_FOREACH(head->metadata, elt)
             {
                 // List all objects, no need to check other constraints
-                if (in->is_list_all == 1) {
-                    (*buf_ptrs)[iter++] = elt;
-                }
-                // check if current metadata matches search constraint
-                else if (is_metadata_satisfy_constraint(elt, in) == 1) {
+                // otherwise check if current metadata matches search constraint
+                if (in->is_list_all == 1 || is_metadata_satisfy_constraint(elt, in) == 1) {
+                    if (iter >= n_alloc) {
+                        n_alloc   = n_alloc == 0 ? 16 : 2 * n_alloc;
+                        *buf_ptrs = (void **)realloc(*buf_ptrs, n_alloc * sizeof(void *));
+                    }
                     (*buf_ptrs)[iter++] = elt;
                 }
             }
-- 
2.43.0


From 12410bdc3d402bc89f20b202d52212cb268a7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 40/91] fix: An object gets a handle only once it exists

---
 src/api/pdc_obj/pdc_obj.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index ee2e667..11d6ed1 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -233,7 +233,7 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     struct _pdc_cont_info *cont_info = NULL;
     struct _pdc_obj_prop * obj_prop;
     uint64_t               meta_id;
-    uint32_t               data_server_id, metadata_server_id;
+    uint32_t               data_server_id = 0, metadata_server_id = 0;
     size_t                 i;
     perr_t                 ret = SUCCEED;
 
@@ -319,12 +319,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     p->obj_pt->obj_prop_pub->type             = obj_prop->obj_prop_pub->type;
     p->obj_pt->obj_prop_pub->region_partition = obj_prop->obj_prop_pub->region_partition;
     p->obj_pt->obj_prop_pub->consistency      = obj_prop->obj_prop_pub->consistency;
-    if (obj_prop->app_name)
-        p->obj_pt->app_name = strdup(obj_prop->app_name);
-    if (obj_prop->data_loc)
-        p->obj_pt->data_loc = strdup(obj_prop->data_loc);
-    if (obj_prop->tags)
-        p->obj_pt->tags = strdup(obj_prop->tags);
     p->local_transfer_request_head = NULL;
     p->local_transfer_request_end  = NULL;
     p->local_transfer_request_size = 0;
@@ -333,7 +327,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -343,6 +336,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
             PGOTO_ERROR(0, "Unable to create object on server!");
     }
 
+    // The object gets a handle only once it exists
+    p->obj_info_pub->local_id           = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->metadata_server_id = (pdcid_t)metadata_server_id;
 
     PDC_Client_attach_metadata_to_local_obj(obj_name, p->obj_info_pub->meta_id, meta_id, data_server_id,
-- 
2.43.0


From 0f7c6d29e911313ccd6f0b6602154caf7b4a7bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 41/91] fix: Deleting an object frees exactly that object, also
 after a restart

---
 src/server/pdc_server.c          | 54 +++++++++++++++-----------------
 src/server/pdc_server_metadata.c | 20 +++++++-----
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..5fac59a 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1463,7 +1463,7 @@ PDC_Server_restart(char *filename)
     int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
                               n_kvtag, key_len;
     int                          n_cont, all_cont;
-    pdc_metadata_t *             metadata, *elt;
+    pdc_metadata_t *             metadata;
     region_list_t *              region_list;
     pdc_hash_table_entry_head *  entry;
     pdc_cont_hash_table_entry_t *cont_entry;
@@ -1552,21 +1552,22 @@ PDC_Server_restart(char *filename)
         // Init hash table metadata (w/ bloom) with first obj
         PDC_Server_hash_table_list_init(entry, hash_key);
 
-        metadata = (pdc_metadata_t *)calloc(sizeof(pdc_metadata_t), count);
         for (i = 0; i < count; i++) {
-            if (fread(metadata + i, sizeof(pdc_metadata_t), 1, file) != 1) {
+            // One allocation per object, each can be deleted on its own
+            metadata = (pdc_metadata_t *)calloc(1, sizeof(pdc_metadata_t));
+            if (fread(metadata, sizeof(pdc_metadata_t), 1, file) != 1) {
                 printf("Read failed for metadata\n");
             }
 
-            (metadata + i)->storage_region_list_head       = NULL;
-            (metadata + i)->region_lock_head               = NULL;
-            (metadata + i)->region_map_head                = NULL;
-            (metadata + i)->region_buf_map_head            = NULL;
-            (metadata + i)->bloom                          = NULL;
-            (metadata + i)->prev                           = NULL;
-            (metadata + i)->next                           = NULL;
-            (metadata + i)->kvtag_list_head                = NULL;
-            (metadata + i)->all_storage_region_distributed = 0;
+            metadata->storage_region_list_head       = NULL;
+            metadata->region_lock_head               = NULL;
+            metadata->region_map_head                = NULL;
+            metadata->region_buf_map_head            = NULL;
+            metadata->bloom                          = NULL;
+            metadata->prev                           = NULL;
+            metadata->next                           = NULL;
+            metadata->kvtag_list_head                = NULL;
+            metadata->all_storage_region_distributed = 0;
 
             // Read kv tags
             if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
@@ -1592,7 +1593,7 @@ PDC_Server_restart(char *filename)
                 if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
                     printf("Read failed for kvtag_list->kvtag->value\n");
                 }
-                DL_APPEND((metadata + i)->kvtag_list_head, kvtag_list);
+                DL_APPEND(metadata->kvtag_list_head, kvtag_list);
             }
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
@@ -1657,7 +1658,7 @@ PDC_Server_restart(char *filename)
                     region_list->data_size *= region_list->count[idx];
                 region_list->is_data_ready            = 0;
                 region_list->shm_fd                   = 0;
-                region_list->meta                     = (metadata + i);
+                region_list->meta                     = metadata;
                 region_list->prev                     = NULL;
                 region_list->next                     = NULL;
                 region_list->overlap_storage_regions  = NULL;
@@ -1668,7 +1669,7 @@ PDC_Server_restart(char *filename)
                 region_list->bulk_handle        = NULL;
                 region_list->lock_handle        = NULL;
                 region_list->addr               = NULL;
-                region_list->obj_id             = (metadata + i)->obj_id;
+                region_list->obj_id             = metadata->obj_id;
                 region_list->reg_id             = 0;
                 region_list->from_obj_id        = 0;
                 region_list->client_id          = 0;
@@ -1685,29 +1686,24 @@ PDC_Server_restart(char *filename)
                     region_list->data_loc_type = PDC_LUSTRE;
                 }
 
-                DL_APPEND((metadata + i)->storage_region_list_head, region_list);
+                DL_APPEND(metadata->storage_region_list_head, region_list);
             } // For j
             total_region += n_region;
 
-            DL_SORT((metadata + i)->storage_region_list_head, region_cmp);
-        } // For i
-
-        nobj += count;
-        total_mem_usage_g += sizeof(pdc_hash_table_entry_head);
-        total_mem_usage_g += (sizeof(pdc_metadata_t) * count);
-
-        entry->metadata = NULL;
+            DL_SORT(metadata->storage_region_list_head, region_cmp);
 
-        // Insert the previously read metadata to the linked list (hash table entry)
-        for (i = 0; i < count; i++) {
-            elt = metadata + i;
             // Add to hash list and bloom filter
-            ret_value = PDC_Server_hash_table_list_insert(entry, elt);
+            ret_value = PDC_Server_hash_table_list_insert(entry, metadata);
             if (ret_value != SUCCEED) {
                 printf("==PDC_SERVER: error with hash table recovering from checkpoint file\n");
                 goto done;
             }
-        }
+        } // For i
+
+        nobj += count;
+        total_mem_usage_g += sizeof(pdc_hash_table_entry_head);
+        total_mem_usage_g += (sizeof(pdc_metadata_t) * count);
+
         n_entry--;
     }
 
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 6ae31d1..ddd7b20 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -168,11 +168,9 @@ PDC_Server_metadata_hash_value_free(void *value)
     }
 
     // Free metadata list
-    if (is_restart_g == 0) {
-        DL_FOREACH_SAFE(head->metadata, elt, tmp)
-        {
-            free(elt);
-        }
+    DL_FOREACH_SAFE(head->metadata, elt, tmp)
+    {
+        free(elt);
     }
 }
 
@@ -933,6 +931,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
     HashTablePair     pair;
     uint64_t          target_obj_id;
     int               n_entry;
+    uint32_t          n_deleted = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1004,14 +1003,18 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                         // Remove from linked list
                         DL_DELETE(head->metadata, elt);
                         head->n_obj--;
+                        free(elt);
                     }
                     else {
                         // This is the last item under the current entry, remove the hash entry
                         uint32_t hash_key = PDC_get_hash_by_name(elt->obj_name);
                         hash_table_remove(metadata_hash_table_g, &hash_key);
                     }
+                    n_deleted = 1;
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    // The list and the iterator may refer to what was just freed, and ids are unique
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
@@ -1052,7 +1055,7 @@ done:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    n_metadata_g -= n_deleted;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
@@ -1123,6 +1126,7 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
                     // Remove from linked list
                     DL_DELETE(lookup_value->metadata, target);
                     lookup_value->n_obj--;
+                    free(target);
                 }
                 else {
                     // Remove from hash
@@ -1180,7 +1184,8 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (ret_value == SUCCEED)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
@@ -1190,6 +1195,7 @@ done:
     if (unlocked == 0)
         hg_thread_mutex_unlock(&pdc_metadata_hash_table_mutex_g);
 #endif
+    free(hash_key);
 
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From e90b6a0724d9258ffe9d6bf99f5b690c60b7612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 42/91] fix: Tags belong to one object or container and each
 has one value

---
 src/api/pdc_client_connect.c     |  23 ++--
 src/server/pdc_server_metadata.c | 206 +++++++++++++------------------
 2 files changed, 99 insertions(+), 130 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 025366d..a73b45c 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7082,7 +7082,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_add_kvtag_handle;
+    hg_handle_t                    metadata_add_kvtag_handle = HG_HANDLE_NULL;
     metadata_add_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7137,11 +7137,12 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: add kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: add kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_add_kvtag_handle);
+    if (metadata_add_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_add_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7190,7 +7191,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_return_t                hg_ret    = 0;
     uint64_t                   meta_id;
     uint32_t                   server_id;
-    hg_handle_t                metadata_get_kvtag_handle;
+    hg_handle_t                metadata_get_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t    in;
     struct _pdc_get_kvtag_args lookup_args;
     struct _pdc_obj_info *     obj_prop;
@@ -7226,7 +7227,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     else
         PGOTO_ERROR(FAIL, "PDC_get_kvtag: invalid tag content!");
 
-    *kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+    *kvtag            = (pdc_kvtag_t *)calloc(1, sizeof(pdc_kvtag_t));
     lookup_args.kvtag = *kvtag;
     hg_ret            = HG_Forward(metadata_get_kvtag_handle, metadata_get_kvtag_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
@@ -7237,11 +7238,12 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: get kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: get kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_get_kvtag_handle);
+    if (metadata_get_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_get_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7495,7 +7497,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_del_kvtag_handle;
+    hg_handle_t                    metadata_del_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7541,11 +7543,12 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: del kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: del kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
-    HG_Destroy(metadata_del_kvtag_handle);
+    if (metadata_del_kvtag_handle != HG_HANDLE_NULL)
+        HG_Destroy(metadata_del_kvtag_handle);
 
     FUNC_LEAVE(ret_value);
 }
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index ddd7b20..74c7780 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1618,7 +1618,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
@@ -2751,6 +2751,31 @@ PDC_free_cont_hash_table()
     return SUCCEED;
 }
 
+static perr_t
+PDC_del_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key)
+{
+    perr_t            ret_value = SUCCEED;
+    pdc_kvtag_list_t *elt;
+
+    FUNC_ENTER(NULL);
+
+    DL_FOREACH(*list_head, elt)
+    {
+        if (strcmp(elt->kvtag->name, key) == 0) {
+            free(elt->kvtag->name);
+            free(elt->kvtag->value);
+            free(elt->kvtag);
+            DL_DELETE(*list_head, elt);
+            free(elt);
+            break;
+        }
+    }
+
+    fflush(stdout);
+
+    FUNC_LEAVE(ret_value);
+}
+
 /*
  * Add the kvtag received from one client to the corresponding metadata structure
  *
@@ -2767,6 +2792,9 @@ PDC_add_kvtag_to_list(pdc_kvtag_list_t **list_head, pdc_kvtag_t *tag)
     pdc_kvtag_t *     newtag;
     FUNC_ENTER(NULL);
 
+    // A tag has one value, putting it again replaces it
+    PDC_del_kvtag_value_from_list(list_head, tag->name);
+
     PDC_kvtag_dup(tag, &newtag);
     new_list_item        = (pdc_kvtag_list_t *)PDC_calloc(1, sizeof(pdc_kvtag_list_t));
     new_list_item->kvtag = newtag;
@@ -2851,42 +2879,50 @@ done:
     return ret_value;
 }
 
-static perr_t
-PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t *out)
+/*
+ * Find the tags of the object or container with this id
+ *
+ * \param  hash_key [IN]        Hash value of its name
+ * \param  id [IN]              Id of the object or container
+ *
+ * \return the list of its tags, NULL if there is no such object or container
+ */
+static pdc_kvtag_list_t **
+PDC_Server_find_kvtag_list(uint32_t hash_key, uint64_t id)
 {
-    perr_t                       ret_value = SUCCEED;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
-    uint32_t                     hash_key;
-
-    hash_key = in->hash_value;
+    pdc_metadata_t *             target;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
     if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
-    else { // look for containers
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        }
-        else {
-            printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g,
-                   in->obj_id);
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+        target = find_metadata_by_id_from_list(lookup_value->metadata, id);
+        if (target != NULL)
+            return &target->kvtag_list_head;
+    }
+
+    cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
+    if (cont_lookup_value != NULL && cont_lookup_value->cont_id == id)
+        return &cont_lookup_value->kvtag_list_head;
+
+    return NULL;
+}
+
+static perr_t
+PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t *out)
+{
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **tags;
+
+    tags = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (tags != NULL) {
+        PDC_add_kvtag_to_list(tags, &in->kvtag);
+        out->ret = 1;
+    }
+    else {
+        printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g, in->obj_id);
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -2986,6 +3022,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
@@ -3107,39 +3144,17 @@ PDC_Server_get_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out
 static perr_t
 PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **tags;
 
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
-
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    tags = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (tags != NULL) {
+        PDC_get_kvtag_value_from_list(tags, in->key, out);
+        out->ret = 1;
     }
     else {
-
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -3227,31 +3242,6 @@ done:
     FUNC_LEAVE(ret_value);
 }
 
-static perr_t
-PDC_del_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key)
-{
-    perr_t            ret_value = SUCCEED;
-    pdc_kvtag_list_t *elt;
-
-    FUNC_ENTER(NULL);
-
-    DL_FOREACH(*list_head, elt)
-    {
-        if (strcmp(elt->kvtag->name, key) == 0) {
-            free(elt->kvtag->name);
-            free(elt->kvtag->value);
-            free(elt->kvtag);
-            DL_DELETE(*list_head, elt);
-            free(elt);
-            break;
-        }
-    }
-
-    fflush(stdout);
-
-    FUNC_LEAVE(ret_value);
-}
-
 static perr_t
 PDC_Server_del_kvtag_rocksdb(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t *out)
 {
@@ -3305,43 +3295,19 @@ PDC_Server_del_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
 static perr_t
 PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
-
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **tags;
 
-    // Look obj tags first
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    tags = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (tags != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(tags, in->key);
+        out->ret  = 1;
     }
     else {
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
+        printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g, __func__,
+               in->key);
     }
 
     return ret_value;
-- 
2.43.0


From a9c9b0ed4903f2d2a99d947f7fb53fca364f87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 43/91] fix: Setting the dimensions of an object changes
 exactly that object

---
 src/api/include/pdc_client_connect.h          |  3 ++-
 src/api/pdc_client_connect.c                  | 15 ++++++++++++---
 src/api/pdc_obj/pdc_obj.c                     | 17 ++++++++++++-----
 src/server/include/pdc_client_server_common.h | 12 ++++++++++++
 src/server/pdc_client_server_common.c         | 13 ++++++++-----
 5 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/api/include/pdc_client_connect.h b/src/api/include/pdc_client_connect.h
index acf8fa7..665cf15 100644
--- a/src/api/include/pdc_client_connect.h
+++ b/src/api/include/pdc_client_connect.h
@@ -883,7 +883,8 @@ perr_t PDC_Client_flush_obj_all();
  *
  * \return Non-negative on success/Negative on failure
  */
-perr_t PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_t *dims, int *reset);
+perr_t PDC_Client_obj_reset_dims(const char *obj_name, int time_step, uint64_t meta_id, int ndim, uint64_t *dims,
+                                 int *reset);
 
 /**
 
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index a73b45c..efce093 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2576,7 +2576,8 @@ PDC_Client_create_cont_id_mpi(const char *cont_name, pdcid_t cont_create_prop, p
 }
 
 perr_t
-PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_t *dims, int *reset)
+PDC_Client_obj_reset_dims(const char *obj_name, int time_step, uint64_t meta_id, int ndim, uint64_t *dims,
+                          int *reset)
 {
     perr_t                          ret_value = SUCCEED;
     hg_return_t                     hg_ret    = 0;
@@ -2584,10 +2585,13 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     uint32_t                        server_id;
     obj_reset_dims_in_t             in;
     struct _pdc_obj_reset_dims_args lookup_args;
-    hg_handle_t                     obj_reset_dims_handle;
+    hg_handle_t                     obj_reset_dims_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
+    *reset = 0;
+    memset(&in, 0, sizeof(in));
+
     // Compute server id
     hash_name_value = PDC_get_hash_by_name(obj_name);
     server_id       = (hash_name_value + time_step);
@@ -2606,6 +2610,7 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     in.obj_name   = obj_name;
     in.hash_value = PDC_get_hash_by_name(obj_name);
     in.time_step  = time_step;
+    in.obj_id     = meta_id;
     in.ndim       = ndim;
     if (in.ndim >= 1) {
         in.dims0 = dims[0];
@@ -2616,6 +2621,9 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     if (in.ndim >= 3) {
         in.dims2 = dims[2];
     }
+    if (in.ndim >= 4) {
+        in.dims3 = dims[3];
+    }
 
     hg_ret = HG_Forward(obj_reset_dims_handle, obj_reset_dims_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
@@ -2636,7 +2644,8 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     // out[0]->data_server_id);
 done:
     fflush(stdout);
-    HG_Destroy(obj_reset_dims_handle);
+    if (obj_reset_dims_handle != HG_HANDLE_NULL)
+        HG_Destroy(obj_reset_dims_handle);
 
     FUNC_LEAVE(ret_value);
 }
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 11d6ed1..9c90d85 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -973,6 +973,7 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     info = PDC_find_id(obj_id);
     if (info == NULL) {
         fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        PGOTO_DONE(FAIL);
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
@@ -984,17 +985,21 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     if (ndim != (int)((pdc_metadata_t *)(object->metadata))->ndim) {
         fprintf(stderr, "PDCobj_set_dims: input dimension size is wrong %d != %d @ line %d\n", ndim,
                 (int)object->obj_pt->obj_prop_pub->ndim, __LINE__);
+        PGOTO_DONE(FAIL);
     }
-    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
-    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
-    PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step, ndim, dims, &reset);
+    PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step,
+                              object->obj_info_pub->meta_id, ndim, dims, &reset);
 
     if (!reset) {
         // Server rejects reset object dims for some reasons, so we close this operation.
-        ret_value = FAIL;
+        PGOTO_DONE(FAIL);
     }
 
+    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(object->obj_info_pub->obj_pt->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
+
 done:
     FUNC_LEAVE(ret_value);
 }
@@ -1009,13 +1014,15 @@ PDCobj_get_dims(pdcid_t obj_id, int *ndim, uint64_t **dims)
 
     info = PDC_find_id(obj_id);
     if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
+        fprintf(stderr, "PDCobj_get_dims: cannnot find obj id @ line %d\n", __LINE__);
+        PGOTO_DONE(FAIL);
     }
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     *ndim  = object->obj_pt->obj_prop_pub->ndim;
     *dims  = (uint64_t *)malloc(sizeof(uint64_t) * ndim[0]);
     memcpy(*dims, object->obj_pt->obj_prop_pub->dims, sizeof(uint64_t) * ndim[0]);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..6b6f805 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -703,9 +703,11 @@ typedef struct {
     hg_const_string_t obj_name;
     uint32_t          hash_value;
     int32_t           time_step;
+    uint64_t          obj_id;
     uint64_t          dims0;
     uint64_t          dims1;
     uint64_t          dims2;
+    uint64_t          dims3;
     int32_t           ndim;
 } obj_reset_dims_in_t;
 
@@ -2355,6 +2357,16 @@ hg_proc_obj_reset_dims_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
+    ret = hg_proc_uint64_t(proc, &struct_data->dims3);
+    if (ret != HG_SUCCESS) {
+        // HG_LOG_ERROR("Proc error");
+        return ret;
+    }
+    ret = hg_proc_uint64_t(proc, &struct_data->obj_id);
+    if (ret != HG_SUCCESS) {
+        // HG_LOG_ERROR("Proc error");
+        return ret;
+    }
     return ret;
 }
 
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..2b8f8fc 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1773,11 +1773,11 @@ HG_TEST_RPC_CB(obj_reset_dims, handle)
         goto done;
     }
 
-    // Get the metdata_t struct.
-    PDC_Server_search_with_name_timestep(in.obj_name, in.hash_value, in.time_step, &query_result);
+    // Get the metdata_t struct, several objects may share a name and time step.
+    query_result = PDC_Server_get_obj_metadata(in.obj_id);
 
-    // Convert for transfer
-    if (query_result != NULL) {
+    // The number of dimensions of an object does not change
+    if (query_result != NULL && in.ndim == (int32_t)query_result->ndim) {
         out.ret = 2;
         if (in.ndim >= 1) {
             query_result->dims[0] = in.dims0;
@@ -1785,9 +1785,12 @@ HG_TEST_RPC_CB(obj_reset_dims, handle)
         if (in.ndim >= 2) {
             query_result->dims[1] = in.dims1;
         }
-        if (in.ndim == 3) {
+        if (in.ndim >= 3) {
             query_result->dims[2] = in.dims2;
         }
+        if (in.ndim >= 4) {
+            query_result->dims[3] = in.dims3;
+        }
     }
     else {
         out.ret = 1;
-- 
2.43.0


From 59868dfd164ea34bb36c1fc6b25f83d9070e735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 44/91] fix: A tag query releases each handle once

---
 src/api/pdc_client_connect.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index efce093..1a3a875 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7262,11 +7262,8 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
 {
     hg_return_t         ret_value = HG_SUCCESS;
     struct bulk_args_t *bulk_args;
-    hg_bulk_t           origin_bulk_handle = hg_cb_info->info.bulk.origin_handle;
-    hg_bulk_t           local_bulk_handle  = hg_cb_info->info.bulk.local_handle;
+    hg_bulk_t           local_bulk_handle = hg_cb_info->info.bulk.local_handle;
     uint32_t            n_meta, actual_cnt;
-    void *              buf = NULL;
-    uint64_t            buf_sizes[1];
     uint32_t            bulk_sgnum;
     uint64_t *          ids_buf_sizes;
     void **             ids_buf;
@@ -7306,9 +7303,7 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
 
-    ret_value = HG_Bulk_free(origin_bulk_handle);
-    if (ret_value != HG_SUCCESS)
-        PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
+    // The origin bulk handle belongs to the output, which kvtag_query_forward_cb frees
 
 done:
     hg_atomic_decr32(&bulk_todo_g);
@@ -7325,6 +7320,7 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
     hg_return_t                   ret_value;
     struct bulk_args_t *          bulk_arg;
     hg_handle_t                   handle;
+    hg_handle_t                   done_handle = HG_HANDLE_NULL;
     metadata_query_transfer_out_t output;
     uint32_t                      n_meta;
     hg_op_id_t                    hg_bulk_op_id;
@@ -7350,8 +7346,7 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
         // hg_atomic_decr32(&atomic_work_todo_g);
         bulk_arg->n_meta  = 0;
         bulk_arg->obj_ids = NULL;
-        HG_Free_output(handle, &output);
-        HG_Destroy(handle);
+        done_handle       = handle;
         PGOTO_DONE(ret_value);
     }
 
@@ -7364,7 +7359,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
 
     bulk_arg->handle  = handle;
     bulk_arg->nbytes  = HG_Bulk_get_size(origin_bulk_handle);
-    bulk_arg->obj_ids = bulk_arg->obj_ids;
 
     /* Create a new bulk handle to read the data */
     HG_Bulk_create(hg_info->hg_class, 1, NULL, (hg_size_t *)&bulk_arg->nbytes, HG_BULK_READWRITE,
@@ -7381,6 +7375,8 @@ done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(handle, &output);
+    if (done_handle != HG_HANDLE_NULL)
+        HG_Destroy(done_handle);
 
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From eed4debcb4acb0adb48c409fccf016df8ea0fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 45/91] fix: Containers whose names share a hash value are
 different containers

---
 src/server/pdc_server.c          |  7 ++--
 src/server/pdc_server_metadata.c | 64 ++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 5fac59a..0eaf5dc 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1468,6 +1468,7 @@ PDC_Server_restart(char *filename)
     pdc_hash_table_entry_head *  entry;
     pdc_cont_hash_table_entry_t *cont_entry;
     uint32_t *                   hash_key;
+    uint32_t                     cont_hash_key;
     unsigned                     idx;
     uint64_t                     checkpoint_size;
     char *                       checkpoint_buf;
@@ -1503,11 +1504,9 @@ PDC_Server_restart(char *filename)
     }
     all_cont = n_cont;
     while (n_cont > 0) {
-        hash_key = (uint32_t *)malloc(sizeof(uint32_t));
-        if (fread(hash_key, sizeof(uint32_t), 1, file) != 1) {
+        if (fread(&cont_hash_key, sizeof(uint32_t), 1, file) != 1) {
             printf("Read failed for hash_key\n");
         }
-        total_mem_usage_g += sizeof(uint32_t);
 
         // Reconstruct hash table
         cont_entry = (pdc_cont_hash_table_entry_t *)malloc(sizeof(pdc_cont_hash_table_entry_t));
@@ -1519,7 +1518,7 @@ PDC_Server_restart(char *filename)
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
 #endif
-        if (hash_table_insert(container_hash_table_g, hash_key, cont_entry) != 1) {
+        if (hash_table_insert(container_hash_table_g, strdup(cont_entry->cont_name), cont_entry) != 1) {
             printf("==PDC_SERVER[%d]: %s - hash table insert failed\n", pdc_server_rank_g, __func__);
             ret_value = FAIL;
         }
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 74c7780..268443c 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -145,6 +145,33 @@ PDC_Server_metadata_int_hash_key_free(void *key)
     free((uint32_t *)key);
 }
 
+/*
+ * Check if two containers have the same name, names with equal hash values may differ
+ *
+ * \param name1 [IN]       Container name
+ * \param name2 [IN]       Container name
+ *
+ * \return 1 if two names are equal, 0 otherwise
+ */
+static int
+PDC_Server_container_name_equal(void *name1, void *name2)
+{
+    return strcmp((char *)name1, (char *)name2) == 0;
+}
+
+/*
+ * Get a container name's location in hash table
+ *
+ * \param name [IN]        Container name
+ *
+ * \return the location of the name in the table
+ */
+static unsigned int
+PDC_Server_container_name_hash(void *name)
+{
+    return PDC_get_hash_by_name((char *)name);
+}
+
 /*
  * Free metadata hash value
  *
@@ -461,7 +488,7 @@ PDC_Server_init_hash_table()
                                        PDC_Server_metadata_hash_value_free);
 
     // Container hash table
-    container_hash_table_g = hash_table_new(PDC_Server_metadata_int_hash, PDC_Server_metadata_int_equal);
+    container_hash_table_g = hash_table_new(PDC_Server_container_name_hash, PDC_Server_container_name_equal);
     if (container_hash_table_g == NULL) {
         printf("==PDC_SERVER: container_hash_table_g init error! Exit...\n");
         goto done;
@@ -2178,8 +2205,8 @@ done:
 perr_t
 PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 {
-    perr_t    ret_value = SUCCEED;
-    uint32_t *hash_key;
+    perr_t ret_value = SUCCEED;
+    char * hash_key;
 
     FUNC_ENTER(NULL);
 
@@ -2210,7 +2237,7 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 
     if (container_hash_table_g != NULL) {
         // lookup
-        lookup_value = hash_table_lookup(container_hash_table_g, &in->hash_value);
+        lookup_value = hash_table_lookup(container_hash_table_g, (char *)in->cont_name);
 
         // Is this hash value exist in the Hash table?
         if (lookup_value != NULL) {
@@ -2218,13 +2245,12 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
             out->cont_id = lookup_value->cont_id;
         }
         else {
-            hash_key = (uint32_t *)malloc(sizeof(uint32_t));
+            hash_key = strdup(in->cont_name);
             if (hash_key == NULL) {
                 printf("Cannot allocate hash_key!\n");
                 ret_value = FAIL;
                 goto done;
             }
-            *hash_key = in->hash_value;
 
             pdc_cont_hash_table_entry_t *entry =
                 (pdc_cont_hash_table_entry_t *)calloc(1, sizeof(pdc_cont_hash_table_entry_t));
@@ -2287,15 +2313,12 @@ done:
 perr_t
 PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
 {
-    perr_t   ret_value = SUCCEED;
-    uint32_t hash_key;
+    perr_t ret_value = SUCCEED;
 
     FUNC_ENTER(NULL);
 
     out->cont_id = 0;
 
-    hash_key = in->hash_value;
-
     pdc_cont_hash_table_entry_t *lookup_value;
 
 #ifdef ENABLE_MULTITHREAD
@@ -2304,7 +2327,7 @@ PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out
 
     if (container_hash_table_g != NULL) {
         // lookup
-        lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
+        lookup_value = hash_table_lookup(container_hash_table_g, (char *)in->cont_name);
 
         // Is this hash value exist in the Hash table?
         if (lookup_value != NULL) {
@@ -2318,7 +2341,7 @@ PDC_Server_delete_container_by_name(gen_cont_id_in_t *in, gen_cont_id_out_t *out
         else {
             // Check if there exist metadata identical to current one
             printf("==PDC_SERVER[%d]: Did not found existing container with same hash value, name=%s!\n",
-                   pdc_server_rank_g, lookup_value->cont_name);
+                   pdc_server_rank_g, in->cont_name);
             ret_value = FAIL;
         }
     }
@@ -2340,8 +2363,7 @@ done:
 perr_t
 PDC_Server_find_container_by_name(const char *cont_name, pdc_cont_hash_table_entry_t **out)
 {
-    perr_t   ret_value = SUCCEED;
-    uint32_t hash_key;
+    perr_t ret_value = SUCCEED;
 
     FUNC_ENTER(NULL);
     if (NULL == cont_name || NULL == out) {
@@ -2351,14 +2373,7 @@ PDC_Server_find_container_by_name(const char *cont_name, pdc_cont_hash_table_ent
 
     if (container_hash_table_g != NULL) {
         // lookup
-        hash_key = PDC_get_hash_by_name(cont_name);
-        *out     = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (*out != NULL) {
-            // Double check with name match
-            if (strcmp(cont_name, (*out)->cont_name) != 0) {
-                *out = NULL;
-            }
-        }
+        *out = hash_table_lookup(container_hash_table_g, (char *)cont_name);
     }
     else {
         printf("container_hash_table_g not initialized!\n");
@@ -2901,8 +2916,9 @@ PDC_Server_find_kvtag_list(uint32_t hash_key, uint64_t id)
             return &target->kvtag_list_head;
     }
 
-    cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-    if (cont_lookup_value != NULL && cont_lookup_value->cont_id == id)
+    cont_lookup_value = NULL;
+    PDC_Server_find_container_by_id(id, &cont_lookup_value);
+    if (cont_lookup_value != NULL)
         return &cont_lookup_value->kvtag_list_head;
 
     return NULL;
-- 
2.43.0


From c3dd78f137dc9bb2042d77f39aa9e597c6f8283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 46/91] fix: A tag search lists an object once

---
 src/server/pdc_server_metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 268443c..c0d7659 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1874,7 +1874,7 @@ PDC_Server_query_kvtag_someta(pdc_kvtag_t *in, uint32_t *n_meta, uint64_t **obj_
                             *obj_ids = (void *)realloc(*obj_ids, alloc_size * sizeof(uint64_t));
                         }
                         (*obj_ids)[iter++] = elt->obj_id;
-                        // break; // FIXME: shall we break here? or continue to check other kvtags?
+                        break; // an object is listed once, however many of its tags match
                     }
                     else {
 #ifdef PDC_DEBUG_OUTPUT
-- 
2.43.0


From 7b5e18caaf43dc07688e74f4acc3ca79ffd9283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 47/91] fix: A container takes any number of objects at once

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index c0d7659..aa03257 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2458,8 +2458,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From 1a563f613791a81d67936b7a9965b332496afd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 48/91] fix: A restarted server keeps its containers' objects
 and tags and does not hand out ids again

---
 src/server/pdc_server.c | 152 +++++++++++++++++++++++++++++-----------
 1 file changed, 110 insertions(+), 42 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 0eaf5dc..a8173ed 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1208,6 +1208,69 @@ PDC_Server_checkpoint_cb()
     return HG_SUCCESS;
 }
 
+/*
+ * Write a list of kv tags to the checkpoint file
+ *
+ * \param  head[IN]     List of kv tags
+ * \param  file[IN]     Checkpoint file
+ */
+static void
+PDC_Server_checkpoint_kvtags(pdc_kvtag_list_t *head, FILE *file)
+{
+    pdc_kvtag_list_t *elt;
+    int               n_kvtag, key_len;
+
+    DL_COUNT(head, elt, n_kvtag);
+    fwrite(&n_kvtag, sizeof(int), 1, file);
+    DL_FOREACH(head, elt)
+    {
+        key_len = strlen(elt->kvtag->name) + 1;
+        fwrite(&key_len, sizeof(int), 1, file);
+        fwrite(elt->kvtag->name, key_len, 1, file);
+        fwrite(&elt->kvtag->size, sizeof(uint32_t), 1, file);
+        fwrite(&elt->kvtag->type, sizeof(int8_t), 1, file);
+        fwrite(elt->kvtag->value, elt->kvtag->size, 1, file);
+    }
+}
+
+/*
+ * Read a list of kv tags from the checkpoint file
+ *
+ * \param  head[OUT]    List of kv tags
+ * \param  file[IN]     Checkpoint file
+ */
+static void
+PDC_Server_restart_kvtags(pdc_kvtag_list_t **head, FILE *file)
+{
+    int j, n_kvtag = 0, key_len = 0;
+
+    if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+        printf("Read failed for n_kvtag\n");
+    }
+    for (j = 0; j < n_kvtag; j++) {
+        pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+        kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+        if (fread(&key_len, sizeof(int), 1, file) != 1) {
+            printf("Read failed for key_len\n");
+        }
+        kvtag_list->kvtag->name = malloc(key_len);
+        if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->name\n");
+        }
+        if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->size\n");
+        }
+        if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->type\n");
+        }
+        kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+        if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->value\n");
+        }
+        DL_APPEND(*head, kvtag_list);
+    }
+}
+
 /*
  * Checkpoint in-memory metadata to persistant storage, each server writes to one file
  *
@@ -1221,10 +1284,9 @@ PDC_Server_checkpoint()
     perr_t                       ret_value = SUCCEED;
     pdc_metadata_t *             elt;
     region_list_t *              region_elt;
-    pdc_kvtag_list_t *           kvlist_elt;
     pdc_hash_table_entry_head *  head;
     pdc_cont_hash_table_entry_t *cont_head;
-    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
+    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0;
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
@@ -1311,17 +1373,7 @@ PDC_Server_checkpoint()
             fwrite(elt, sizeof(pdc_metadata_t), 1, file);
 
             // Write kv tags
-            DL_COUNT(elt->kvtag_list_head, kvlist_elt, n_kvtag);
-            fwrite(&n_kvtag, sizeof(int), 1, file);
-            DL_FOREACH(elt->kvtag_list_head, kvlist_elt)
-            {
-                key_len = strlen(kvlist_elt->kvtag->name) + 1;
-                fwrite(&key_len, sizeof(int), 1, file);
-                fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
-                fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
-                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
-                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
-            }
+            PDC_Server_checkpoint_kvtags(elt->kvtag_list_head, file);
 
             // Write region info
             n_region = 0;
@@ -1392,6 +1444,18 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
+    // Next object id, then the objects and kv tags of each container
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+    hash_table_iterate(container_hash_table_g, &hash_table_iter);
+    while (hash_table_iter_has_more(&hash_table_iter)) {
+        pair      = hash_table_iter_next(&hash_table_iter);
+        cont_head = pair.value;
+
+        fwrite(&cont_head->cont_id, sizeof(uint64_t), 1, file);
+        fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+        PDC_Server_checkpoint_kvtags(cont_head->kvtag_list_head, file);
+    }
+
     fclose(file);
 
     if (use_tmpfs) {
@@ -1460,8 +1524,7 @@ perr_t
 PDC_Server_restart(char *filename)
 {
     perr_t ret_value = SUCCEED;
-    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
-                              n_kvtag, key_len;
+    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0;
     int                          n_cont, all_cont;
     pdc_metadata_t *             metadata;
     region_list_t *              region_list;
@@ -1469,6 +1532,8 @@ PDC_Server_restart(char *filename)
     pdc_cont_hash_table_entry_t *cont_entry;
     uint32_t *                   hash_key;
     uint32_t                     cont_hash_key;
+    pdc_cont_hash_table_entry_t **conts;
+    uint64_t                     checkpoint_seq, cont_id;
     unsigned                     idx;
     uint64_t                     checkpoint_size;
     char *                       checkpoint_buf;
@@ -1503,6 +1568,7 @@ PDC_Server_restart(char *filename)
         printf("Read failed for n_count\n");
     }
     all_cont = n_cont;
+    conts    = (pdc_cont_hash_table_entry_t **)calloc(n_cont + 1, sizeof(pdc_cont_hash_table_entry_t *));
     while (n_cont > 0) {
         if (fread(&cont_hash_key, sizeof(uint32_t), 1, file) != 1) {
             printf("Read failed for hash_key\n");
@@ -1514,6 +1580,11 @@ PDC_Server_restart(char *filename)
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
         }
+        // Their objects and kv tags are at the end of the file
+        cont_entry->n_allocated       = 0;
+        cont_entry->obj_ids           = NULL;
+        cont_entry->kvtag_list_head   = NULL;
+        conts[all_cont - n_cont] = cont_entry;
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
@@ -1569,31 +1640,7 @@ PDC_Server_restart(char *filename)
             metadata->all_storage_region_distributed = 0;
 
             // Read kv tags
-            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
-                printf("Read failed for n_kvtag\n");
-            }
-            for (j = 0; j < n_kvtag; j++) {
-                pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
-                kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
-                if (fread(&key_len, sizeof(int), 1, file) != 1) {
-                    printf("Read failed for key_len\n");
-                }
-                kvtag_list->kvtag->name = malloc(key_len);
-                if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->name\n");
-                }
-                if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->size\n");
-                }
-                if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->type\n");
-                }
-                kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
-                if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->value\n");
-                }
-                DL_APPEND(metadata->kvtag_list_head, kvtag_list);
-            }
+            PDC_Server_restart_kvtags(&metadata->kvtag_list_head, file);
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
@@ -1639,11 +1686,12 @@ PDC_Server_restart(char *filename)
                         (uint64_t *)malloc(sizeof(uint64_t) * region_list->region_hist->nbin);
 
                     if (fread(region_list->region_hist->range, sizeof(double),
-                              region_list->region_hist->nbin * 2, file) != 1) {
+                              region_list->region_hist->nbin * 2,
+                              file) != (size_t)region_list->region_hist->nbin * 2) {
                         printf("Read failed for region_list->region_hist->range\n");
                     }
                     if (fread(region_list->region_hist->bin, sizeof(uint64_t), region_list->region_hist->nbin,
-                              file) != 1) {
+                              file) != (size_t)region_list->region_hist->nbin) {
                         printf("Read failed for region_list->region_hist->bin\n");
                     }
                     if (fread(&region_list->region_hist->incr, sizeof(double), 1, file) != 1) {
@@ -1742,6 +1790,26 @@ PDC_Server_restart(char *filename)
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    // Next object id, then the objects and kv tags of each container
+    if (fread(&checkpoint_seq, sizeof(uint64_t), 1, file) == 1) {
+        if (checkpoint_seq > pdc_id_seq_g)
+            pdc_id_seq_g = checkpoint_seq;
+        for (i = 0; i < all_cont; i++) {
+            if (fread(&cont_id, sizeof(uint64_t), 1, file) != 1 || cont_id != conts[i]->cont_id) {
+                printf("Read failed for container objects\n");
+                break;
+            }
+            conts[i]->n_allocated = conts[i]->n_obj;
+            conts[i]->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), conts[i]->n_obj + 1);
+            if (fread(conts[i]->obj_ids, sizeof(uint64_t), conts[i]->n_obj, file) != (size_t)conts[i]->n_obj) {
+                printf("Read failed for container objects\n");
+                break;
+            }
+            PDC_Server_restart_kvtags(&conts[i]->kvtag_list_head, file);
+        }
+    }
+    free(conts);
+
     fclose(file);
     file = NULL;
 
-- 
2.43.0


From 1ee7af83f5ffe8db25623a0b2a058079208e2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 49/91] fix: Histogram bins have no gaps and count every
 element where it lies

---
 src/api/pdc_analysis/pdc_hist_pkg.c | 52 ++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index 75343a1..1667fdb 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -1,6 +1,7 @@
 #include "pdc_hist_pkg.h"
 #include <stdio.h>
 #include <stdlib.h>
+#include <float.h>
 
 #define MACRO_SAMPLE_MIN_MAX(TYPE, n, data, sample_pct, min, max)                                            \
     ({                                                                                                       \
@@ -119,8 +120,22 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     if (nbin < 4 || min > max)
         PGOTO_DONE(NULL);
 
-    bin_incr = floor_power_of_2((max - min) / (nbin - 2)); // Excluding first and last bin (open ended)
-    nbin     = ceil((max - min) / bin_incr);
+    // Excluding first and last bin (open ended); equal values need a width as well
+    bin_incr = 1.0;
+    if (max > min)
+        bin_incr = floor_power_of_2(max / (nbin - 2) - min / (nbin - 2));
+    // Bins no narrower than the distance between neighboring values, so that their edges differ
+    if (bin_incr < DBL_MIN)
+        bin_incr = DBL_MIN;
+    while (bin_incr < fmax(fabs(min), fabs(max)) * DBL_EPSILON)
+        bin_incr *= 2.0;
+
+    // The edges are multiples of the width, the first one above the minimum, the last one up to the maximum
+    min_bin = (floor(min / bin_incr) + 1) * bin_incr;
+    nbin    = 2;
+    if (max > min_bin)
+        nbin += floor((max - min_bin) / bin_incr);
+    max_bin = min_bin + (nbin - 2) * bin_incr;
 
     hist        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
     hist->incr  = bin_incr;
@@ -129,16 +144,6 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     hist->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     hist->nbin  = nbin;
 
-    min_bin = floor(min);
-    while (min_bin <= min) {
-        min_bin += bin_incr;
-    }
-
-    max_bin = ceil(max);
-    while (max_bin >= max) {
-        max_bin -= bin_incr;
-    }
-
     hist->range[0] = min_bin;
     hist->range[1] = min_bin;
 
@@ -175,7 +180,13 @@ done:
                         (hist)->range[((hist)->nbin * 2) - 1] = ldata[i];                                    \
                 }                                                                                            \
                 else {                                                                                       \
-                    (hist)->bin[(int)((ldata[i] - (hist)->range[1]) / (hist)->incr + 1)]++;                  \
+                    /* the quotient is rounded */                                                            \
+                    mid = (int)((ldata[i] - (hist)->range[1]) / (hist)->incr + 1);                           \
+                    if (ldata[i] < (hist)->range[mid * 2])                                                   \
+                        mid--;                                                                               \
+                    else if (ldata[i] >= (hist)->range[mid * 2 + 1])                                         \
+                        mid++;                                                                               \
+                    (hist)->bin[mid]++;                                                                      \
                 }                                                                                            \
             }                                                                                                \
         }                                                                                                    \
@@ -261,7 +272,8 @@ PDC_gen_hist(pdc_var_type_t dtype, uint64_t n, void *data)
     gettimeofday(&pdc_timer_start, 0);
 #endif
 
-    PDC_sample_min_max(dtype, n, data, 0.1, &min, &max);
+    if (PDC_sample_min_max(dtype, n, data, 0.1, &min, &max) != SUCCEED)
+        PGOTO_ERROR(NULL, "== error with PDC_sample_min_max!");
 
     hist = PDC_create_hist(dtype, 50, min, max);
     if (NULL == hist)
@@ -365,8 +377,8 @@ PDC_merge_hist(int n, pdc_histogram_t **hists)
     if (n == 0 || NULL == hists)
         PGOTO_DONE(NULL);
 
-    tot_min  = hists[0]->range[1];
-    tot_max  = hists[0]->range[2 * hists[0]->nbin - 2];
+    tot_min  = hists[0]->range[0];
+    tot_max  = hists[0]->range[2 * hists[0]->nbin - 1];
     incr_max = hists[0]->incr;
 
     for (i = 1; i < n; i++) {
@@ -431,11 +443,11 @@ PDC_copy_hist(pdc_histogram_t *to, pdc_histogram_t *from)
 
     to->incr  = from->incr;
     to->dtype = from->dtype;
-    if (NULL == to->range)
-        to->range = (double *)calloc(sizeof(double), nbin * 2);
+    if (NULL == to->range || to->nbin != nbin)
+        to->range = (double *)realloc(to->range, sizeof(double) * nbin * 2);
     memcpy(to->range, from->range, sizeof(double) * nbin * 2);
-    if (NULL == to->bin)
-        to->bin = (uint64_t *)calloc(sizeof(uint64_t), nbin);
+    if (NULL == to->bin || to->nbin != nbin)
+        to->bin = (uint64_t *)realloc(to->bin, sizeof(uint64_t) * nbin);
     memcpy(to->bin, from->bin, sizeof(uint64_t) * nbin);
     to->nbin = from->nbin;
 
-- 
2.43.0


From 603e0ff483d10e3fe3ee681f7b1845073a7af9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 50/91] fix: Creating a property list with an unknown PDC id
 fails instead of crashing

---
 src/api/pdc_obj/pdc_prop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..688c659 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -66,6 +66,10 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(pdcid);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate PDC ID");
+
     if (type == PDC_CONT_CREATE) {
         p = (struct _pdc_cont_prop *)PDC_malloc(sizeof(struct _pdc_cont_prop));
         if (!p)
@@ -73,7 +77,6 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         p->cont_life    = PDC_PERSIST;
         new_id_c        = PDC_id_register(PDC_CONT_PROP, p);
         p->cont_prop_id = new_id_c;
-        id_info         = PDC_find_id(pdcid);
         pdc_class       = (struct _pdc_class *)(id_info->obj_ptr);
         p->pdc          = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (p->pdc == NULL)
@@ -103,7 +106,6 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->buf                            = NULL;
         new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
         q->obj_prop_pub->obj_prop_id      = new_id_o;
-        id_info                           = PDC_find_id(pdcid);
         pdc_class                         = (struct _pdc_class *)(id_info->obj_ptr);
         q->pdc                            = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (q->pdc == NULL)
-- 
2.43.0


From 73c139b3f29dc9da0890504e4c9eaa3417d1cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 51/91] fix: A new property list has a defined user id

---
 src/api/pdc_obj/pdc_prop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 688c659..cb48b04 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -100,10 +100,12 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->region_partition = PDC_REGION_STATIC;
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
         q->data_loc                       = NULL;
+        q->user_id                        = 0;
         q->app_name                       = NULL;
         q->time_step                      = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
+        q->kvtag                          = NULL;
         new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
         q->obj_prop_pub->obj_prop_id      = new_id_o;
         pdc_class                         = (struct _pdc_class *)(id_info->obj_ptr);
-- 
2.43.0


From 245d9ce026341debb7b65a7174ac0c28e4fe7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 52/91] fix: PDCprop_obj_dup copies the user id and consistency
 semantics

---
 src/api/pdc_obj/pdc_prop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index cb48b04..f57dce3 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -150,6 +150,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
     if (info->app_name)
         q->app_name = strdup(info->app_name);
+    q->user_id   = info->user_id;
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
@@ -166,6 +167,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
     q->obj_prop_pub->type             = PDC_UNKNOWN;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From f65cc12403562f22061680206fda1d98f9f260cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 53/91] fix: PDCobj_iter_next advances past objects of other
 containers

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9c90d85..e89ae23 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -712,7 +712,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
-- 
2.43.0


From 8b0990f1ff35e3ca073944d1e7c219978505f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 54/91] fix: Calls with unknown object, container or property
 ids fail instead of crashing

---
 src/api/pdc_client_connect.c | 54 +++++++++++++++++++++++++++---------
 src/api/pdc_obj/pdc_cont.c   | 16 +++++++----
 src/api/pdc_obj/pdc_obj.c    |  8 ++++--
 3 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1a3a875..f0ab2b0 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -5528,15 +5528,20 @@ PDC_Client_add_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, ADD_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -5554,15 +5559,20 @@ PDC_Client_del_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, DEL_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -7100,13 +7110,17 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7209,13 +7223,17 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7512,11 +7530,15 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
@@ -7759,7 +7781,9 @@ PDCobj_put_data(const char *obj_name, void *data, uint64_t size, pdcid_t cont_id
     FUNC_ENTER(NULL);
 
     id_info = PDC_find_id(cont_id);
-    info    = (struct _pdc_cont_info *)(id_info->obj_ptr);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
+    info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, info->cont_pt->pdc->local_id);
     PDCprop_set_obj_type(obj_prop, PDC_CHAR);
@@ -7866,11 +7890,15 @@ PDC_Client_del_metadata(pdcid_t obj_id, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
-        meta_id   = cont_prop->cont_info_pub->meta_id;
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate container ID", pdc_client_mpi_rank_g);
+        meta_id = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
-        meta_id  = obj_prop->obj_info_pub->meta_id;
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: cannot locate object ID", pdc_client_mpi_rank_g);
+        meta_id = obj_prop->obj_info_pub->meta_id;
     }
 
     ret_value = PDC_Client_delete_metadata_by_id(meta_id);
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 70ee5e9..aba1703 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -61,6 +61,11 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
+    cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
+
     p = (struct _pdc_cont_info *)PDC_malloc(sizeof(struct _pdc_cont_info));
     if (!p)
         PGOTO_ERROR(0, "PDC container memory allocation failed");
@@ -70,9 +75,6 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
-    cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
-
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
     if (!p->cont_pt)
         PGOTO_ERROR(0, "PDC container prop memory allocation failed");
@@ -110,6 +112,11 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
+    cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
+
     p = (struct _pdc_cont_info *)PDC_malloc(sizeof(struct _pdc_cont_info));
     if (!p)
         PGOTO_ERROR(0, "PDC container memory allocation failed");
@@ -119,9 +126,6 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
-    cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
-
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
     if (!p->cont_pt)
         PGOTO_ERROR(0, "PDC container prop memory allocation failed");
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index e89ae23..e2c6022 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -247,10 +247,12 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     p->region_list_head = NULL;
 
     if (cont_id == 0) {
-        meta_id = 0;
+        PGOTO_ERROR(0, "an object is created in a container");
     }
     else {
         id_info = PDC_find_id(cont_id);
+        if (id_info == NULL)
+            PGOTO_ERROR(0, "cannot locate container ID");
         /* struct _pdc_cont_info field */
         cont_info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
@@ -283,7 +285,9 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
         meta_id                         = p->cont->cont_info_pub->meta_id;
     }
 
-    id_info  = PDC_find_id(obj_prop_id);
+    id_info = PDC_find_id(obj_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate object property ID");
     obj_prop = (struct _pdc_obj_prop *)(id_info->obj_ptr);
 
     /* struct _pdc_obj_prop field */
-- 
2.43.0


From e295afba10246c7c24f2204633d80f4b67e7b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 55/91] fix: Region transfer requests: unknown ids fail,
 closing a request releases it

---
 src/api/pdc_obj/pdc_obj.c                |  4 +-
 src/api/pdc_region/pdc_region_transfer.c | 55 ++++++++++++++++--------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index e2c6022..da618a5 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -412,10 +412,8 @@ PDC_obj_close(struct _pdc_obj_info *op)
         op->local_transfer_request_head = NULL;
         op->local_transfer_request_end  = NULL;
         op->local_transfer_request_size = 0;
+        // The requests stay open until their owner closes them
         PDCregion_transfer_wait_all(transfer_request_id, n_requests);
-        for (i = 0; i < n_requests; ++i) {
-            PDCregion_transfer_close(transfer_request_id[i]);
-        }
         free(transfer_request_id);
     }
 
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 5b35ce4..11794fa 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -187,7 +187,7 @@ pdcid_t
 PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, pdcid_t local_reg,
                           pdcid_t remote_reg)
 {
-    pdcid_t                 ret_value = SUCCEED;
+    pdcid_t                 ret_value = 0;
     struct _pdc_id_info *   objinfo2;
     struct _pdc_obj_info *  obj2;
     pdc_transfer_request *  p;
@@ -199,12 +199,16 @@ PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, p
 
     FUNC_ENTER(NULL);
     reginfo1 = PDC_find_id(local_reg);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(0, "cannot locate local region ID");
     reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reginfo2 = PDC_find_id(remote_reg);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(0, "cannot locate remote region ID");
     reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
     objinfo2 = PDC_find_id(obj_id);
     if (objinfo2 == NULL)
-        PGOTO_ERROR(FAIL, "cannot locate remote object ID");
+        PGOTO_ERROR(0, "cannot locate remote object ID");
     obj2 = (struct _pdc_obj_info *)(objinfo2->obj_ptr);
     // remote_meta_id = obj2->obj_info_pub->meta_id;
 
@@ -283,24 +287,15 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
-    if (transferinfo == NULL) {
-        goto done;
-    }
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
-    }
 
-    // Check for consistency
-    /*
-        pdc_consistency_t consistency = transfer_request->consistency;
-        if (consistency == PDC_CONSISTENCY_POSIX || consistency == PDC_CONSISTENCY_COMMIT ||
-            consistency == PDC_CONSISTENCY_SESSION) {
-            PDCregion_transfer_wait(transfer_request_id);
-        }
-    */
+    // An outstanding transfer still uses the request: complete it first
+    if (transfer_request->metadata_id != NULL) {
+        PDCregion_transfer_wait(transfer_request_id);
+    }
     free(transfer_request->local_region_offset);
-    free(transfer_request->metadata_id);
     free(transfer_request);
 
     /* When the reference count reaches zero the resources are freed */
@@ -1336,8 +1331,18 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     int                                  write_size = 0, read_size = 0, posix_size = 0;
     pdc_transfer_request_start_all_pkg **write_transfer_requests = NULL, **read_transfer_requests = NULL;
     pdcid_t *                            posix_transfer_request_id;
+    struct _pdc_id_info *                transferinfo;
+    int                                  i;
 
     FUNC_ENTER(NULL);
+    // Either all requests are started or none
+    for (i = 0; i < size; ++i) {
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+        if (((pdc_transfer_request *)(transferinfo->obj_ptr))->metadata_id != NULL)
+            PGOTO_ERROR(FAIL, "attempt to start existing transfer request");
+    }
     // Split write and read requests. Handle them separately.
     // printf("PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     ret_value = prepare_start_all_requests(transfer_request_id, size, &write_transfer_requests,
@@ -1371,6 +1376,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     finish_start_all_requests(write_transfer_requests, read_transfer_requests, write_size, read_size);
     // fprintf(stderr, "PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     // MPI_Barrier(MPI_COMM_WORLD);
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -1443,6 +1449,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
 
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
@@ -1611,7 +1619,9 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         unit = transfer_request->unit;
@@ -1728,6 +1738,11 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         goto done;
     }
 
+    for (i = 0; i < size; ++i) {
+        if (PDC_find_id(transfer_request_id[i]) == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+    }
+
     // printf("entered PDCregion_transfer_wait_all @ line %d\n", __LINE__);
     total_requests        = 0;
     transfer_request_head = NULL;
@@ -1931,7 +1946,9 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // For region dynamic case, it is implemented in the aggregated version for portability.
-- 
2.43.0


From 8387f2f3d33e17131e52e9fbda626dcf07242679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 56/91] fix: PDCobj_get_data reports that it cannot transfer

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index f0ab2b0..f6e2186 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7852,6 +7852,7 @@ PDCobj_get_data(pdcid_t obj_id, void *data, uint64_t size)
     reg              = PDCregion_create(1, &offset, &size);
     transfer_request = PDCregion_transfer_create(data, PDC_READ, obj_id, reg, reg);
     if (transfer_request == 0) {
+        ret_value = FAIL;
         goto done;
     }
     ret_value = PDCregion_transfer_start(transfer_request);
-- 
2.43.0


From c8ba47bf590cd63e7f8dce0a64ba344ffb4f9831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 57/91] fix: PDCcont_get_info of a name that is not open fails

---
 src/api/pdc_obj/pdc_cont.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index aba1703..0f37224 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -372,10 +372,8 @@ PDCcont_get_info(const char *cont_name)
     cont_id = PDC_find_byname(PDC_CONT, cont_name);
 
     tmp = PDC_cont_get_info(cont_id);
-
-    ret_value = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
-    if (!ret_value)
-        PGOTO_ERROR(NULL, "cannot allocate memory");
+    if (tmp == NULL)
+        PGOTO_ERROR(NULL, "no open container of this name");
 
     ret_value = tmp->cont_info_pub;
 
-- 
2.43.0


From 9d98753828f1dc57e470bb9ae068b6508ea10169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 58/91] fix: PDCprop_set_obj_dims takes a smaller number of
 dimensions

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index da618a5..33c8986 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -869,7 +869,7 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
     if (info == NULL)
         PGOTO_ERROR(FAIL, "cannot locate object property ID");
     prop = (struct _pdc_obj_prop *)(info->obj_ptr);
-    if (ndim > (PDC_int_t)prop->obj_prop_pub->ndim) {
+    if (ndim != (PDC_int_t)prop->obj_prop_pub->ndim) {
         if (prop->obj_prop_pub->ndim > 0) {
             free(prop->obj_prop_pub->dims);
         }
-- 
2.43.0


From b41eb371c51906acf9709bb351d0da33efcc700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 59/91] fix: every set of the tag index owns its entries

---
 src/server/pdc_server_metadata_index.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..92c9173 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,7 +225,14 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
+    // every set frees its own entries
+    uint64_t *entry = (uint64_t *)malloc(sizeof(uint64_t));
+    *entry          = *((uint64_t *)data);
+
+    int indexed = set_insert(obj_id_set, entry);
+    if (indexed != 1) {
+        free(entry); // it is in the set already
+    }
 
     if (indexed == -1) {
         return FAIL;
@@ -300,8 +307,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     perr_t      ret_value = FAIL;
     stopwatch_t timer;
     timer_start(&timer);
-    uint64_t *data = (uint64_t *)calloc(1, sizeof(uint64_t));
-    *data          = obj_locator;
+    uint64_t data = obj_locator;
 
     // if (index_type == DHT_FULL_HASH) {
     // FIXME: remember to check obj_locator type inside of this function below
@@ -312,7 +318,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     create_hash_table_for_keyword(attr_key, attr_value, 1, (void *)data);
     // }
     // else if (index_type == DART_HASH) {
-    create_index_for_attr_name(attr_key, attr_value, (void *)data);
+    create_index_for_attr_name(attr_key, attr_value, (void *)&data);
     // }
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
@@ -416,8 +422,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     perr_t      ret_value = FAIL;
     stopwatch_t timer;
     timer_start(&timer);
-    uint64_t *data = (uint64_t *)calloc(1, sizeof(uint64_t));
-    *data          = obj_locator;
+    uint64_t data = obj_locator;
 
     // if (index_type == DHT_FULL_HASH) {
     //     delete_hash_table_for_keyword(attr_key, strlen(attr_key), (void *)obj_locator);
@@ -426,7 +431,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     //     delete_hash_table_for_keyword(attr_key, 1, (void *)obj_locator);
     // }
     // else if (index_type == DART_HASH) {
-    delete_index_for_attr_name(attr_key, attr_value, (void *)data);
+    delete_index_for_attr_name(attr_key, attr_value, (void *)&data);
     // }
 
     timer_pause(&timer);
-- 
2.43.0


From 99d5e734cc59c4af22c9384e96137fa2c680895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 60/91] fix: deleting from the tag index removes every suffix
 that inserting added

---
 src/server/pdc_server_metadata_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 92c9173..27256d2 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -381,7 +381,7 @@ delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = rr == 1 ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = rr == 1 ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = 1; // should be 'len', but we already iterate all suffixes at client side;
+    int sub_loop_count = len; // every suffix that was indexed, see create_index_for_attr_name
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key = (unsigned char *)substring(attr_name, j, len);
-- 
2.43.0


From 5ce9fa09153454acbda55e5e9d53c6d6a0568fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 61/91] fix: the handle of a load request is destroyed once

---
 src/api/pdc_client_connect.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index f6e2186..1cad28b 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8474,7 +8474,7 @@ client_dart_get_server_info_cb(const struct hg_cb_info *callback_info)
 dart_server
 dart_retrieve_server_info_cb(uint32_t serverId)
 {
-    dart_server ret;
+    dart_server ret = {0};
 
     perr_t srv_lookup_rst = PDC_Client_try_lookup_server(serverId, 0);
     if (srv_lookup_rst == FAIL) {
@@ -8507,7 +8507,6 @@ dart_retrieve_server_info_cb(uint32_t serverId)
     ret.indexed_word_count = lookup_args.int64_value1;
     ret.request_count      = lookup_args.int64_value2;
 done:
-    HG_Destroy(dart_get_server_info_handle);
 
     return ret;
 }
-- 
2.43.0


From 6186ae35b216427fd26e3c7d04a13e30da73d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 62/91] fix: the element types in a map request are encoded in
 full

---
 src/server/include/pdc_client_server_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 6b6f805..1204b60 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -2581,12 +2581,12 @@ hg_proc_buf_map_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->local_type);
+    ret = hg_proc_int32_t(proc, &struct_data->local_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->remote_type);
+    ret = hg_proc_int32_t(proc, &struct_data->remote_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 777cc6e04176e41371a5645956efa85114e4d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 63/91] fix: a waiting lock request is granted, and recorded as
 held, when the lock is released

---
 src/server/pdc_client_server_common.c         |  15 ---
 .../include/pdc_server_data.h                 |  10 --
 .../pdc_server_region/pdc_server_data.c       | 122 ++++++++++--------
 3 files changed, 67 insertions(+), 80 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 2b8f8fc..13976f1 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1206,12 +1206,6 @@ PDC_Server_update_local_region_storage_loc(region_list_t *region ATTRIBUTE(unuse
     return SUCCEED;
 }
 perr_t
-PDC_Server_release_lock_request(uint64_t obj_id                ATTRIBUTE(unused),
-                                struct pdc_region_info *region ATTRIBUTE(unused))
-{
-    return SUCCEED;
-}
-perr_t
 PDC_Server_data_write_out(uint64_t obj_id                     ATTRIBUTE(unused),
                           struct pdc_region_info *region_info ATTRIBUTE(unused), void *buf ATTRIBUTE(unused),
                           size_t unit ATTRIBUTE(unused))
@@ -2153,8 +2147,6 @@ pdc_region_write_out_progress(void *arg)
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
-
     free(remote_reg_info->offset);
     free(remote_reg_info->size);
     free(remote_reg_info);
@@ -2200,8 +2192,6 @@ obj_map_region_release_bulk_transfer_thread_cb(const struct hg_cb_info *hg_cb_in
     // release the lock
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
 
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, bulk_args->remote_reg_info);
-
 done:
     fflush(stdout);
     free(bulk_args->remote_reg_info->offset);
@@ -2441,8 +2431,6 @@ transform_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_inf
 
     PDC_Server_data_write_out(bulk_args->remote_obj_id, remote_reg_info, bulk_args->data_buf, unit);
     PDC_Data_Server_region_release((region_lock_in_t *)&bulk_args->in, &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 done:
@@ -2599,7 +2587,6 @@ analysis_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info
         (local_reg_info->offset)[3] = bulk_args->in.region.start_3;
         (local_reg_info->size)[3]   = bulk_args->in.region.count_3;
     }
-    PDC_Server_release_lock_request(bulk_args->in.obj_id, local_reg_info);
 
     averages[0] = analysis_t;
     averages[1] = io_t;
@@ -2739,8 +2726,6 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
     // Perform lock release function
     PDC_Data_Server_region_release(&(bulk_args->in), &out);
-
-    PDC_Server_release_lock_request(bulk_args->remote_obj_id, remote_reg_info);
 #endif
 
 #ifdef PDC_TIMING
diff --git a/src/server/pdc_server_region/include/pdc_server_data.h b/src/server/pdc_server_region/include/pdc_server_data.h
index a204aa4..8bb7a6c 100644
--- a/src/server/pdc_server_region/include/pdc_server_data.h
+++ b/src/server/pdc_server_region/include/pdc_server_data.h
@@ -719,16 +719,6 @@ hg_return_t PDC_Server_bulk_cleanup_cb(const struct hg_cb_info *callback_info);
 perr_t PDC_Server_notify_client_multi_io_complete(uint32_t client_id, int client_seq_id, int n_completed,
                                                   region_list_t *completed_rg_list);
 
-/**
- * Data server processes lock release request
- *
- * \param obj_id [IN]           Object ID
- * \param region [IN]           Region
- *
- * \return Non-negative on success/Negative on failure
- */
-perr_t PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region);
-
 /**
  * ********
  *
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 2699c77..0311c19 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -407,6 +407,70 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
 
+/*
+ * Count the mappings of a region that is being locked, so that releasing the lock transfers its data
+ *
+ * \param  obj_reg[IN]       Object the region belongs to
+ * \param  lock_region[IN]   Region to be locked
+ */
+static void
+PDC_Server_count_lock_buf_map(data_server_region_t *obj_reg, region_list_t *lock_region)
+{
+    region_list_t     tmp;
+    region_buf_map_t *elt;
+
+    DL_FOREACH(obj_reg->region_buf_map_head, elt)
+    {
+        PDC_region_transfer_t_to_list_t(&(elt->remote_region_unit), &tmp);
+        if (PDC_is_same_region_list(&tmp, lock_region) == 1) {
+            lock_region->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(lock_region->buf_map_refcount));
+        }
+    }
+}
+
+/*
+ * Pass a lock that was released on to the first request that waits for it, which holds it from then on
+ *
+ * \param  obj_reg[IN]    Object the region belongs to
+ * \param  region[IN]     Region that was released
+ */
+static void
+PDC_Server_grant_lock_request(data_server_region_t *obj_reg, region_list_t *region)
+{
+    region_list_t *   elt, *tmp, *granted = NULL;
+    region_lock_out_t out;
+
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_lock(&lock_request_mutex_g);
+#endif
+    DL_FOREACH_SAFE(obj_reg->region_lock_request_head, elt, tmp)
+    {
+        if (PDC_is_same_region_list(elt, region) == 1) {
+            granted = elt;
+            DL_DELETE(obj_reg->region_lock_request_head, granted);
+            break;
+        }
+    }
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_unlock(&lock_request_mutex_g);
+#endif
+    if (granted == NULL)
+        return;
+
+    PDC_Server_count_lock_buf_map(obj_reg, granted);
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_lock(&lock_list_mutex_g);
+#endif
+    DL_APPEND(obj_reg->region_lock_head, granted);
+#ifdef ENABLE_MULTITHREAD
+    hg_thread_mutex_unlock(&lock_list_mutex_g);
+#endif
+    out.ret = 1;
+    HG_Respond(granted->lock_handle, NULL, NULL, &out);
+    HG_Destroy(granted->lock_handle);
+}
+
 perr_t
 PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_handle_t *handle)
 {
@@ -414,8 +478,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
     int                   ndim;
     region_list_t *       request_region;
     data_server_region_t *new_obj_reg;
-    region_list_t *       elt1, *tmp;
-    region_buf_map_t *    eltt;
+    region_list_t *       elt1;
     int                   error      = 0;
     int                   found_lock = 0;
     // time_t                t;
@@ -500,17 +563,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 
     if (found_lock == 0) {
         // check if the lock region is used in buf map function
-        tmp = (region_list_t *)malloc(sizeof(region_list_t));
-        DL_FOREACH(new_obj_reg->region_buf_map_head, eltt)
-        {
-            PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-            if (PDC_is_same_region_list(tmp, request_region) == 1) {
-                request_region->reg_dirty_from_buf = 1;
-                hg_atomic_incr32(&(request_region->buf_map_refcount));
-                /* printf("%s: set reg_dirty_from_buf and buf_map_refcount\n", __func__); */
-            }
-        }
-        free(tmp);
+        PDC_Server_count_lock_buf_map(new_obj_reg, request_region);
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
@@ -536,48 +589,6 @@ done:
     FUNC_LEAVE(ret_value);
 }
 
-perr_t
-PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
-{
-    perr_t                ret_value = SUCCEED;
-    region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
-    data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
-
-    FUNC_ENTER(NULL);
-
-    request_region = (region_list_t *)malloc(sizeof(region_list_t));
-    PDC_init_region_list(request_region);
-    PDC_region_info_to_list_t(region, request_region);
-
-    new_obj_reg = PDC_Server_get_obj_region(obj_id);
-    if (new_obj_reg == NULL) {
-        PGOTO_ERROR(FAIL, "===PDC Server: cannot locate data_server_region_t strcut for object ID");
-    }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_lock(&lock_request_mutex_g);
-#endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
-    {
-        if (is_region_identical(request_region, elt) == 1) {
-            out.ret = 1;
-            HG_Respond(elt->lock_handle, NULL, NULL, &out);
-            HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
-        }
-    }
-#ifdef ENABLE_MULTITHREAD
-    hg_thread_mutex_unlock(&lock_request_mutex_g);
-#endif
-    free(request_region);
-
-done:
-    fflush(stdout);
-    FUNC_LEAVE(ret_value);
-}
-
 perr_t
 PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
 {
@@ -654,6 +665,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
         printf("==PDC_SERVER[%d]: requested release region/object does not exist\n", pdc_server_rank_g);
         goto done;
     }
+    PDC_Server_grant_lock_request(obj_reg, &request_region);
     out->ret = 1;
 
 done:
-- 
2.43.0


From 3c99c8fede215d4c06ff293012fccb6e066a42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 64/91] fix: locking a region of an object without stored data
 leaves no uninitialised state

---
 src/server/pdc_server_region/pdc_server_data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 0311c19..6168885 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -534,6 +534,10 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        new_obj_reg->close_flag               = 0;
+        // The file is opened when data is stored
+        new_obj_reg->fd               = -1;
+        new_obj_reg->storage_location = (char *)malloc(sizeof(char) * ADDR_MAX);
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
-- 
2.43.0


From 651039870140ede42cc9e331620eca37a3b17dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 65/91] fix: a failed unmap request is answered

---
 src/server/pdc_client_server_common.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 13976f1..4ec9b42 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -4254,13 +4254,12 @@ HG_TEST_RPC_CB(buf_unmap, handle)
     ret = PDC_Data_Server_buf_unmap(info, &in);
     if (ret != SUCCEED) {
         out.ret = 0;
-        PGOTO_ERROR(
-            HG_OTHER_ERROR,
-            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
-        fflush(stdout);
         HG_Respond(handle, NULL, NULL, &out);
         HG_Free_input(handle, &in);
         HG_Destroy(handle);
+        PGOTO_ERROR(
+            HG_OTHER_ERROR,
+            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
     }
     else {
         out.ret = 1;
-- 
2.43.0


From fba80c3b491a5a824cc007fe855b35e94e09eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 66/91] fix: releasing a lock that is not held fails

---
 src/server/pdc_client_server_common.c          | 9 +++++++++
 src/server/pdc_server_region/pdc_server_data.c | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 4ec9b42..ea34380 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2881,6 +2881,15 @@ HG_TEST_RPC_CB(region_release, handle)
     /* tm = *localtime(&t); */
     /* printf("start region_release: %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
+    // Nothing of this object was ever locked
+    if (PDC_Server_get_obj_region(in.obj_id) == NULL) {
+        PDC_Data_Server_region_release(&in, &out);
+        HG_Respond(handle, NULL, NULL, &out);
+        HG_Free_input(handle, &in);
+        HG_Destroy(handle);
+        PGOTO_DONE(ret_value);
+    }
+
     if (in.access_type == PDC_READ) {
         // check region is dirty or not, if dirty transfer data
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 6168885..5b35505 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -611,6 +611,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     /* tm = *localtime(&t); */
     /* printf("start PDC_Data_Server_region_release %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
+    out->ret = 0;
     ndim = in->region.ndim;
 
     // Convert transferred lock region to structure
-- 
2.43.0


From bfea7b4d98dc2a77d383cf3390ea09a12de542e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 67/91] fix: only an identical mapping counts as a duplicate

---
 .../pdc_server_region/pdc_server_data.c       | 40 ++-----------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 5b35505..734a00b 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -1292,42 +1292,10 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
 #endif
     DL_FOREACH(new_obj_reg->region_buf_map_head, tmp)
     {
-        if (in->ndim == 1) {
-            if (tmp->remote_obj_id == in->remote_obj_id &&
-                in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
-                in->remote_region_unit.count_0 == tmp->remote_region_unit.count_0 &&
-                in->local_region.start_0 == tmp->local_region.start_0 &&
-                in->local_region.count_0 == tmp->local_region.count_0)
-                dup = 1;
-        }
-        else if (in->ndim == 2) {
-            if (tmp->remote_obj_id == in->remote_obj_id &&
-                in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
-                in->remote_region_unit.start_1 == tmp->remote_region_unit.start_1 &&
-                in->remote_region_unit.count_0 == tmp->remote_region_unit.count_0 &&
-                in->remote_region_unit.count_1 == tmp->remote_region_unit.count_1 &&
-                in->local_region.start_0 == tmp->local_region.start_0 &&
-                in->local_region.start_1 == tmp->local_region.start_1 &&
-                in->local_region.count_0 == tmp->local_region.count_0 &&
-                in->local_region.count_1 == tmp->local_region.count_1)
-                dup = 1;
-        }
-        else if (in->ndim == 3) {
-            if (tmp->remote_obj_id == in->remote_obj_id &&
-                in->remote_region_unit.start_0 == tmp->remote_region_unit.start_0 &&
-                in->remote_region_unit.start_1 == tmp->remote_region_unit.start_1 &&
-                in->remote_region_unit.start_2 == tmp->remote_region_unit.start_2 &&
-                in->remote_region_unit.count_0 == tmp->remote_region_unit.count_0 &&
-                in->remote_region_unit.count_1 == tmp->remote_region_unit.count_1 &&
-                in->remote_region_unit.count_2 == tmp->remote_region_unit.count_2 &&
-                in->local_region.start_0 == tmp->local_region.start_0 &&
-                in->local_region.start_1 == tmp->local_region.start_1 &&
-                in->local_region.start_2 == tmp->local_region.start_2 &&
-                in->local_region.count_0 == tmp->local_region.count_0 &&
-                in->local_region.count_1 == tmp->local_region.count_1 &&
-                in->local_region.count_2 == tmp->local_region.count_2)
-                dup = 1;
-        }
+        if (tmp->remote_obj_id == in->remote_obj_id &&
+            PDC_region_is_identical(in->remote_region_unit, tmp->remote_region_unit) &&
+            PDC_region_is_identical(in->local_region, tmp->local_region))
+            dup = 1;
     }
     if (dup == 0) {
         buf_map_ptr = (region_buf_map_t *)malloc(sizeof(region_buf_map_t));
-- 
2.43.0


From c5eacb44a1a0e82a8842fd4a3b1bff7389ced219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 68/91] fix: mappings of different clients are kept apart

---
 src/server/pdc_client_server_common.c         | 18 ++++++++++--------
 .../pdc_server_region/pdc_server_data.c       | 19 ++++++++++++-------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index ea34380..447e36e 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2946,14 +2946,15 @@ HG_TEST_RPC_CB(region_release, handle)
 
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH_SAFE(target_obj->region_buf_map_head, eltt2, eltt_tmp)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        HG_Addr_cmp(hg_info->hg_class, hg_info->addr, eltt2->local_addr)) {
+                        dirty_reg = 1;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt2->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
@@ -3162,15 +3163,16 @@ HG_TEST_RPC_CB(region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
-                    if (PDC_is_same_region_list(tmp, request_region) == 1) {
+                    if (PDC_is_same_region_list(tmp, request_region) == 1 &&
+                        HG_Addr_cmp(hg_info->hg_class, hg_info->addr, eltt->local_addr)) {
+                        dirty_reg = 1;
                         // type_size = eltt->remote_unit;
                         // get remote object memory addr
-                        data_buf = PDC_Server_get_region_buf_ptr(in.obj_id, in.region);
+                        data_buf = eltt->remote_data_ptr;
                         if (in.region.ndim == 1) {
                             remote_count  = 1;
                             data_ptrs_to  = (void **)malloc(sizeof(void *));
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 734a00b..c1907a9 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -408,13 +408,15 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
 } // End PDC_Server_unregister_obj_region
 
 /*
- * Count the mappings of a region that is being locked, so that releasing the lock transfers its data
+ * Count the client's mappings of a region it is locking, so that releasing the lock transfers its data
  *
  * \param  obj_reg[IN]       Object the region belongs to
  * \param  lock_region[IN]   Region to be locked
+ * \param  info[IN]          Mercury info of the client's request
  */
 static void
-PDC_Server_count_lock_buf_map(data_server_region_t *obj_reg, region_list_t *lock_region)
+PDC_Server_count_lock_buf_map(data_server_region_t *obj_reg, region_list_t *lock_region,
+                              const struct hg_info *info)
 {
     region_list_t     tmp;
     region_buf_map_t *elt;
@@ -422,7 +424,8 @@ PDC_Server_count_lock_buf_map(data_server_region_t *obj_reg, region_list_t *lock
     DL_FOREACH(obj_reg->region_buf_map_head, elt)
     {
         PDC_region_transfer_t_to_list_t(&(elt->remote_region_unit), &tmp);
-        if (PDC_is_same_region_list(&tmp, lock_region) == 1) {
+        if (PDC_is_same_region_list(&tmp, lock_region) == 1 &&
+            HG_Addr_cmp(info->hg_class, info->addr, elt->local_addr)) {
             lock_region->reg_dirty_from_buf = 1;
             hg_atomic_incr32(&(lock_region->buf_map_refcount));
         }
@@ -458,7 +461,7 @@ PDC_Server_grant_lock_request(data_server_region_t *obj_reg, region_list_t *regi
     if (granted == NULL)
         return;
 
-    PDC_Server_count_lock_buf_map(obj_reg, granted);
+    PDC_Server_count_lock_buf_map(obj_reg, granted, HG_Get_info(granted->lock_handle));
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -567,7 +570,7 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
 
     if (found_lock == 0) {
         // check if the lock region is used in buf map function
-        PDC_Server_count_lock_buf_map(new_obj_reg, request_region);
+        PDC_Server_count_lock_buf_map(new_obj_reg, request_region, HG_Get_info(*handle));
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
@@ -775,7 +778,8 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
     DL_FOREACH_SAFE(target_obj->region_buf_map_head, elt, tmp)
     {
         if (in->remote_obj_id == elt->remote_obj_id &&
-            PDC_region_is_identical(in->remote_region, elt->remote_region_unit)) {
+            PDC_region_is_identical(in->remote_region, elt->remote_region_unit) &&
+            HG_Addr_cmp(info->hg_class, info->addr, elt->local_addr)) {
 #ifdef ENABLE_MULTITHREAD
             // wait for work to be done, then free
             hg_thread_mutex_lock(&(elt->bulk_args->work_mutex));
@@ -1294,7 +1298,8 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
     {
         if (tmp->remote_obj_id == in->remote_obj_id &&
             PDC_region_is_identical(in->remote_region_unit, tmp->remote_region_unit) &&
-            PDC_region_is_identical(in->local_region, tmp->local_region))
+            PDC_region_is_identical(in->local_region, tmp->local_region) &&
+            HG_Addr_cmp(info->hg_class, info->addr, tmp->local_addr))
             dup = 1;
     }
     if (dup == 0) {
-- 
2.43.0


From 25e190ccfdabc83aa27bf3f9c41c19cfc6ca05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 69/91] fix: mapping and locking refuse unknown region handles

---
 src/api/pdc_region/pdc_region.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..8d52f2f 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,7 +223,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
+    reg1 = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
     if (objinfo2 == NULL)
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
@@ -335,7 +339,9 @@ PDCreg_obtain_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type, pdc
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
-    ret_value   = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
+    ret_value = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
                                        access_type, lock_mode, data_type, &obtained);
 
     // PDC_free_obj_info(object_info);
@@ -362,6 +368,8 @@ PDCreg_release_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type)
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
 
     ret_value = PDC_Client_region_release(object_info->obj_info_pub->meta_id, object_info, region_info,
                                           access_type, data_type, &released);
-- 
2.43.0


From 3e32a87ba820cb3ef73babed82095c36f040321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 70/91] fix: pdc_ls builds the path of each checkpoint file in
 the directory it is in

---
 src/tools/pdc_ls.c | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index c480029..599c655 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -118,8 +118,9 @@ int
 isDir(const char *fileName)
 {
     struct stat path;
-    stat(fileName, &path);
-    return S_ISREG(path.st_mode);
+    if (stat(fileName, &path) != 0)
+        return 0;
+    return S_ISDIR(path.st_mode);
 }
 
 static void pdc_ls(FileNameNode *file_name_node, int argc, char *argv[]);
@@ -143,39 +144,28 @@ main(int argc, char *argv[])
 
         if (d) {
             while ((dir = readdir(d)) != NULL) {
+                // appends path together
+                char tmp[1024];
+                snprintf(tmp, sizeof(tmp), "%s/%s", argv[1], dir->d_name);
                 // if it's directory
-                if (!isDir(dir->d_name)) {
+                if (isDir(tmp)) {
                     if (strstr(dir->d_name, ".")) {
                         // ignore parent and current directories
                         continue;
                     }
-                    // appends path together
-                    char tmp[1024];
-                    sprintf(tmp, "%s/%s", argv[1], dir->d_name);
                     DIR *d1 = opendir(tmp);
                     /* printf("%s\n", tmp); */
+                    if (d1 == NULL)
+                        continue;
 
                     while ((direc = readdir(d1)) != NULL) { // go into it and go for checkpoint files again
                         if (strstr(direc->d_name, "metadata_checkpoint.")) {
                             // printf("getting checkpoints\n");
-                            char last = argv[1][strlen(argv[1]) - 1];
-                            if (last == '/') {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 1));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, direc->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
-                            else {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 2));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, "/");
-                                strcat(full_path, dir->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
+                            full_path =
+                                (char *)malloc(sizeof(char) * (strlen(tmp) + strlen(direc->d_name) + 2));
+                            strcpy(full_path, tmp);
+                            strcat(full_path, "/");
+                            strcat(full_path, direc->d_name);
                             if (head == NULL) {
                                 FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
                                 new_node->file_name    = full_path;
-- 
2.43.0


From 2f7095ed512dca01f7b67ac7c0a4ea4b84401aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 71/91] fix: pdc_ls goes on to the next file when one cannot be
 opened

---
 src/tools/pdc_ls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 599c655..7d59ae8 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -440,7 +440,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         if (file == NULL) {
             printf("==PDC_SERVER[%d]: %s -  Checkpoint file open FAILED [%s]!", pdc_server_rank_g, __func__,
                    filename);
-            ret_value = FAIL;
+            ret_value     = FAIL;
+            cur_file_node = cur_file_node->next;
             continue;
         }
 
-- 
2.43.0


From 85714e690debeddd16dcf0e14e4b160899b6c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 72/91] fix: pdc_ls reads the region placement of a checkpoint
 into lists that end

---
 src/tools/pdc_ls.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 7d59ae8..d0902b6 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -305,14 +305,15 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
 
+            metadata_server_objs_end->next   = NULL;
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
             metadata_server_objs_end->ndim = *(int *)ptr;
@@ -336,7 +337,7 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
-- 
2.43.0


From 6161748da56acd8347662943b11c282a719f9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 73/91] fix: pdc_ls shows regions held by another server than
 the one with the object's metadata

---
 src/tools/pdc_ls.c | 56 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index d0902b6..1465995 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -421,6 +421,11 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     regex_t     regex;
     int         reti;
 
+    // Regions of data servers, kept until the metadata of all servers has been read
+    RegionNode *  data_region_head = NULL;
+    RegionNode *  data_region_end  = NULL;
+    MetadataNode *wanted_node;
+
     while (cur_file_node != NULL) {
         filename = cur_file_node->file_name;
         stat(filename, &attr);
@@ -632,29 +637,22 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
             }
-            MetadataNode *wanted_node = metadata_head;
-            while (wanted_node != NULL) {
-                if (wanted_node->metadata_ptr->obj_id == new_obj_reg->obj_id) {
-                    break;
-                }
-                wanted_node = wanted_node->next;
-            }
-            RegionNode *cur_region = wanted_node->region_list_head;
             for (j = 0; j < n_region; j++) {
                 region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
                     printf("Read failed for new_region_list\n");
                 }
-                RegionNode *new_node  = (RegionNode *)malloc(sizeof(RegionNode));
-                new_node->region_list = new_region_list;
-                new_node->next        = NULL;
-                if (cur_region == NULL) {
-                    wanted_node->region_list_head = new_node;
-                    cur_region                    = new_node;
+                new_region_list->obj_id = new_obj_reg->obj_id;
+                RegionNode *new_node    = (RegionNode *)malloc(sizeof(RegionNode));
+                new_node->region_list   = new_region_list;
+                new_node->next          = NULL;
+                if (data_region_end == NULL) {
+                    data_region_head = new_node;
+                    data_region_end  = new_node;
                 }
                 else {
-                    cur_region->next = new_node;
-                    cur_region       = new_node;
+                    data_region_end->next = new_node;
+                    data_region_end       = new_node;
                 }
             }
         }
@@ -703,6 +701,32 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cur_file_node = cur_file_node->next;
     }
 
+    // Attach the regions to their objects, whose metadata may be in the checkpoint of another server
+    while (data_region_head != NULL) {
+        RegionNode *cur_node  = data_region_head;
+        RegionNode *last_node = NULL;
+        data_region_head      = cur_node->next;
+        cur_node->next        = NULL;
+
+        wanted_node = metadata_head;
+        while (wanted_node != NULL) {
+            if (wanted_node->metadata_ptr->obj_id == cur_node->region_list->obj_id)
+                break;
+            wanted_node = wanted_node->next;
+        }
+        if (wanted_node == NULL)
+            continue;
+        if (wanted_node->region_list_head == NULL) {
+            wanted_node->region_list_head = cur_node;
+        }
+        else {
+            last_node = wanted_node->region_list_head;
+            while (last_node->next != NULL)
+                last_node = last_node->next;
+            last_node->next = cur_node;
+        }
+    }
+
     // Create JSON
     MetadataNode *  cur_m_node = metadata_head;
     RegionNode *    cur_r_node;
-- 
2.43.0


From 552b078296b57d3f9517354de8bc7c3b023590e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 74/91] fix: pdc_ls -json closes its output file after writing
 it

---
 src/tools/pdc_ls.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 1465995..c39d36f 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -904,9 +904,6 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 all_n_region_total);
         cJSON_AddStringToObject(output, "summary", buf);
     }
-    if (output_file_name) {
-        fclose(fp);
-    }
     char *json_string = cJSON_Print(output);
     fprintf(fp, json_string);
     fprintf(fp, "\n");
-- 
2.43.0


From 8478c777d29ee393b0ddafc84d344dc0a059409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 75/91] fix: pdc_ls does not take the names it prints as a
 format

---
 src/tools/pdc_ls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index c39d36f..b86440b 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -905,7 +905,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cJSON_AddStringToObject(output, "summary", buf);
     }
     char *json_string = cJSON_Print(output);
-    fprintf(fp, json_string);
+    fprintf(fp, "%s", json_string);
     fprintf(fp, "\n");
     if (output_file_name)
         fclose(fp);
-- 
2.43.0


From bd485176ff9eb5f23a56ec46d566f57f213c371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 76/91] fix: pdc_ls shows each container once, whatever the
 order of the objects

---
 src/tools/pdc_ls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index b86440b..cbfbacc 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <inttypes.h>
 #include <dirent.h>
 #include <regex.h>
 #include <time.h>
@@ -743,13 +744,13 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     cJSON *         count_arr_json   = NULL;
     cJSON *         start_arr_json   = NULL;
     cJSON *         output           = cJSON_CreateObject();
-    int             prev_cont_id     = -1;
     char            buf[1024];
     while (cur_m_node != NULL) {
         cur_metadata = cur_m_node->metadata_ptr;
-        if (prev_cont_id != cur_metadata->cont_id) {
+        sprintf(buf, "cont_id: %" PRIu64, cur_metadata->cont_id);
+        cont_id_json = cJSON_GetObjectItem(output, buf);
+        if (cont_id_json == NULL) {
             cont_id_json = cJSON_CreateArray();
-            sprintf(buf, "cont_id: %d", cur_metadata->cont_id);
             cJSON_AddItemToObject(output, buf, cont_id_json);
         }
         add_obj = 1;
@@ -875,8 +876,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             cJSON_AddItemToArray(cont_id_json, cur_obj_json);
         }
 
-        prev_cont_id = cur_metadata->cont_id;
-        cur_m_node   = cur_m_node->next;
+        cur_m_node = cur_m_node->next;
     }
 
     FILE *fp;
-- 
2.43.0


From 7b8c9b2f5f3241e340406da37b43846431fe4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 77/91] fix: pdc_ls shows ids, dimensions and regions beyond
 the range of int

---
 src/tools/pdc_ls.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index cbfbacc..fd44223 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -827,7 +827,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 add(obj_names, cur_metadata->obj_name);
             }
             if (list_ids) {
-                sprintf(buf, "%d", cur_metadata->obj_id);
+                sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
                 add(obj_ids, buf);
             }
             cur_obj_json = cJSON_CreateObject();
@@ -839,11 +839,11 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             data_type = get_data_type(cur_metadata->data_type);
             cJSON_AddStringToObject(cur_obj_json, "data_type", data_type);
             cJSON_AddNumberToObject(cur_obj_json, "num_dims", cur_metadata->ndim);
-            int dims[cur_metadata->ndim];
+            double dims[DIM_MAX];
             for (int i = 0; i < (cur_metadata->ndim); i++) {
                 dims[i] = (cur_metadata->dims)[i];
             }
-            dim_arr_json = cJSON_CreateIntArray(dims, cur_metadata->ndim);
+            dim_arr_json = cJSON_CreateDoubleArray(dims, cur_metadata->ndim);
             cJSON_AddItemToObject(cur_obj_json, "dims", dim_arr_json);
             cJSON_AddNumberToObject(cur_obj_json, "time_step", cur_metadata->time_step);
 
@@ -855,15 +855,15 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 cJSON_AddStringToObject(region_info_json, "storage_loc", cur_region->storage_location);
                 cJSON_AddNumberToObject(region_info_json, "offset", cur_region->offset);
                 cJSON_AddNumberToObject(region_info_json, "num_dims", cur_region->ndim);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
+                for (size_t i = 0; i < (cur_region->ndim); i++) {
                     dims[i] = (cur_region->start)[i];
                 }
-                start_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                start_arr_json = cJSON_CreateDoubleArray(dims, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "start", start_arr_json);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
+                for (size_t i = 0; i < (cur_region->ndim); i++) {
                     dims[i] = (cur_region->count)[i];
                 }
-                count_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                count_arr_json = cJSON_CreateDoubleArray(dims, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "count", count_arr_json);
                 cJSON_AddNumberToObject(region_info_json, "unit_size", cur_region->unit_size);
                 data_type = get_data_loc_type(cur_region->data_loc_type);
@@ -892,11 +892,12 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cJSON_AddItemToObject(output, "all_obj_names", all_names_json);
     }
     if (list_ids) {
-        int id_arr[obj_ids->length];
+        double *id_arr = (double *)malloc(sizeof(double) * (obj_ids->length + 1));
         for (int i = 0; i < obj_ids->length; i++) {
-            id_arr[i] = atoi(obj_ids->items[i]);
+            id_arr[i] = strtod(obj_ids->items[i], NULL);
         }
-        cJSON *all_ids_json = cJSON_CreateIntArray(id_arr, obj_ids->length);
+        cJSON *all_ids_json = cJSON_CreateDoubleArray(id_arr, obj_ids->length);
+        free(id_arr);
         cJSON_AddItemToObject(output, "all_obj_ids", all_ids_json);
     }
     if (summary) {
-- 
2.43.0


From d95258da66a6c9507eef6d9f6516b74f62d5b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 78/91] fix: pdc_ls -i matches ids against the expression it
 was given

---
 src/tools/pdc_ls.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index fd44223..0c827ad 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -362,7 +362,7 @@ void
 pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 {
     char *wanted_name      = NULL;
-    int   wanted_id        = 0;
+    char *wanted_id        = NULL;
     char *output_file_name = NULL;
     int   list_names       = 0;
     int   list_ids         = 0;
@@ -381,7 +381,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (strcmp(argv[arg_index], "-i") == 0) {
             arg_index++;
-            wanted_id = atoi(argv[arg_index]);
+            wanted_id = argv[arg_index];
         }
         else if (strcmp(argv[arg_index], "-json") == 0) {
             arg_index++;
@@ -770,15 +770,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 }
             }
 
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
+            reti = regcomp(&regex, wanted_id, 0);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
@@ -806,15 +805,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (wanted_id) {
             int matched_id = 0;
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
+            reti = regcomp(&regex, wanted_id, 0);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
-- 
2.43.0


From 0220f580fe42fef711a48fa24311adb385c0054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:23 +0000
Subject: [PATCH 79/91] fix: pdc_ls -s counts every region once

---
 src/tools/pdc_ls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 0c827ad..fca504b 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -614,7 +614,6 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                     }
 
                 } // For j
-                total_region += n_region;
             } // For i
 
             nobj += count;
@@ -638,6 +637,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
             }
+            total_region += n_region;
             for (j = 0; j < n_region; j++) {
                 region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
-- 
2.43.0


From 7a20a1fa356807e35b83502a6a3e5decd7fc6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 80/91] fix: mapping a local region at a row or plane offset
 uses that offset

---
 src/api/pdc_client_connect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1cad28b..48b8e4c 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -3658,7 +3658,7 @@ PDC_Client_buf_map(pdcid_t local_region_id, pdcid_t remote_obj_id, size_t ndim,
         local_count = 1;
         data_ptrs   = (void **)malloc(sizeof(void *));
         data_size   = (size_t *)malloc(sizeof(size_t));
-        *data_ptrs  = local_data;
+        *data_ptrs  = local_data + unit * local_dims[1] * local_offset[0];
         *data_size  = unit * local_dims[0] * local_dims[1];
     }
     else if (ndim == 2) {
@@ -3680,7 +3680,8 @@ PDC_Client_buf_map(pdcid_t local_region_id, pdcid_t remote_obj_id, size_t ndim,
         local_count = 1;
         data_ptrs   = (void **)malloc(sizeof(void *));
         data_size   = (size_t *)malloc(sizeof(size_t));
-        *data_ptrs  = local_data;
+        *data_ptrs  = local_data + unit * (local_dims[2] * local_dims[1] * local_offset[0] +
+                                         local_dims[2] * local_offset[1]);
         *data_size  = unit * local_dims[0] * local_dims[1] * local_dims[2];
     }
     else if (ndim == 3) {
-- 
2.43.0


From f917d39f23b4417de5f402a1c4ea13b310479de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 81/91] fix: unmapping over a first connection answers the
 client once

---
 src/server/pdc_server_region/pdc_server_data.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index c1907a9..ae2b273 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -940,7 +940,6 @@ server_send_buf_unmap_addr_rpc_cb(const struct hg_cb_info *callback_info)
     }
 
 done:
-    HG_Respond(tranx_args->handle, NULL, NULL, &out);
     HG_Free_input(tranx_args->handle, &(tranx_args->in));
     HG_Destroy(tranx_args->handle);
     HG_Free_output(handle, &out);
-- 
2.43.0


From 00bad069c00884dab6d2d8fc648bc42e1e5be2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:40 +0000
Subject: [PATCH 82/91] fix: a server's last checkpoint stays until the next
 one is complete

---
 src/server/pdc_server.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index a8173ed..46003a4 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1289,12 +1289,14 @@ PDC_Server_checkpoint()
     int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0;
     uint32_t          hash_key;
     HashTablePair     pair;
-    char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file[ADDR_MAX], checkpoint_file_new[ADDR_MAX + 4],
+        checkpoint_file_local[ADDR_MAX], cmd[4096];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
     uint64_t          checkpoint_size;
     bool              use_tmpfs = false;
+    int               write_error;
     FILE *            file;
 
     FUNC_ENTER(NULL);
@@ -1321,6 +1323,8 @@ PDC_Server_checkpoint()
 #endif
     snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
              pdc_server_rank_g, pdc_server_rank_g);
+    // The previous checkpoint stays in place until the new one is complete
+    snprintf(checkpoint_file_new, sizeof(checkpoint_file_new), "%s.new", checkpoint_file);
     snprintf(checkpoint_file_local, ADDR_MAX, "/tmp/metadata_checkpoint.%d", pdc_server_rank_g);
     if (pdc_server_rank_g == 0) {
         printf("==PDC_SERVER[%4d]: Checkpoint file [%s]\n", pdc_server_rank_g, checkpoint_file);
@@ -1330,7 +1334,7 @@ PDC_Server_checkpoint()
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_new, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1456,17 +1460,25 @@ PDC_Server_checkpoint()
         PDC_Server_checkpoint_kvtags(cont_head->kvtag_list_head, file);
     }
 
-    fclose(file);
+    write_error = ferror(file);
+    if (fclose(file) != 0)
+        write_error = 1;
 
-    if (use_tmpfs) {
+    if (use_tmpfs && write_error == 0) {
 #ifdef PDC_TIMING
         gettimeofday(&pdc_timer_end_rank, 0);
         checkpoint_time = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end_rank);
         printf("==PDC_SERVER[%4d]: write to tmpfs took %7.2fs\n", pdc_server_rank_g, checkpoint_time);
 #endif
         // Copy from /tmp to target under $PDC_TMPDIR
-        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
-        system(cmd);
+        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file_new);
+        if (system(cmd) != 0)
+            write_error = 1;
+    }
+
+    if (write_error != 0 || rename(checkpoint_file_new, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
     }
 
 #ifdef PDC_TIMING
-- 
2.43.0


From 0e2a14066ac91e3386706909d22282d01a65be16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 83/91] fix: a server can take a checkpoint by itself

---
 src/server/pdc_server.c | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 46003a4..c1d4531 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1304,7 +1304,6 @@ PDC_Server_checkpoint()
 #ifdef PDC_TIMING
     // Timing
     struct timeval pdc_timer_start;
-    struct timeval pdc_timer_end;
     struct timeval pdc_timer_end_rank;
     double         checkpoint_time, checkpoint_time_rank;
     gettimeofday(&pdc_timer_start, 0);
@@ -1486,32 +1485,15 @@ PDC_Server_checkpoint()
     checkpoint_time_rank = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end_rank);
 #endif
 
-    int all_metadata_size, all_region_count;
-#ifdef ENABLE_MPI
-    MPI_Reduce(&metadata_size, &all_metadata_size, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
-    MPI_Reduce(&region_count, &all_region_count, 1, MPI_INT, MPI_SUM, 0, MPI_COMM_WORLD);
-#else
-    all_metadata_size = metadata_size;
-    all_region_count  = region_count;
-#endif
-
+    // Servers also take checkpoints by themselves, so this must not involve the others
 #ifdef PDC_TIMING
     printf("==PDC_SERVER[%4d]: checkpointed %10d objects, with %10d regions, took %7.2fs\n",
            pdc_server_rank_g, metadata_size, region_count, checkpoint_time_rank);
-
-    gettimeofday(&pdc_timer_end, 0);
-    checkpoint_time = PDC_get_elapsed_time_double(&pdc_timer_start, &pdc_timer_end);
-
-    fflush(stdout);
-    if (pdc_server_rank_g == 0)
-        printf("==PDC_SERVER[ ALL]: total checkpoint time = %.6f\n", checkpoint_time);
+#else
+    printf("==PDC_SERVER[%4d]: checkpointed %10d objects, with %10d regions\n", pdc_server_rank_g,
+           metadata_size, region_count);
 #endif
-
-    if (pdc_server_rank_g == 0) {
-        printf("==PDC_SERVER[ ALL]: checkpointed %10d objects, with %10d regions \n", all_metadata_size,
-               all_region_count);
-        fflush(stdout);
-    }
+    fflush(stdout);
 
 done:
     fflush(stdout);
-- 
2.43.0


From 212eb493407d3ed9ee450e601d087e76ccaacd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:08 +0000
Subject: [PATCH 84/91] fix: flushing an object flushes it

---
 src/api/pdc_obj/pdc_obj.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 33c8986..4b0dd32 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -449,12 +449,19 @@ PDC_obj_close(struct _pdc_obj_info *op)
 perr_t
 PDCobj_flush_start(pdcid_t obj_id)
 {
-    perr_t ret_value = SUCCEED;
+    perr_t               ret_value = SUCCEED;
+    struct _pdc_id_info *id_info;
 
     FUNC_ENTER(NULL);
 
-    PDC_Client_flush_obj(obj_id);
+    id_info = PDC_find_id(obj_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
 
+    // The servers know the object by its metadata id
+    ret_value = PDC_Client_flush_obj(((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id);
+
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From 035b9a2062194ab88fb3778b566a5cec891d6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:37 +0000
Subject: [PATCH 85/91] fix: creating an object together when it exists fails
 on every rank

---
 src/api/pdc_obj/pdc_mpi.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/api/pdc_obj/pdc_mpi.c b/src/api/pdc_obj/pdc_mpi.c
index 4db4d04..42c8533 100644
--- a/src/api/pdc_obj/pdc_mpi.c
+++ b/src/api/pdc_obj/pdc_mpi.c
@@ -35,6 +35,7 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     pdcid_t               ret_value = SUCCEED;
     struct _pdc_obj_info *p         = NULL;
     struct _pdc_id_info * id_info   = NULL;
+    pdcid_t               created   = 0;
     int                   rank;
 
     FUNC_ENTER(NULL);
@@ -46,6 +47,16 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     else
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_LOCAL);
 
+    // When there is no new object, nobody gets a handle
+    if (rank == rank_id)
+        created = ret_value;
+    MPI_Bcast(&created, 1, MPI_LONG_LONG, rank_id, comm);
+    if (created == 0) {
+        if (ret_value != 0)
+            PDCobj_close(ret_value);
+        PGOTO_DONE(0);
+    }
+
     id_info = PDC_find_id(ret_value);
     p       = (struct _pdc_obj_info *)(id_info->obj_ptr);
 
@@ -56,6 +67,9 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     // printf("PDCobj_create_mpi: obj partition for %s is %u @ rank %d\n", obj_name, (unsigned)
     // (((pdc_metadata_t *)p->metadata)->region_partition),rank);
     // PDC_Client_attach_metadata_to_local_obj((char *)obj_name, p->meta_id, p->cont->meta_id, p);
+
+done:
+    fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
 
-- 
2.43.0


From d2c82638442a735ae13cd32414d5b1b84a8ce299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:27 +0000
Subject: [PATCH 86/91] fix: a hash table that cannot grow keeps its size

---
 src/commons/profiling/pdc_hashtab.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commons/profiling/pdc_hashtab.c b/src/commons/profiling/pdc_hashtab.c
index c0926c3..45aad26 100644
--- a/src/commons/profiling/pdc_hashtab.c
+++ b/src/commons/profiling/pdc_hashtab.c
@@ -277,8 +277,11 @@ static int htab_expand(htab) htab_t htab;
     htab->size = higher_prime_number(htab->size * 2);
 
     nentries = (PTR *)(*htab->alloc_f)(htab->size, sizeof(PTR *));
-    if (nentries == NULL)
+    if (nentries == NULL) {
+        // the entries stay where they are
+        htab->size = olimit - oentries;
         return 0;
+    }
     htab->entries = nentries;
     htab->n_elements -= htab->n_deleted;
     htab->n_deleted = 0;
-- 
2.43.0


From 4f490c01baf86b1a2be9c14711e2b3f4ebe58807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:27 +0000
Subject: [PATCH 87/91] fix: read_text_file closes the file and frees the line
 after a read error

---
 src/commons/file/common_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/file/common_io.c b/src/commons/file/common_io.c
index 83fe7b7..dc3ae10 100644
--- a/src/commons/file/common_io.c
+++ b/src/commons/file/common_io.c
@@ -114,11 +114,12 @@ read_text_file(char *filename, void (*callback)(char *line))
         }
         callback(line);
     }
+    free(line);
     if (ferror(fp)) {
         fprintf(stderr, "Error reading file\n");
+        close_file(fp);
         return 1;
     }
-    free(line);
     close_file(fp);
     return 0;
 }
-- 
2.43.0


From f9df788f18704aa3af30acd0152cef5dbffa0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 88/91] fix: each thread pool ends its own threads only

---
 src/commons/utils/thpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index c9e8e76..661955f 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,7 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
 static volatile int threads_on_hold;
 
 /* ========================== STRUCTURES ============================ */
@@ -81,6 +80,7 @@ typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
+    volatile int    threads_keepalive;   /* threads go on for more    */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
     pthread_cond_t  threads_all_idle;    /* signal to thpool_wait     */
     jobqueue        jobqueue;            /* job queue                 */
@@ -112,8 +112,7 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
+    threads_on_hold = 0;
 
     if (num_threads < 0) {
         num_threads = 0;
@@ -128,6 +127,7 @@ thpool_init(int num_threads)
     }
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
+    thpool_p->threads_keepalive   = 1;
 
     /* Initialise the job queue */
     if (jobqueue_init(&thpool_p->jobqueue) == -1) {
@@ -208,7 +208,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->threads_keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -349,11 +349,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->threads_keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->threads_keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
-- 
2.43.0


From 6ff423d57c03bb26052eb3a689eb1a556f559726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:54 +0000
Subject: [PATCH 89/91] fix: every waiter of a thread pool is woken when it is
 idle

---
 src/commons/utils/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 661955f..8fe5d4e 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -373,7 +373,7 @@ thread_do(struct thread *thread_p)
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working--;
             if (!thpool_p->num_threads_working) {
-                pthread_cond_signal(&thpool_p->threads_all_idle);
+                pthread_cond_broadcast(&thpool_p->threads_all_idle);
             }
             pthread_mutex_unlock(&thpool_p->thcount_lock);
         }
-- 
2.43.0


From 51a576169fef18951d9e173c28ee566182a275be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:38 +0000
Subject: [PATCH 90/91] fix: an object's storage is not closed under the flush
 thread

---
 src/server/pdc_client_server_common.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 447e36e..43b3790 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -4262,7 +4262,14 @@ HG_TEST_RPC_CB(buf_unmap, handle)
     info    = HG_Get_info(handle);
     out.ret = 1;
 
+    // The last unmap of an object closes its storage, which the flush thread may be writing
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
+#endif
     ret = PDC_Data_Server_buf_unmap(info, &in);
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+#endif
     if (ret != SUCCEED) {
         out.ret = 0;
         HG_Respond(handle, NULL, NULL, &out);
-- 
2.43.0


From e91c3cef555948abf81f2fb8af62c1447887c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:35 +0000
Subject: [PATCH 91/91] fix: a checkpoint is not written while the flush thread
 adds regions

---
 src/server/pdc_server.c                                | 7 +++++++
 src/server/pdc_server_region/pdc_server_region_cache.c | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index c1d4531..aaed4de 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1429,6 +1429,10 @@ PDC_Server_checkpoint()
     }     // End for hash table metadata entry
 
     // Note data server region are managed by data server instead of metadata server
+    // The flush thread may be adding regions
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_lock(&pdc_obj_cache_list_mutex);
+#endif
     data_server_region_t *region = NULL;
     DL_COUNT(dataserver_region_g, region, n_objs);
     fwrite(&n_objs, sizeof(int), 1, file);
@@ -1442,6 +1446,9 @@ PDC_Server_checkpoint()
             fwrite(region_elt, sizeof(region_list_t), 1, file);
         }
     }
+#ifdef PDC_SERVER_CACHE
+    pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
+#endif
 
     transfer_request_metadata_query_checkpoint(&checkpoint, &checkpoint_size);
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index fd0fd29..5a68278 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -76,7 +76,7 @@ PDC_region_server_cache_finalize()
     pthread_join(pdc_recycle_thread, NULL);
 
     PDC_region_cache_flush_all();
-    pthread_mutex_destroy(&pdc_obj_cache_list_mutex);
+    // pdc_obj_cache_list_mutex is still used by the last checkpoint
     pthread_mutex_destroy(&pdc_cache_mutex);
 #ifdef PDC_TIMING
     pdc_server_timings->PDCcache_clean += MPI_Wtime() - start;
-- 
2.43.0

