From b1c94071e54614c6b452e583c60e4c8c09b19495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 01/44] fix: free a hash table's user data when the table is
 freed

---
 src/libcork/ds/hash-table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..3b34373 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -193,6 +193,7 @@ void
 cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
+    cork_free_user_data(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
     cork_delete(struct cork_hash_table, table);
 }
-- 
2.43.0


From e19d8525c9db760029ddf3053a830d0ea7851486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/44] fix: make every memory pool block big enough for one
 object

---
 src/libcork/core/mempool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..8818621 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -70,6 +70,12 @@ cork_mempool_new_size_ex(size_t element_size, size_t block_size)
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
     mp->element_size = element_size;
     mp->block_size = block_size;
+    /* Every block has to be able to hold at least one object. */
+    if (mp->block_size <
+        sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp)) {
+        mp->block_size =
+            sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp);
+    }
     mp->free_list = NULL;
     mp->allocated_count = 0;
     mp->blocks = NULL;
-- 
2.43.0


From 0b4f242795bc0a825038e8a0a27d94fb8132bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 03/44] fix: evaluate the arguments of the dllist macros once

---
 include/libcork/ds/dllist.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/libcork/ds/dllist.h b/include/libcork/ds/dllist.h
index 273fcfd..3ee9163 100644
--- a/include/libcork/ds/dllist.h
+++ b/include/libcork/ds/dllist.h
@@ -71,20 +71,28 @@ CORK_API size_t
 cork_dllist_size(const struct cork_dllist *list);
 
 
+/* These macros update the list while they still need their parameters, so they
+ * have to evaluate them exactly once: `cork_dllist_start(list)` and friends refer
+ * to a field that we're about to change. */
+
 #define cork_dllist_add_after(pred, element) \
     do { \
-        (element)->prev = (pred); \
-        (element)->next = (pred)->next; \
-        (pred)->next->prev = (element); \
-        (pred)->next = (element); \
+        struct cork_dllist_item  *__pred = (pred); \
+        struct cork_dllist_item  *__added = (element); \
+        __added->prev = __pred; \
+        __added->next = __pred->next; \
+        __pred->next->prev = __added; \
+        __pred->next = __added; \
     } while (0)
 
 #define cork_dllist_add_before(succ, element) \
     do { \
-        (element)->next = (succ); \
-        (element)->prev = (succ)->prev; \
-        (succ)->prev->next = (element); \
-        (succ)->prev = (element); \
+        struct cork_dllist_item  *__succ = (succ); \
+        struct cork_dllist_item  *__added = (element); \
+        __added->next = __succ; \
+        __added->prev = __succ->prev; \
+        __succ->prev->next = __added; \
+        __succ->prev = __added; \
     } while (0)
 
 #define cork_dllist_add_to_head(list, element) \
@@ -123,8 +131,9 @@ cork_dllist_size(const struct cork_dllist *list);
 
 #define cork_dllist_remove(element) \
     do { \
-        (element)->prev->next = (element)->next; \
-        (element)->next->prev = (element)->prev; \
+        struct cork_dllist_item  *__removed = (element); \
+        __removed->prev->next = __removed->next; \
+        __removed->next->prev = __removed->prev; \
     } while (0)
 
 
-- 
2.43.0


From 3697769fdfc14961a709af7d9f80993c74d2be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 04/44] fix: don't free garbage cycles before the collection is
 done

Objects were freed while other possible roots of the same cycle were still to be
visited, and a full root buffer started a collection in the middle of releasing
an object, when the reference counts aren't consistent.
---
 src/libcork/core/gc.c | 111 ++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 41 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..a96e4f4 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* We look for garbage cycles once there are this many possible roots. */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +41,16 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of entries in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
+    /* The objects that the current collection has found to be garbage. */
+    struct cork_gc_header  *garbage;
+    /* Whether we're in the middle of releasing or collecting objects.  The
+     * reference counts aren't consistent then, so we can't start (another)
+     * collection. */
+    bool  busy;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +74,10 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the context's list of roots (if this object is
+     * buffered) or garbage. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -157,7 +168,11 @@ cork_gc_init(void)
 void
 cork_gc_done(void)
 {
-    cork_gc_collect_cycles(cork_gc_get());
+    struct cork_gc  *gc = cork_gc_get();
+    /* The free callbacks can leave new possible roots behind. */
+    while (gc->root_count > 0) {
+        cork_gc_collect_cycles(gc);
+    }
 }
 
 void *
@@ -170,6 +185,7 @@ cork_gc_alloc(size_t instance_size, struct cork_gc_obj_iface *iface)
     header->ref_count_color = cork_gc_ref_count_color(1, false, GC_BLACK);
     header->allocated_size = full_size;
     header->iface = iface;
+    header->next = NULL;
     return cork_gc_get_object(header);
 }
 
@@ -207,10 +223,9 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -239,20 +254,26 @@ cork_gc_decref(void *obj)
 {
     if (obj != NULL) {
         struct cork_gc  *gc = cork_gc_get();
-        struct cork_gc_header  *header = cork_gc_get_header(obj);
-        cork_gc_dec_ref_count(header);
-        DEBUG("Decrementing %p -> %d\n",
-              obj, cork_gc_get_ref_count(header));
-        if (cork_gc_get_ref_count(header) == 0) {
-            DEBUG("  Releasing %p\n", header);
-            cork_gc_release(gc, header);
-        } else {
-            cork_gc_possible_root(gc, header);
+        bool  was_busy = gc->busy;
+        gc->busy = true;
+        cork_gc_decref_step(gc, obj, NULL);
+        gc->busy = was_busy;
+        if (!gc->busy && gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
         }
     }
 }
 
 
+/* We don't free any garbage until we're done with the collection, since we might
+ * still reach it via some other garbage. */
+static void
+cork_gc_add_garbage(struct cork_gc *gc, struct cork_gc_header *header)
+{
+    header->next = gc->garbage;
+    gc->garbage = header;
+}
+
 static void
 cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud);
 
@@ -281,24 +302,25 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **prev = &gc->roots;
+    struct cork_gc_header  *header;
+    while ((header = *prev) != NULL) {
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            prev = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *prev = header->next;
+            gc->root_count--;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
-                DEBUG("  Freeing %p\n", header);
-                cork_gc_free(header);
+                cork_gc_add_garbage(gc, header);
             }
         }
     }
@@ -354,12 +376,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -373,8 +392,7 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
+            cork_gc_add_garbage(gc, header);
         }
     }
 }
@@ -382,25 +400,36 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        gc->root_count--;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
+    }
+}
+
+static void
+cork_gc_free_garbage(struct cork_gc *gc)
+{
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
     }
-    gc->root_count = 0;
 }
 
 static void
 cork_gc_collect_cycles(struct cork_gc *gc)
 {
     DEBUG("Collecting garbage cycles\n");
+    gc->busy = true;
     cork_gc_mark_roots(gc);
     cork_gc_scan_roots(gc);
     cork_gc_collect_roots(gc);
+    cork_gc_free_garbage(gc);
+    gc->busy = false;
 }
-- 
2.43.0


From f820234178324a2f6c89d6aaf52eaaab71fe6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 05/44] fix: keep array entries' life cycle straight when
 removing, clearing and copying

---
 src/libcork/ds/array.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..ca180e9 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -88,6 +88,7 @@ void
 cork_raw_array_set_callback_data(struct cork_raw_array *array,
                                  void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(array->priv);
     array->priv->user_data = user_data;
     array->priv->free_user_data = free_user_data;
 }
@@ -128,7 +129,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
@@ -234,9 +235,10 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
-         * directly. */
+    if (array->priv->init == NULL && array->priv->done == NULL &&
+        array->priv->reuse == NULL && array->priv->remove == NULL) {
+        /* If there aren't any callbacks, we don't have to hold on to the removed
+         * entries; just move the array contents directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
         }
@@ -254,7 +256,8 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
 
         /* Then call the cleanup callback on all of the elements to be removed,
          * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
+        while (array->priv->remove != NULL &&
+               start_of_removed < end_of_removed) {
             array->priv->remove(array->priv->user_data, start_of_removed);
             start_of_removed += element_size;
         }
@@ -305,6 +308,8 @@ cork_raw_array_copy(struct cork_raw_array *dest,
         dest->priv->initialized_count = src->size;
     }
 
+    dest->size = src->size;
+
     /* If the caller provided a copy function, let it copy each element in turn.
      * Otherwise, bulk copy everything using memcpy. */
     if (copy == NULL) {
@@ -313,13 +318,17 @@ cork_raw_array_copy(struct cork_raw_array *dest,
         const char  *src_element = src->items;
         dest_element = dest->items;
         for (i = 0; i < src->size; i++) {
-            rii_check(copy(user_data, dest_element, src_element));
+            int  rc = copy(user_data, dest_element, src_element);
+            if (CORK_UNLIKELY(rc != 0)) {
+                /* Don't leave a partial copy behind. */
+                cork_array_clear(dest);
+                return rc;
+            }
             dest_element += dest->priv->element_size;
             src_element += dest->priv->element_size;
         }
     }
 
-    dest->size = src->size;
     return 0;
 }
 
-- 
2.43.0


From dd4ec0e6f0845d19350528006a44d9dc2434def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 06/44] fix: don't corrupt a buffer whose printf parameters
 can't be formatted

---
 src/libcork/ds/buffer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index cf727ac..19639fd 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -110,7 +110,7 @@ void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
 {
-    size_t  format_size;
+    int  format_size;
     va_list  args1;
 
     va_copy(args1, args);
@@ -120,11 +120,19 @@ cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
     va_end(args1);
 
     /* If the first call works, then set buffer->size and return. */
-    if (format_size < (buffer->allocated_size - buffer->size)) {
+    if (format_size >= 0 &&
+        (size_t) format_size < (buffer->allocated_size - buffer->size)) {
         buffer->size += format_size;
         return;
     }
 
+    /* If the parameters can't be formatted, leave the buffer's content as it
+     * was. */
+    if (format_size < 0) {
+        cork_buffer_append(buffer, "", 0);
+        return;
+    }
+
     /* If the first call fails, resize buffer and try again. */
     cork_buffer_ensure_size(buffer, buffer->allocated_size + format_size + 1);
     format_size = vsnprintf(buffer->buf + buffer->size,
-- 
2.43.0


From 8f5861f7e284750b2c8ffa3d5e91249149ab3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:12 +0000
Subject: [PATCH 07/44] fix: refuse slices whose offset and length overflow,
 and set an error for NULL slices

---
 src/libcork/ds/managed-buffer.c |  2 +-
 src/libcork/ds/slice.c          | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..ea6b094 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= (buffer->size - offset))) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..6813f1e 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From 80b24a5a1b3657c1ca07ede29e52d68310fba417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:17 +0000
Subject: [PATCH 08/44] fix: return NULL from recoverable allocations that
 fail, overflow or are empty

---
 include/libcork/core/allocator.h |  6 ++++--
 src/libcork/core/allocator.c     | 22 +++++++++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..7bf9419 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -158,7 +158,9 @@ cork_alloc_xreallocf(const struct cork_alloc *alloc, void *ptr,
 {
     void  *result = alloc->xrealloc(alloc, ptr, old_size, new_size);
     if (result == NULL) {
-        alloc->free(alloc, ptr, old_size);
+        if (ptr != NULL) {
+            alloc->free(alloc, ptr, old_size);
+        }
         return NULL;
     } else {
         return result;
@@ -177,7 +179,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..582b183 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
@@ -311,6 +313,12 @@ static void *
 cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
                            size_t old_size, size_t new_size)
 {
+    /* The standard library is allowed to free `ptr` and return NULL if we ask
+     * for an empty block, which we couldn't tell from a failure. */
+    if (new_size == 0) {
+        new_size = 1;
+    }
+
     /* Technically we don't really need to free `ptr` if the reallocation fails,
      * since we'll abort the process immediately after.  But my sense of
      * cleanliness makes me do it anyway. */
@@ -348,7 +356,8 @@ static void *
 cork_stdlib_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
                             size_t old_size, size_t new_size)
 {
-    return realloc(ptr, new_size);
+    /* See above */
+    return realloc(ptr, (new_size == 0)? 1: new_size);
 }
 
 static void
@@ -393,7 +402,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From 087f373f168b09c8e3d431423a8ccf6e67f3afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 09/44] fix: don't free a removed environment variable twice,
 and format into the current environment

---
 src/libcork/posix/env.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..e21387d 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,15 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    if (env == NULL) {
+        struct cork_buffer  buffer = CORK_BUFFER_INIT();
+        cork_buffer_vprintf(&buffer, format, args);
+        cork_env_add_internal(NULL, name, buffer.buf);
+        cork_buffer_done(&buffer);
+    } else {
+        cork_buffer_vprintf(&env->buffer, format, args);
+        cork_env_add_internal(env, name, env->buffer.buf);
+    }
 }
 
 void
@@ -170,11 +177,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the deleted variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From 866051be9250e7e8db9469107e47adfa031e2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 10/44] fix: refuse IPv4 addresses with an empty octet

---
 src/libcork/core/ip-address.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..ff831ce 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -61,6 +61,10 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 break;
 
             case '.':
+                /* There must be at least one digit in each octet. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
                 /* If this would be the fourth octet, it can't have a trailing
                  * period. */
                 if (CORK_UNLIKELY(octets == 3)) {
-- 
2.43.0


From ff18f587c300edee50573b52b04170dfd1b9b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 11/44] fix: apply the CIDR mask to an IPv6 address in host
 byte order

---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index ff831ce..eb29011 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -456,8 +456,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From 839d21758f92e539e3a885a10013107565007275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 12/44] fix: refuse IPv6 addresses whose double-colon stands
 for nothing

---
 src/libcork/core/ip-address.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index eb29011..4752cb7 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -311,6 +311,10 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
         char  parsed_result[CORK_IPV6_STRING_LENGTH];
 #endif
         unsigned int  after_count = hextets_seen - before_count;
+        /* The double-colon must stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen == 8)) {
+            goto parse_error;
+        }
         DEBUG("Saw double-colon; %u hextets before, %u after\n",
               before_count, after_count);
         memset(addr, 0, sizeof(struct cork_ipv6));
-- 
2.43.0


From 5e7a9a2e905766124c50b54691c4503f9c4a09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:35 +0000
Subject: [PATCH 13/44] fix: apply byte swap macros to whole expressions

---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From bec776bda3f12c3accd6bca8da735f36b821b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 14/44] fix: don't round a timestamp's fraction up to a whole
 second

---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..aa5ae6f 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* The fraction must stay below one second, even if we rounded up. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From f85f190eaf5d62e222ef0bd2e7d9e10553386b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:08 +0000
Subject: [PATCH 15/44] fix: don't let a timestamp format's width overflow

---
 src/libcork/core/timestamp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..6dbf0c8 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -75,8 +75,12 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
 
         /* Then parse the format specifier */
         while (is_digit(*spec)) {
-            width *= 10;
-            width += (*spec++ - '0');
+            /* Any width this large is invalid; don't let it overflow. */
+            if (width < 1000) {
+                width *= 10;
+                width += (*spec - '0');
+            }
+            spec++;
         }
 
         switch (*spec) {
-- 
2.43.0


From 5a578dbda5fc756865cfa2848bf20173c6ec764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 16/44] fix: count managed buffer references atomically

---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index ea6b094..f0d8792 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -15,6 +15,7 @@
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
 #include "libcork/helpers/errors.h"
+#include "libcork/threads/atomics.h"
 
 
 /*-----------------------------------------------------------------------
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From 4ea8de1cf6829765ab3a2c491ef771f474e70c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 17/44] fix: let cleanup functions register others during exit

---
 src/libcork/posix/process.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..52e2f5a 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,7 +56,7 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_dllist_item *item)
 {
     struct cork_cleanup_entry  *entry =
         cork_container_of(item, struct cork_cleanup_entry, item);
@@ -73,7 +73,14 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    /* A cleanup function might register another one (by using errors for the
+     * first time, for instance), so take each entry out of the list before
+     * freeing and calling it. */
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        struct cork_dllist_item  *item = cork_dllist_start(&cleanup_entries);
+        cork_dllist_remove(item);
+        cork_cleanup_call_one(item);
+    }
 }
 
 static void
-- 
2.43.0


From 52ec5a55ff12263cc3a4873c9ce03319b34c95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 18/44] fix: free the error state after every other cleanup
 function

---
 src/libcork/core/error.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..34b51da 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -9,6 +9,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <string.h>
 
@@ -72,7 +73,9 @@ cork_error_list_done(void)
 static void
 cork_error_list_init(void)
 {
-    cork_cleanup_at_exit(0, cork_error_list_done);
+    /* Other cleanup functions might still use the error API, so this has to be
+     * the last one. */
+    cork_cleanup_at_exit(INT_MAX, cork_error_list_done);
 }
 
 
-- 
2.43.0


From efbfc585518e653bd89d943460167c4921e21db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 19/44] fix: give a mode to files that a stream creates

---
 src/libcork/ds/file-stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..8871d18 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -75,7 +75,7 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
                             const char *path, int flags)
 {
     int  fd;
-    rii_check_posix(fd = open(path, flags));
+    rii_check_posix(fd = open(path, flags, 0666));
     ei_check(cork_consume_fd(consumer, fd));
     rii_check_posix(close(fd));
     return 0;
@@ -204,7 +204,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     int  fd;
     struct cork_fd_consumer  *self;
 
-    rpi_check_posix(fd = open(path, flags));
+    rpi_check_posix(fd = open(path, flags, 0666));
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-- 
2.43.0


From c5a4ae14121a8a5bdf36e435e2af354173f9384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:44 +0000
Subject: [PATCH 20/44] fix: don't close a stream's file twice when close is
 interrupted

---
 src/libcork/ds/file-stream.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 8871d18..f9a49c5 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -19,6 +19,18 @@
 
 #define BUFFER_SIZE  4096
 
+/* Don't retry an interrupted close; the descriptor is closed all the same, and
+ * might already belong to someone else. */
+static int
+cork_close_fd(int fd)
+{
+    if (close(fd) == -1 && errno != EINTR) {
+        cork_system_error_set();
+        return -1;
+    }
+    return 0;
+}
+
 
 /*-----------------------------------------------------------------------
  * Producers
@@ -77,11 +89,10 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
     int  fd;
     rii_check_posix(fd = open(path, flags, 0666));
     ei_check(cork_consume_fd(consumer, fd));
-    rii_check_posix(close(fd));
-    return 0;
+    return cork_close_fd(fd);
 
 error:
-    rii_check_posix(close(fd));
+    cork_close_fd(fd);
     return -1;
 }
 
@@ -170,11 +181,9 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 static int
 cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
 {
-    int  rc;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
-    return 0;
+    return cork_close_fd(self->fd);
 }
 
 static void
-- 
2.43.0


From c51e03e347546c95c82943af48d15eb6d4cb32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 21/44] fix: keep a consumer's error when closing the file
 fails too

---
 src/libcork/ds/file-stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index f9a49c5..26110ef 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -92,7 +92,8 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
     return cork_close_fd(fd);
 
 error:
-    cork_close_fd(fd);
+    /* Keep the error that stopped us, even if we can't close the file. */
+    close(fd);
     return -1;
 }
 
-- 
2.43.0


From 8b1a60ffce64c28d486c333d58e0a5ff3e8d0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 22/44] fix: write the same bytes again after an interrupted
 write

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 26110ef..057df38 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -167,9 +167,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 636d79acabcad0e4ac1fab323ff47fa9a5e99acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 23/44] fix: close a path consumer's file when the stream fails

---
 src/libcork/ds/file-stream.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 057df38..e7dc71f 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -186,7 +186,9 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
 {
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    return cork_close_fd(self->fd);
+    int  fd = self->fd;
+    self->fd = -1;
+    return cork_close_fd(fd);
 }
 
 static void
@@ -197,6 +199,18 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* If the stream ended with an error, there was no end-of-stream. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -220,7 +234,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From db868f3cfa7cb78eb2476774de3fbfad51dc0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:18 +0000
Subject: [PATCH 24/44] fix: don't double the separator when the current
 directory is the root

---
 src/libcork/posix/files.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..8c49b7c 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -159,7 +159,10 @@ cork_path_set_absolute(struct cork_path *path)
     ep_check_posix(getcwd(buf.buf, PATH_MAX));
     buf.size = strlen(buf.buf);
 #endif
-    cork_buffer_append(&buf, "/", 1);
+    /* The root directory already ends in a separator. */
+    if (cork_buffer_char(&buf, buf.size - 1) != '/') {
+        cork_buffer_append(&buf, "/", 1);
+    }
     cork_buffer_append_copy(&buf, &path->given);
     cork_buffer_done(&path->given);
     path->given = buf;
-- 
2.43.0


From c5eb411e3811c971588b2d985c98ddd262ed82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:41 +0000
Subject: [PATCH 25/44] fix: give an empty path list an empty string

---
 src/libcork/posix/files.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 8c49b7c..e160b4c 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -299,6 +299,7 @@ cork_path_list_new_empty(void)
     struct cork_path_list  *list = cork_new(struct cork_path_list);
     cork_array_init(&list->array);
     cork_buffer_init(&list->string);
+    cork_buffer_set_string(&list->string, "");
     return list;
 }
 
-- 
2.43.0


From 6c59c58b162bab88089fa4c7c4163a1d10097d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:22 +0000
Subject: [PATCH 26/44] fix: clone an environment that clearenv emptied

---
 src/libcork/posix/env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index e21387d..7b61321 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,7 +100,7 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
-    for (curr = environ; *curr != NULL; curr++) {
+    for (curr = environ; curr != NULL && *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
 
-- 
2.43.0


From 69d27618e35869c9357c8d19c458931fd43edab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:22 +0000
Subject: [PATCH 27/44] fix: a failed exec doesn't add a parameter

---
 src/libcork/posix/exec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 11d08f1..13e7554 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -166,10 +166,13 @@ int
 cork_exec_run(struct cork_exec *exec)
 {
     const char  **params;
+    size_t  param_count = cork_array_size(&exec->params);
 
-    /* Make sure the parameter array is NULL-terminated. */
-    cork_array_append(&exec->params, NULL);
+    /* Make sure the parameter array is NULL-terminated.  The terminator isn't a
+     * parameter itself, since we might have to return to the caller. */
+    cork_array_ensure_size(&exec->params, param_count + 1);
     params = cork_array_elements(&exec->params);
+    params[param_count] = NULL;
 
     /* Fill in the requested environment */
     if (exec->env != NULL) {
-- 
2.43.0


From bf813227332b4c74a1873e6b0a4ab8c52f48c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 28/44] fix: don't answer questions about a file from a stale
 stat

---
 src/libcork/posix/files.c | 56 +++++++++++++++------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index e160b4c..6828f0d 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -379,14 +379,12 @@ struct cork_file {
     struct cork_path  *path;
     struct stat  stat;
     enum cork_file_type  type;
-    bool  has_stat;
 };
 
 static void
 cork_file_init(struct cork_file *file, struct cork_path *path)
 {
     file->path = path;
-    file->has_stat = false;
 }
 
 struct cork_file *
@@ -403,12 +401,6 @@ cork_file_new_from_path(struct cork_path *path)
     return file;
 }
 
-static void
-cork_file_reset(struct cork_file *file)
-{
-    file->has_stat = false;
-}
-
 static void
 cork_file_done(struct cork_file *file)
 {
@@ -428,39 +420,35 @@ cork_file_path(struct cork_file *file)
     return file->path;
 }
 
+/* We always ask the filesystem, since the file might have changed since the last
+ * time we looked. */
 static int
 cork_file_stat(struct cork_file *file)
 {
-    if (file->has_stat) {
-        return 0;
-    } else {
-        int  rc;
-        rc = stat(cork_path_get(file->path), &file->stat);
-
-        if (rc == -1) {
-            if (errno == ENOENT || errno == ENOTDIR) {
-                file->type = CORK_FILE_MISSING;
-                file->has_stat = true;
-                return 0;
-            } else {
-                cork_system_error_set();
-                return -1;
-            }
-        }
+    int  rc;
+    rc = stat(cork_path_get(file->path), &file->stat);
 
-        if (S_ISREG(file->stat.st_mode)) {
-            file->type = CORK_FILE_REGULAR;
-        } else if (S_ISDIR(file->stat.st_mode)) {
-            file->type = CORK_FILE_DIRECTORY;
-        } else if (S_ISLNK(file->stat.st_mode)) {
-            file->type = CORK_FILE_SYMLINK;
+    if (rc == -1) {
+        if (errno == ENOENT || errno == ENOTDIR) {
+            file->type = CORK_FILE_MISSING;
+            return 0;
         } else {
-            file->type = CORK_FILE_UNKNOWN;
+            cork_system_error_set();
+            return -1;
         }
+    }
 
-        file->has_stat = true;
-        return 0;
+    if (S_ISREG(file->stat.st_mode)) {
+        file->type = CORK_FILE_REGULAR;
+    } else if (S_ISDIR(file->stat.st_mode)) {
+        file->type = CORK_FILE_DIRECTORY;
+    } else if (S_ISLNK(file->stat.st_mode)) {
+        file->type = CORK_FILE_SYMLINK;
+    } else {
+        file->type = CORK_FILE_UNKNOWN;
     }
+
+    return 0;
 }
 
 int
@@ -541,14 +529,12 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(cork_file_stat(&child_file));
 
         /* If the entry is a subdirectory, recurse into it. */
         ei_check(iterator(&child_file, entry->d_name, user_data));
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
-        cork_file_reset(&child_file);
 
         /* We have to reset errno to 0 because of the ambiguous way readdir uses
          * a return value of NULL.  Other functions may return normally yet set
-- 
2.43.0


From 51933c09044eb2600c14f2af53b31e88864003bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 29/44] fix: remove a symbolic link, not what it points to

---
 src/libcork/posix/files.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 6828f0d..2171a74 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -630,17 +630,23 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
+
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    /* Don't follow symbolic links: we have to remove the link, and not whatever
+     * it refers to. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if ((errno == ENOENT || errno == ENOTDIR) &&
+            (flags & CORK_FILE_PERMISSIVE)) {
             return 0;
         } else {
-            cork_system_error_set_explicit(ENOENT);
+            cork_system_error_set();
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    }
+
+    if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 98aef24781c7b35033f87ee51b555704cb7195bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 30/44] fix: report a failed unlink

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 2171a74..4248b1c 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -657,7 +657,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From 2859a15518bbeac373d0883e4a3d98ff70ed1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 31/44] fix: recursively create a directory named with a
 trailing slash

---
 src/libcork/posix/files.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4248b1c..7a40e60 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -603,6 +603,13 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
                 (&parent_file, mode, flags | CORK_FILE_PERMISSIVE);
             cork_file_done(&parent_file);
             rii_check(rc);
+
+            /* If the path ends with a slash, or a "." or ".." component, then
+             * creating the parent has created this directory, too. */
+            rii_check(cork_file_stat(file));
+            if (file->type == CORK_FILE_DIRECTORY) {
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From dad8ecf5e8e548f88d0c7574e4a034d08088fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 32/44] fix: don't close a directory twice when closedir is
 interrupted

---
 src/libcork/posix/directory-walker.c | 8 ++++++--
 src/libcork/posix/files.c            | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..f07507c 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -90,12 +90,16 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
     /* Remove the trailing '/' from the path buffer. */
     cork_buffer_truncate(path, dir_path_size - 1);
-    rii_check_posix(closedir(dir));
+    /* Don't retry if we're interrupted; the directory is closed either way. */
+    if (closedir(dir) == -1 && errno != EINTR) {
+        cork_system_error_set();
+        return -1;
+    }
     return 0;
 
 error:
     if (dir != NULL) {
-        rii_check_posix(closedir(dir));
+        closedir(dir);
     }
     return -1;
 }
diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 7a40e60..3152593 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -554,12 +554,16 @@ cork_file_iterate_directory(struct cork_file *file,
     }
 
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    /* Don't retry if we're interrupted; the directory is closed either way. */
+    if (closedir(dir) == -1 && errno != EINTR) {
+        cork_system_error_set();
+        return -1;
+    }
     return 0;
 
 error:
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    closedir(dir);
     return -1;
 }
 
-- 
2.43.0


From b14aa61f1bcda6f993c122d3d4a8ec1f16c96ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:37 +0000
Subject: [PATCH 33/44] fix: walk the root directory

---
 src/libcork/posix/directory-walker.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index f07507c..f508d32 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -32,7 +32,8 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     struct dirent  *entry;
     size_t  dir_path_size;
 
-    rip_check_posix(dir = opendir(path->buf));
+    /* The buffer doesn't have a trailing "/", so it's empty for the root. */
+    rip_check_posix(dir = opendir(path->size == 0? "/": (char *) path->buf));
 
     cork_buffer_append(path, "/", 1);
     dir_path_size = path->size;
@@ -114,8 +115,13 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
     /* Seed the buffer with the directory's path, ensuring that there's no
      * trailing '/' */
     cork_buffer_append_string(&buf, path);
+    if (buf.size == 0) {
+        cork_system_error_set_explicit(ENOENT);
+        cork_buffer_done(&buf);
+        return -1;
+    }
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 0 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-- 
2.43.0


From c742e5f7807f909acc0d5742dffc4f354da79b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:49 +0000
Subject: [PATCH 34/44] fix: return the iterator's result from
 cork_file_iterate_directory

---
 src/libcork/posix/files.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 3152593..26c4e25 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -514,6 +514,7 @@ cork_file_iterate_directory(struct cork_file *file,
     size_t  dir_path_size;
     struct cork_path  *child_path;
     struct cork_file  child_file;
+    int  rc = -1;
 
     rip_check_posix(dir = opendir(cork_path_get(file->path)));
     child_path = cork_path_clone(file->path);
@@ -531,7 +532,10 @@ cork_file_iterate_directory(struct cork_file *file,
         cork_path_append(child_path, entry->d_name);
 
         /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        rc = iterator(&child_file, entry->d_name, user_data);
+        if (CORK_UNLIKELY(rc != 0)) {
+            goto error;
+        }
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -550,6 +554,7 @@ cork_file_iterate_directory(struct cork_file *file,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -564,7 +569,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     closedir(dir);
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 91b4259b1af5ce2428782cad0b2b29f1a1c8fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:49 +0000
Subject: [PATCH 35/44] fix: return the walker's result, and stop when
 enter_directory fails

---
 src/libcork/posix/directory-walker.c | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index f508d32..9f56848 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -31,6 +31,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
+    int  rc = -1;
 
     /* The buffer doesn't have a trailing "/", so it's empty for the root. */
     rip_check_posix(dir = opendir(path->size == 0? "/": (char *) path->buf));
@@ -49,23 +50,35 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
+        rc = -1;
         ei_check_posix(stat(path->buf, &info));
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
-            if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
-                         (w, path->buf, path->buf + root_path_size,
-                          path->buf + dir_path_size));
+            if (rc == 0) {
+                rc = cork_walk_one_directory(w, path, root_path_size);
+                if (rc != 0) {
+                    goto error;
+                }
+                rc = cork_dir_walker_leave_directory
+                    (w, path->buf, path->buf + root_path_size,
+                     path->buf + dir_path_size);
+                if (rc != 0) {
+                    goto error;
+                }
+            } else if (rc != CORK_SKIP_DIRECTORY) {
+                goto error;
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
-                     (w, path->buf, path->buf + root_path_size,
-                      path->buf + dir_path_size));
+            rc = cork_dir_walker_file
+                (w, path->buf, path->buf + root_path_size,
+                 path->buf + dir_path_size);
+            if (rc != 0) {
+                goto error;
+            }
         }
 
         /* Remove this entry name from the path buffer. */
@@ -86,6 +99,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -102,7 +116,7 @@ error:
     if (dir != NULL) {
         closedir(dir);
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From 5eaeb45d24a7d106c0955253730420fd2f7f20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:49 +0000
Subject: [PATCH 36/44] fix: make subprocess output pipes non-blocking

---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..6d7de01 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From 79072eb4d8d1461db94f67085a552a8a76f7e706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:12 +0000
Subject: [PATCH 37/44] fix: don't report success for a subprocess killed by a
 signal

---
 src/libcork/posix/subprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6d7de01..891094f 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -467,7 +467,10 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
         *progress = true;
         self->pid = 0;
         if (self->exit_code != NULL) {
-            *self->exit_code = WEXITSTATUS(status);
+            /* Follow the shell's convention for a process killed by a signal,
+             * which must not look like a successful exit. */
+            *self->exit_code = WIFSIGNALED(status)?
+                128 + WTERMSIG(status): WEXITSTATUS(status);
         }
     }
     return 0;
-- 
2.43.0


From 115928020c83e5e3cb5379f562d1a8033b926ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 38/44] fix: initialize the progress of cork_subprocess_drain

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 891094f..4b9d36e 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -552,7 +552,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From ab78386fd862dce6440135de2307ff03f3dc88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:58 +0000
Subject: [PATCH 39/44] fix: write all of the data to a subprocess's stdin

---
 src/libcork/posix/subprocess.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 4b9d36e..01ac0e7 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -243,7 +243,13 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *curr = buf;
+    while (size > 0) {
+        ssize_t  bytes_written;
+        rii_check_posix(bytes_written = write(p->fds[1], curr, size));
+        curr += bytes_written;
+        size -= bytes_written;
+    }
     return 0;
 }
 
-- 
2.43.0


From ab31b510b33a844df6c606c36408f0b551d0c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:39 +0000
Subject: [PATCH 40/44] fix: don't leak subprocess pipes into executed programs

---
 src/libcork/posix/subprocess.c | 38 ++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 01ac0e7..6ce8e1a 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -70,6 +70,34 @@ cork_subprocess_group_add(struct cork_subprocess_group *group,
 }
 
 
+/*-----------------------------------------------------------------------
+ * Pipes
+ */
+
+/* Our pipes must not leak into any program that we execute (in this subprocess
+ * or any other): the reading end of a pipe doesn't see an end-of-file until
+ * every copy of its writing end is closed. */
+static int
+cork_pipe_set_cloexec(int *fds)
+{
+    rii_check_posix(fcntl(fds[0], F_SETFD, FD_CLOEXEC));
+    rii_check_posix(fcntl(fds[1], F_SETFD, FD_CLOEXEC));
+    return 0;
+}
+
+/* The new descriptor isn't closed when we execute a program. */
+static int
+cork_pipe_dup(int old_fd, int new_fd)
+{
+    if (old_fd == new_fd) {
+        rii_check_posix(fcntl(new_fd, F_SETFD, 0));
+    } else {
+        rii_check_posix(dup2(old_fd, new_fd));
+    }
+    return 0;
+}
+
+
 /*-----------------------------------------------------------------------
  * Pipes (parent reads)
  */
@@ -133,6 +161,7 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         DEBUG("[read] Opening pipe\n");
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
+        ei_check(cork_pipe_set_cloexec(p->fds));
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
         ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
@@ -151,7 +180,7 @@ static int
 cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 {
     if (p->fds[1] != -1) {
-        rii_check_posix(dup2(p->fds[1], fd));
+        rii_check(cork_pipe_dup(p->fds[1], fd));
     }
     return 0;
 }
@@ -295,14 +324,19 @@ cork_write_pipe_open(struct cork_write_pipe *p)
     DEBUG("[write] Opening writer pipe\n");
     rii_check_posix(pipe(p->fds));
     DEBUG("[write]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
+    ei_check(cork_pipe_set_cloexec(p->fds));
     return 0;
+
+error:
+    cork_write_pipe_close(p);
+    return -1;
 }
 
 static int
 cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
 {
     if (p->fds[0] != -1) {
-        rii_check_posix(dup2(p->fds[0], fd));
+        rii_check(cork_pipe_dup(p->fds[0], fd));
     }
     return 0;
 }
-- 
2.43.0


From ccc2ba644b1da82c53f2be67d5b0e6f966b58403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 41/44] fix: don't leak a subprocess's pipes into the rest of
 its group

---
 src/libcork/posix/subprocess.c | 39 ++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6ce8e1a..821b6a0 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -429,8 +429,19 @@ cork_subprocess_new_exec(struct cork_exec *exec,
  * Running subprocesses
  */
 
-int
-cork_subprocess_start(struct cork_subprocess *self)
+/* The parent's ends of another subprocess's pipes are none of our business. */
+static void
+cork_subprocess_close_parent_ends(struct cork_subprocess *self)
+{
+    cork_write_pipe_close_write(&self->stdin_pipe);
+    cork_read_pipe_close_read(&self->stdout_pipe);
+    cork_read_pipe_close_read(&self->stderr_pipe);
+}
+
+/* group can be NULL */
+static int
+cork_subprocess_start_in_group(struct cork_subprocess *self,
+                               struct cork_subprocess_group *group)
 {
     pid_t  pid;
 
@@ -455,13 +466,17 @@ cork_subprocess_start(struct cork_subprocess *self)
         /* Child process */
         int  rc;
 
-        /* Close the parent's end of the pipes */
-        DEBUG("[child] ");
-        cork_write_pipe_close_write(&self->stdin_pipe);
+        /* Close the parent's end of the pipes, including the pipes of the other
+         * subprocesses in the group. */
         DEBUG("[child] ");
-        cork_read_pipe_close_read(&self->stdout_pipe);
-        DEBUG("[child] ");
-        cork_read_pipe_close_read(&self->stderr_pipe);
+        cork_subprocess_close_parent_ends(self);
+        if (group != NULL) {
+            size_t  i;
+            for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
+                cork_subprocess_close_parent_ends
+                    (cork_array_at(&group->subprocesses, i));
+            }
+        }
 
         /* Bind the stdout and stderr pipes */
         if (cork_write_pipe_dup(&self->stdin_pipe, STDIN_FILENO) == -1) {
@@ -497,6 +512,12 @@ cork_subprocess_start(struct cork_subprocess *self)
     }
 }
 
+int
+cork_subprocess_start(struct cork_subprocess *self)
+{
+    return cork_subprocess_start_in_group(self, NULL);
+}
+
 static int
 cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
@@ -636,7 +657,7 @@ cork_subprocess_group_start(struct cork_subprocess_group *group)
     /* Start each subprocess. */
     for (i = 0; i < cork_array_size(&group->subprocesses); i++) {
         struct cork_subprocess  *sub = cork_array_at(&group->subprocesses, i);
-        ei_check(cork_subprocess_start(sub));
+        ei_check(cork_subprocess_start_in_group(sub, group));
     }
     return 0;
 
-- 
2.43.0


From 655e157d54b05bf29882faaaf301fb1a8976a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 42/44] fix: terminate the remaining subprocesses when draining
 fails

---
 src/libcork/posix/subprocess.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 821b6a0..0261b37 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -614,8 +614,12 @@ bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
     bool  progress = false;
-    cork_subprocess_drain_(self, &progress);
+    ei_check(cork_subprocess_drain_(self, &progress));
     return progress;
+
+error:
+    cork_subprocess_abort(self);
+    return false;
 }
 
 int
@@ -625,12 +629,16 @@ cork_subprocess_wait(struct cork_subprocess *self)
     bool  progress;
     while (!cork_subprocess_is_finished(self)) {
         progress = false;
-        rii_check(cork_subprocess_drain_(self, &progress));
+        ei_check(cork_subprocess_drain_(self, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_abort(self);
+    return -1;
 }
 
 
@@ -705,8 +713,12 @@ bool
 cork_subprocess_group_drain(struct cork_subprocess_group *group)
 {
     bool  progress = false;
-    cork_subprocess_group_drain_(group, &progress);
+    ei_check(cork_subprocess_group_drain_(group, &progress));
     return progress;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return false;
 }
 
 int
@@ -717,10 +729,14 @@ cork_subprocess_group_wait(struct cork_subprocess_group *group)
     DEBUG("Waiting for subprocess group to finish\n");
     while (!cork_subprocess_group_is_finished(group)) {
         progress = false;
-        rii_check(cork_subprocess_group_drain_(group, &progress));
+        ei_check(cork_subprocess_group_drain_(group, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return -1;
 }
-- 
2.43.0


From c60ce82273aedf69cf83e9c917a7b383d55b2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:37 +0000
Subject: [PATCH 43/44] fix: verify a block's size before the debugging
 allocator copies it

---
 src/libcork/core/allocator.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 582b183..e755448 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -414,6 +414,23 @@ cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
     return base + 1;
 }
 
+static void *
+cork_debug_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
+                           size_t expected_size, size_t new_size)
+{
+    /* Verify the old size before we use it to copy the old contents. */
+    if (ptr != NULL) {
+        size_t  actual_size = ((size_t *) ptr)[-1];
+        if (CORK_UNLIKELY(actual_size != expected_size)) {
+            cork_abort
+                ("Incorrect size when reallocating pointer "
+                 "(got %zu, expected %zu)",
+                 expected_size, actual_size);
+        }
+    }
+    return cork_alloc__default_xrealloc(alloc, ptr, expected_size, new_size);
+}
+
 static void
 cork_debug_alloc__free(const struct cork_alloc *alloc, void *ptr,
                        size_t expected_size)
@@ -434,6 +451,7 @@ cork_debug_alloc_new(const struct cork_alloc *parent)
 {
     struct cork_alloc  *debug = cork_alloc_new_alloc(parent);
     cork_alloc_set_xmalloc(debug, cork_debug_alloc__xmalloc);
+    cork_alloc_set_xrealloc(debug, cork_debug_alloc__xrealloc);
     cork_alloc_set_free(debug, cork_debug_alloc__free);
     return debug;
 }
-- 
2.43.0


From 8c33d7456d064b0f2d3ce393ebb9ac2c1789db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:12 +0000
Subject: [PATCH 44/44] fix: free a hash table's user data when it's replaced

---
 src/libcork/ds/hash-table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 3b34373..9ecc264 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -208,6 +208,7 @@ void
 cork_hash_table_set_user_data(struct cork_hash_table *table,
                               void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(table);
     table->user_data = user_data;
     table->free_user_data = free_user_data;
 }
-- 
2.43.0

