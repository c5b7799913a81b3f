From 472252680b551bc08c8e16ff41163487ecbe2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 01/41] fix: embc_list_contains returned the inverted result

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..6c8db28 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 701ec2190d6458640223799f9f60e68c7ebda324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 02/41] fix: embc_list_append of an empty list corrupted the
 target list

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 6c8db28..a168f7b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From cb4d34a032d9d5fb0f2f967136f47d8d5bac7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 03/41] fix: embc_list_foreach_reverse_unsafe did not compile

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index a168f7b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From fee38060685467f57d2a72e76e46921dab2384c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 04/41] fix: log level name table missed separators, shifting
 the names after NOTICE

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 10434d24b658f1171bd98e8a31337ba680debf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 05/41] fix: EMBC_LOG_ALERT did not compile

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From 9b4212e483cd37e2f1b742641b17f6f3f5003079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 06/41] fix: pattern receiver duplicate_count was uninitialized
 and overwritten by each resync

---
 src/pattern_32a.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
@@ -183,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
@@ -206,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From 9aeb68516a9c1214a048cb1325a29b68d8d4eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 07/41] fix: embc_buffer_write_str rejected strings that fill
 the buffer exactly and could cut existing data

---
 src/memory/buffer.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..570b4cb 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -228,17 +228,13 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
     EMBC_DBC_NOT_NULL(buffer);
     EMBC_DBC_NOT_NULL(str);
     uint16_t capacity = buffer->capacity - buffer->reserve;
-    while (buffer->cursor < capacity) {
-        if (*str == 0) {
-            write_update_length(buffer);
-            return true;
-        }
+    while ((*str != 0) && (buffer->cursor < capacity)) {
         buffer->data[buffer->cursor] = *str;
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From 534b905de54f73a67372b34d185e6b0a9c393ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 08/41] fix: embc_buffer_alloc accepted sizes above the largest
 pool and used memory past the pools

---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 570b4cb..d5b8c01 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 2fde93bd79d7516fc918d240b68b0614fcf5df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 09/41] fix: EMBC_BUFFER_STATIC_INITIALIZE left reserve
 uninitialized

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 549486ef11253d58a7ac3e1ef3e4714f6ca94b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 10/41] fix: block allocator treated a free block as used when
 a later block of its byte was used

---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From 87b78c8a111d0fbeb0e2ed33305a6143f6ddcd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 11/41] fix: block allocator returned a single block for sizes
 near INT32_MAX

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..f6312be 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size / s->block_size) + ((size % s->block_size) ? 1 : 0);
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From ac8108747d4542fb692025c5dafc4eef840625d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 12/41] fix: embc_mblock_free read and cleared bits past the
 allocator for ranges past its end

---
 src/memory/block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memory/block.c b/src/memory/block.c
index f6312be..89f6e6f 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -93,6 +93,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     EMBC_ASSERT(b < (s->mem + s->mem_size));
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
+    EMBC_ASSERT(blocks <= (s->block_count - idx_start));  // within the memory
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
         int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
-- 
2.43.0


From 44d78826b1d63ee5cc3c3f68643afb4161d5fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:47 +0000
Subject: [PATCH 13/41] fix: intmap resize dropped colliding entries and leaked
 the old table

---
 src/collections/intmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,11 +109,12 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From c2bbc46f34aa4d8e63212967147b3577b0fd970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 14/41] fix: intmap iterator never reported the end after an
 entry in the last bin

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..c20c24a 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -207,6 +207,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             return;
         } else {
             self->current_bin += 1;
+            self->next_item = 0;
         }
     }
     while (self->current_bin <= self->intmap->hash_mask) {
-- 
2.43.0


From 0da68899ee80ef9ffce4b88e2f7bf4a8c6dae145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 15/41] fix: embc_intmap_remove leaked the removed entry

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index c20c24a..2ef3737 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From fea0205db87e26621d92cac95850731963165a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 16/41] fix: typed intmap wrappers leaked the map and iterator
 instances

---
 include/embc/collections/intmap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..210889c 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,12 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        if (self) { \
+            embc_intmap_free(self->intmap); \
+            free(self); \
+        } \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -199,7 +204,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         return embc_intmap_iterator_next(self->iter, key, (void *) value); \
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
-        embc_intmap_iterator_free(self->iter); \
+        if (self) { \
+            embc_intmap_iterator_free(self->iter); \
+            free(self); \
+        } \
     }
 
 /** @} */
-- 
2.43.0


From 261e124acefc88db7abd3315259391d13471c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 17/41] fix: embc_hashmap_free leaked the table and entries

---
 src/collections/hashmap.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..61f1f84 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,18 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        embc_size_t idx;
+        struct entry_s * item;
+        struct entry_s * next_item;
+        for (idx = 0; idx <= self->hashtable_mask; ++idx) {
+            item = self->hashtable[idx];
+            while (item) {
+                next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From b00758582b4d2fc2e9a06a27ed8d031b6013fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 18/41] fix: strmap hash overflowed a signed integer for long
 keys

---
 src/collections/strmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collections/strmap.c b/src/collections/strmap.c
index ccf63d4..3ef41c7 100644
--- a/src/collections/strmap.c
+++ b/src/collections/strmap.c
@@ -78,7 +78,7 @@ embc_size_t embc_strmap_length(struct embc_strmap_s *self) {
 
 // djb2: http://www.cse.yorku.ca/~oz/hash.html
 static embc_size_t compute_hash(const char * key) {
-    embc_size_t hash = 5381;
+    uintptr_t hash = 5381;  // unsigned: long keys wrap
     int c;
 
     while (1) {
@@ -89,7 +89,7 @@ static embc_size_t compute_hash(const char * key) {
         hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
     }
 
-    return hash;
+    return (embc_size_t) hash;
 }
 
 static bool is_key_equiv(const char * key1, const char * key2) {
-- 
2.43.0


From ada2b107ca5b60491c93c43be318b99d56d201c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 19/41] fix: embc_evm_free leaked every event

---
 src/event_manager.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..966aad2 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,18 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * events) {
+    while (!embc_list_is_empty(events)) {
+        free(EVGET(embc_list_remove_head(events)));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From deb4f369064dc4b2b238a637774a524f731bc34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 20/41] fix: embc_evm_schedule did not ignore timestamps <= 0
 as documented

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 966aad2..2fa79fe 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -62,6 +62,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From 015f869046abb6eb1d9fededecd6a4715d629b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 21/41] fix: embc_evm_process corrupted its lists when a
 callback cancelled the next event

---
 src/event_manager.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index 2fa79fe..9fddf6c 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -22,6 +22,7 @@
 
 struct event_s {
     int32_t event_id;
+    uint32_t process_id;    // value of embc_evm_s.process_id when scheduled
     int64_t timestamp;
     embc_evm_callback cbk_fn;
     void * cbk_user_data;
@@ -32,6 +33,7 @@ struct event_s {
 
 struct embc_evm_s {
     int32_t event_counter;
+    uint32_t process_id;    // incremented by each embc_evm_process()
     struct embc_list_s events_pending;
     struct embc_list_s events_free;
 };
@@ -73,6 +75,7 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
     } else {
         ev = EVGET(embc_list_remove_head(&self->events_free));
     }
+    ev->process_id = self->process_id;
     ev->timestamp = timestamp;
     ev->cbk_fn = cbk_fn;
     ev->cbk_user_data = cbk_user_data;
@@ -123,18 +126,31 @@ int64_t embc_evm_interval_next(struct embc_evm_s * self, int64_t time_current) {
     }
 }
 
-int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
+// Get the first due event that was not scheduled during this process call.
+static struct event_s * event_due(struct embc_evm_s * self, int64_t time_current, uint32_t process_id) {
     struct embc_list_s * node;
     struct event_s * ev;
-    int32_t count = 0;
     embc_list_foreach(&self->events_pending, node) {
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
         }
-        embc_list_remove(node);
+        if (ev->process_id != process_id) {
+            return ev;
+        }
+    }
+    return 0;
+}
+
+int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
+    struct event_s * ev;
+    int32_t count = 0;
+    uint32_t process_id = ++self->process_id;
+    // The callback may schedule and cancel events: start over after each one.
+    while (0 != (ev = event_due(self, time_current, process_id))) {
+        embc_list_remove(&ev->node);
         ev->cbk_fn(ev->cbk_user_data, ev->event_id);
-        embc_list_add_tail(&self->events_free, node);
+        embc_list_add_tail(&self->events_free, &ev->node);
         ++count;
     }
     return count;
-- 
2.43.0


From c7e7dee6cb22267f08f12c7706a8125f9f7f2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 22/41] fix: cli executed the start of an overlong line when it
 contained extra whitespace

---
 src/cli.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..64e3571 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,9 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            self->cmdlen = EMBC_CLI_LINE_LENGTH;
+            self->cmdline[self->cmdlen] = '\0';
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From 6ae8fa3e7520f8e7fbd674b321d7221bb9df7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 23/41] fix: cli execute_args handlers got the cli instance
 instead of their execute_cookie

---
 src/cli.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 64e3571..8c59c72 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -152,7 +152,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -172,10 +174,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     EMBC_DBC_NOT_NULL(self);
     embc_memset(self->cmdline, 0, sizeof(self->cmdline));
     self->cmdlen = 0;
-    if (self->execute_args) {
-        self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
-    }
     print_prompt(self);
 }
 
-- 
2.43.0


From 74e882bec59a85a79823a9399797a748e7d7d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 24/41] fix: embc_cli_line_parser read past the end of the
 given text

---
 src/cli.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 8c59c72..557a750 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -222,8 +222,11 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_size_t length = (embc_size_t) strlen(cmdline);
+    if (length >= (embc_size_t) sizeof(line)) {
+        return EMBC_CLI_ERROR_PARAMETER_VALUE;
+    }
+    embc_memcpy(line, cmdline, length + 1);
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From 85dd7508724578fda2cb705de8ccf3761e9355fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 25/41] fix: text to integer conversions accepted values that
 do not fit and missing digits

---
 src/cstr.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..fba04a5 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -105,6 +105,9 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
         // hex string
         uint32_t nibble;
         src += 2;
+        if (!*src || _isspace((uint8_t) *src)) { // no digits
+            return 1;
+        }
         while (*src) {
             char c = *src;
             if ((c >= '0') && (c <= '9')) {
@@ -116,12 +119,19 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
+            if (v >> 28) { // does not fit
+                return 1;
+            }
             v = v * 16 + nibble;
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            uint32_t digit = *src - '0';
+            if (v > ((UINT32_MAX - digit) / 10)) { // does not fit
+                return 1;
+            }
+            v = v * 10 + digit;
             ++src;
         }
     }
@@ -153,14 +163,17 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
         ++src;
     }
 
+    if (_isspace((uint8_t) *src)) { // sign without number
+        return 1;
+    }
     int rc = embc_cstr_to_u32(src, &v);
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
-    if (neg) {
-        *value = -*value;
+    if (v > ((uint32_t) INT32_MAX + neg)) { // does not fit
+        return 1;
     }
+    *value = neg ? (int32_t) -((int64_t) v) : (int32_t) v;
     return 0;
 }
 
-- 
2.43.0


From 4f052c1f73d132face7dc44812bb8b11baa2dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 26/41] fix: embc_cstr_to_i32s rejected trailing spaces,
 accepted malformed text and overflowed

---
 src/cstr.c | 59 ++++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index fba04a5..798e060 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -178,12 +178,13 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
 }
 
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    int64_t v = 0;
+    int digits = 0;
     int32_t decimal = -1;  // still on integer part
     int neg = 0;
 
     if (!src) {
-        return 0;
+        return 1;
     }
     if (exponent < 0) {
         return -1;
@@ -200,54 +201,50 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         ++src;
     }
 
-    while (decimal < exponent) {
-        if (*src == '.') {
+    int64_t const limit = (int64_t) INT32_MAX + neg;
+
+    while (1) {
+        if ((*src == '.') && (decimal < 0)) {
             decimal = 0;
-            ++src;
-            continue;
-        }
-        if ((*src == 0) || (*src == ',')) {
-            if (decimal < 0) {
-                break;
-            } else {
-                v *= 10;
-                ++decimal;
+        } else if ((*src >= '0') && (*src <= '9')) {
+            digits = 1;
+            if (decimal < exponent) { // discard extra digits
+                v = v * 10 + (*src - '0');
+                if (v > limit) { // does not fit
+                    return 1;
+                }
+                if (decimal >= 0) {
+                    ++decimal;
+                }
             }
         } else {
-            if (decimal >= 0) {
-                ++decimal;
-            }
-            v *= 10;
-            if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
-            } else {
-                return 1;
-            }
-            ++src;
+            break;
         }
+        ++src;
     }
 
-    while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
-            return 1;
-        }
+    while (*src && _isspace((uint8_t) *src)) {
         ++src;
     }
+    if (*src || !digits) { // did not parse full string
+        return 1;
+    }
 
     if (decimal < 0) {
         decimal = 0;
     }
-    while (decimal < exponent) {
+    while (v && (decimal < exponent)) {
         v *= 10;
+        if (v > limit) { // does not fit
+            return 1;
+        }
         ++decimal;
     }
     if (neg) {
         v = -v;
     }
     if (value) {
-        *value = v;
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From ada21e2da60cff035c1691d2af78e3e087ec587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 27/41] fix: stream source kept sending and completed twice
 after an abort or a failed write

---
 src/stream/async_source.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..2d336d3 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -17,6 +17,16 @@
 #include "embc/stream/async_source.h"
 #include "embc.h"
 
+static void close_with_status(struct embc_stream_source_s * s,
+                              struct embc_stream_transaction_s * transaction,
+                              uint8_t status) {
+    s->tx_offset = s->source_length;
+    s->rx_offset = s->source_length;
+    transaction->type = EMBC_STREAM_IOCTL_CLOSE;
+    transaction->status = status;
+    s->consumer->send(s->consumer, transaction);
+}
+
 static void send(struct embc_stream_producer_s * self,
                  struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
@@ -30,6 +40,13 @@ static void send(struct embc_stream_producer_s * self,
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (s->rx_offset >= s->source_length) {
+                break;  // already closing
+            }
+            if (transaction->status) {
+                close_with_status(s, transaction, transaction->status);
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
                 EMBC_STRUCT_PTR_INIT(transaction);
@@ -67,9 +84,10 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
-            transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-            transaction->status = EMBC_ERROR_ABORTED;
-            s->consumer->send(s->consumer, transaction);
+            if (s->source_length && (s->rx_offset >= s->source_length)) {
+                break;  // already closing
+            }
+            close_with_status(s, transaction, EMBC_ERROR_ABORTED);
             break;
         default:
             break;
-- 
2.43.0


From 31082d4370730c8b7b5f31dc5d31d5edf34bbbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 28/41] fix: stream sink reported success for a write that
 overflowed its buffer

---
 src/stream/async_sink.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..e0648f3 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -70,6 +70,7 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->dst_buffer) {
                 if (s->dst_length < (s->offset + transaction->length)) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
-- 
2.43.0


From 0b00b5281e8aec156b4086726bc0f44508bf9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 29/41] fix: stream sink stayed open after close and requested
 data without an open

---
 src/stream/async_sink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index e0648f3..49b4bc9 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -82,7 +82,7 @@ static void send(struct embc_stream_consumer_s * self,
             send_write_request(s);
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From f47f67316a9215fbe05b6ad98fa8bd8d7dc4f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 30/41] fix: stream source ignored the mtu of a write request

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 2d336d3..f6ecfde 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -62,6 +62,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -69,6 +70,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From b13be5c6a3b5872f30c38f363f758ae6b9139abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 31/41] fix: framer resync skipped the byte after a recovered
 frame and asserted on an empty remainder

---
 src/stream/framer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..004de26 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -780,6 +780,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     uint16_t sz = count;
     uint16_t i = 1;
     uint16_t length;
+    bool is_found;
     if (0 == (self->rx_state & 0x80)) {
         EMBC_LOGD3("framer_resync not synchronized, no additional error.");
     } else {
@@ -798,7 +799,8 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    for (; i < count; i = is_found ? 0 : (i + 1)) {
+        is_found = false;
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
             continue;
@@ -822,6 +824,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 embc_buffer_write(f, b, length);
                 embc_buffer_cursor_set(f, 0);
                 embc_buffer_erase(self->rx_buffer, 0, i + length);
+                is_found = true;  // continue at the start of the remaining data
                 i = 0;
                 count = embc_buffer_length(self->rx_buffer);
                 ++self->status.rx_count;
@@ -835,7 +838,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
         }
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 8fbd630d62152258c0546ca045712f945e2390ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 32/41] fix: framer leaked received frames for a port that does
 not exist

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 004de26..3e80519 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From d26cc80969e6b4ac4277cd2137c18b423378bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 33/41] fix: framer queued reordered frames in the wrong order
 when the frame id wraps

---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 3e80519..21fc725 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (hdr_frame_id(h) - hdr_frame_id(h1)) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From bb4bb08c2c739c6eb7408af6d04cf16dd289380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 34/41] fix: framer acknowledged corrupted acknowledgements

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 21fc725..47c899d 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -791,7 +791,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
             ++self->status.rx_mic_error;
             EMBC_LOGD1("framer_resync MIC");
             struct embc_framer_header_s * hdr = buffer_hdr(self->rx_buffer);
-            send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            if (EMBC_FRAMER_TYPE_ACK != (hdr->frame_id & EMBC_FRAMER_TYPE_MASK)) {
+                send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            }
         } else {
             EMBC_LOGD1("framer_resync sync");
             ++self->status.rx_synchronization_error;
-- 
2.43.0


From 7f4c5c9ca3beb01c0f8247bfd7b13f15f6ff0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 35/41] fix: framer refused the maximum payload from plain
 buffers and accepted longer ones from its own

---
 src/stream/framer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 47c899d..79a8f87 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -1002,7 +1002,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
@@ -1010,6 +1010,7 @@ void embc_framer_send(
         length = embc_buffer_length(buffer);
     }
     EMBC_ASSERT(buffer->reserve == EMBC_FRAMER_FOOTER_SIZE);
+    EMBC_ASSERT(length <= (HEADER_SIZE + EMBC_FRAMER_PAYLOAD_MAX_SIZE));
 
     buffer->reserve = 0;
     struct embc_framer_header_s * hdr = buffer_hdr(buffer);
-- 
2.43.0


From e4e7e37e55b57c938afa8a48baa8dd8c70ed60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 36/41] fix: framer lost its timer after an expiry and kept it
 armed for completed frames

---
 src/stream/framer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 79a8f87..d604512 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -348,6 +348,7 @@ static void rx_complete_queued(struct embc_framer_s *self) {
         embc_list_remove(&b->item);
         rx_complete(self, b);
     }
+    self->rx_next_timeout = EMBC_TIME_MAX;
 }
 
 static void rx_timeout_set(struct embc_framer_s * self) {
@@ -361,8 +362,8 @@ static void rx_complete_queued_or_set_timeout(struct embc_framer_s *self) {
         rx_complete_queued(self);
     } else if (!embc_list_is_empty(&self->rx_pending)) {
         rx_timeout_set(self);
-        timer_schedule(self);
     }
+    timer_schedule(self);
 }
 
 static void rx_purge_queued(struct embc_framer_s *self) {
@@ -374,6 +375,7 @@ static void rx_purge_queued(struct embc_framer_s *self) {
         EMBC_LOGD2("rx_purge_queued %p", (void *) b);
         embc_buffer_free(b);
     }
+    self->rx_next_timeout = EMBC_TIME_MAX;
 }
 
 struct embc_buffer_s * embc_framer_construct_ack_from_header(
@@ -515,6 +517,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX;  // the timer is no longer armed
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -552,7 +555,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
-- 
2.43.0


From 4a77f5a734ea958350557e55b50a297ca4f72a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 37/41] fix: framer completed frames out of order, stalled or
 never after errors

A failed frame now waits for the frames sent before it, frames that were
acknowledged behind a failed one are completed, queued frames use the slot
of a failed one, retransmissions triggered by acknowledgements count as
retries, and a late negative acknowledgement does not undo a positive one.
---
 src/stream/framer.c | 61 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index d604512..6699702 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -68,6 +68,7 @@ enum tx_status_e {
     TX_STATUS_TRANSMITTING = 1,
     TX_STATUS_AWAIT_ACK = 2,
     TX_STATUS_ACKED = 3,
+    TX_STATUS_FAILED = 4,
 };
 
 // structure to manage pending transmit frames
@@ -77,6 +78,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t error;  // for TX_STATUS_FAILED
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -93,6 +95,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -420,17 +423,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -465,9 +457,27 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+// True when the frame is sent or awaits its acknowledgement.
+static inline bool is_tx_pending(struct tx_buf_s const * t) {
+    return (TX_STATUS_ACKED != t->status) && (TX_STATUS_FAILED != t->status);
+}
+
+static void tx_complete_ready(struct embc_framer_s * self) {
+    // Complete only when guaranteed in order!
+    while (!embc_list_is_empty(&self->tx_buffers_active)) {
+        struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (is_tx_pending(t)) {
+            break;
+        }
+        tx_complete(self, t, (TX_STATUS_ACKED == t->status) ? 0 : t->error);
+    }
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
-        tx_complete(self, t, status);
+        t->status = TX_STATUS_FAILED;
+        t->error = status;
     } else {
         ++t->retries;
         ++self->status.tx_retransmit_count;
@@ -490,25 +500,21 @@ static void tx_purge_queued(struct embc_framer_s * self) {
 }
 
 static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
-    // Complete only when guaranteed in order!
-    bool match_current = false;
     struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
-            tx_complete(self, t, 0);
-        } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
+        if (t == t_current) {
+            break;
+        } else if ((t->status == TX_STATUS_AWAIT_ACK) && (t->retries < EMBC_FRAMER_MAX_RETRIES)) {
+            ++t->retries;
             ++self->status.tx_retransmit_count;
             transmit_tx_buf(self, t);
             break;
-        } else {
+        } else if (is_tx_pending(t)) {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
+    tx_complete_ready(self);
 }
 
 static void timer_callback(void * user_data, uint32_t timer_id) {
@@ -525,10 +531,12 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     }
     embc_list_foreach(&self->tx_buffers_active, item) {
         t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+        if (is_tx_pending(t) && (current_time >= t->timeout)) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
+    tx_complete_ready(self);
+    transmit_queued(self);
     timer_schedule(self);
 }
 
@@ -555,7 +563,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
+        if (is_tx_pending(t) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
@@ -646,8 +654,11 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         uint8_t frame_id = hdr_frame_id(&hdr);
         EMBC_LOGI("handle_ack nack, status=%d, frame_id=%d", (int) status, (int) frame_id);
         struct tx_buf_s * t = find_tx(self, frame_id);
-        if (t) {
+        if (t && (TX_STATUS_AWAIT_ACK == t->status)) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_complete_ready(self);
+            transmit_queued(self);
+            timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 16c2a619b1b413943a2c9c5f3016dd5afc7622bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 38/41] fix: framer freed or retransmitted a frame that the HAL
 was still transmitting

---
 src/stream/framer.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6699702..b0fd071 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -79,6 +79,7 @@ struct tx_buf_s {
     uint8_t status;
     uint8_t retries;
     uint8_t error;  // for TX_STATUS_FAILED
+    bool is_hal_owner;  // from tx_fn until embc_framer_hal_tx_done
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -439,8 +440,11 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
+    if (!t->is_hal_owner) {  // else freed by embc_framer_hal_tx_done
+        embc_buffer_free(t->b);
+    }
     t->b = 0;
+    t->is_hal_owner = false;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
     uint16_t port_def = hdr_port_def(&hdr);
@@ -581,7 +585,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->is_hal_owner) {  // else still waiting for its transmission
+        t->is_hal_owner = true;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -599,6 +606,7 @@ static void transmit_queued(struct embc_framer_s * self) {
         embc_list_add_tail(&self->tx_buffers_active, item);
         t->b = b;
         t->retries = 0;
+        t->is_hal_owner = false;
         transmit_tx_buf(self, t);
     }
 }
@@ -945,9 +953,14 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->is_hal_owner = false;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer);  // completed while the HAL had it
     }
 }
 
-- 
2.43.0


From c093eac0ca623bb23b2f6b68c5cd14bf5466a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 39/41] fix: framer resync treated queued messages as transmit
 slots and corrupted memory

---
 src/stream/framer.c | 48 ++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index b0fd071..e7604f6 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -436,18 +436,9 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
-    ++self->status.tx_count;
-    if (!t->is_hal_owner) {  // else freed by embc_framer_hal_tx_done
-        embc_buffer_free(t->b);
-    }
-    t->b = 0;
-    t->is_hal_owner = false;
-    t->status = TX_STATUS_EMPTY;
-    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+static void tx_done_notify(struct embc_framer_s * self, struct embc_framer_header_s hdr, uint8_t status) {
     uint16_t port_def = hdr_port_def(&hdr);
+    ++self->status.tx_count;
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
                 self->port_cbk[hdr.port].port,
@@ -461,6 +452,19 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+    if (!t->is_hal_owner) {  // else freed by embc_framer_hal_tx_done
+        embc_buffer_free(t->b);
+    }
+    t->b = 0;
+    t->is_hal_owner = false;
+    t->status = TX_STATUS_EMPTY;
+    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    tx_done_notify(self, hdr, status);
+}
+
 // True when the frame is sent or awaits its acknowledgement.
 static inline bool is_tx_pending(struct tx_buf_s const * t) {
     return (TX_STATUS_ACKED != t->status) && (TX_STATUS_FAILED != t->status);
@@ -490,16 +494,20 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 }
 
 static void tx_purge_queued(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    struct embc_list_s queue;  // the callbacks may send new messages
+    embc_list_initialize(&queue);
+    embc_list_append(&queue, &self->tx_queue);
+    embc_size_t count = embc_list_length(&self->tx_buffers_active);
+    while ((count-- > 0) && !embc_list_is_empty(&self->tx_buffers_active)) {
+        struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+        tx_complete(self, embc_list_entry(item, struct tx_buf_s, item), EMBC_ERROR_ABORTED);
     }
-    embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    while (!embc_list_is_empty(&queue)) {
+        struct embc_list_s * item = embc_list_remove_head(&queue);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        struct embc_framer_header_s hdr = *buffer_hdr(b);
+        embc_buffer_free(b);
+        tx_done_notify(self, hdr, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 1dd98a7e302f455299c546bdb4acbc3952280862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 40/41] fix: framer queued received frames without bound when
 every other frame is missing

---
 src/stream/framer.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index e7604f6..871a47e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -361,7 +361,22 @@ static void rx_timeout_set(struct embc_framer_s * self) {
     self->rx_next_timeout = EMBC_FRAMER_RX_TIMEOUT + current_time;
 }
 
+static void rx_complete_old(struct embc_framer_s *self) {
+    // No frame can be inserted in front of a frame older than the window.
+    while (!embc_list_is_empty(&self->rx_pending)) {
+        struct embc_list_s * item = embc_list_peek_head(&self->rx_pending);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        uint8_t age = (self->rx_frame_id - hdr_frame_id(buffer_hdr(b)) - 1) & EMBC_FRAMER_ID_MASK;
+        if (age < EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) {
+            break;
+        }
+        embc_list_remove(item);
+        rx_complete(self, b);
+    }
+}
+
 static void rx_complete_queued_or_set_timeout(struct embc_framer_s *self) {
+    rx_complete_old(self);
     if ((self->rx_frame_bitmask & self->rx_frame_bitmask_outstanding) == self->rx_frame_bitmask_outstanding) {
         rx_complete_queued(self);
     } else if (!embc_list_is_empty(&self->rx_pending)) {
-- 
2.43.0


From c6e9034e9d76c28c9ff7bc140898038f8ef0e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 41/41] fix: embc_framer_finalize left its timer armed and
 leaked its buffers

---
 src/stream/framer.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 871a47e..bab2116 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -299,9 +299,6 @@ void embc_framer_register_rx_hook(
     }
 }
 
-void embc_framer_finalize(struct embc_framer_s * self) {
-    (void) self;
-}
 
 static inline uint8_t frame_payload_length(uint8_t const * buffer) {
     struct embc_framer_header_s * hdr = (struct embc_framer_header_s *) buffer;
@@ -1100,6 +1097,28 @@ void embc_framer_resync(struct embc_framer_s * self) {
     embc_framer_send_payload(self, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0, 0);
 }
 
+void embc_framer_finalize(struct embc_framer_s * self) {
+    EMBC_DBC_NOT_NULL(self);
+    timer_cancel(self);
+    rx_purge_queued(self);
+    while (!embc_list_is_empty(&self->tx_buffers_active)) {  // no callbacks
+        struct embc_list_s * item = embc_list_remove_head(&self->tx_buffers_active);
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (!t->is_hal_owner) {
+            embc_buffer_free(t->b);
+        }
+        t->b = 0;
+    }
+    while (!embc_list_is_empty(&self->tx_queue)) {
+        struct embc_list_s * item = embc_list_remove_head(&self->tx_queue);
+        embc_buffer_free(embc_list_entry(item, struct embc_buffer_s, item));
+    }
+    if (self->rx_buffer) {
+        embc_buffer_free(self->rx_buffer);
+        self->rx_buffer = 0;
+    }
+}
+
 struct embc_buffer_s * embc_framer_alloc(
         struct embc_framer_s * self) {
     EMBC_DBC_NOT_NULL(self);
-- 
2.43.0

