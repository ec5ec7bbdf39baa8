From 70741d68edb24cff814fd50403141457f4f272a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 01/27] fix: reject IPv4 addresses that contain an empty octet

---
 src/libcork/core/ip-address.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..2fc7cc8 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -61,6 +61,11 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 break;
 
             case '.':
+                /* Each octet must contain at least one digit. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
+
                 /* If this would be the fourth octet, it can't have a trailing
                  * period. */
                 if (CORK_UNLIKELY(octets == 3)) {
-- 
2.43.0


From 93255ef8e0cf5c25c5d63b2a29f80d6a0cc6539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 02/27] fix: apply the CIDR mask of an IPv6 network in host
 byte order

---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 2fc7cc8..a3a980a 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -457,8 +457,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From 79e5640383ac789694845e1cc34561b949cfa7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 03/27] fix: reject IPv6 addresses with eight hextets and a
 double-colon

---
 src/libcork/core/ip-address.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index a3a980a..953b86c 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -312,6 +312,12 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
         char  parsed_result[CORK_IPV6_STRING_LENGTH];
 #endif
         unsigned int  after_count = hextets_seen - before_count;
+
+        /* The double-colon must stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen >= 8)) {
+            goto parse_error;
+        }
+
         DEBUG("Saw double-colon; %u hextets before, %u after\n",
               before_count, after_count);
         memset(addr, 0, sizeof(struct cork_ipv6));
-- 
2.43.0


From 9b2888c8523ff9a6a62b249afefc893c46375d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 04/27] fix: parenthesize the argument of the byte-swapping
 macros

---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From 79bfeb1d0ba907b8e13e310020b567b6028f0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 05/27] fix: keep the fractional part of a timestamp below one
 second

---
 include/libcork/core/timestamp.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..55749ea 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,6 +83,11 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
+    /* Don't let a fraction that's just below the next second round up to a full
+     * second. */
+    if (gsec >= denom) {
+        gsec = denom - 1;
+    }
     return gsec;
 }
 
-- 
2.43.0


From 193ae43f4d2a8e3fd149a81250ffca063a17a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:07 +0000
Subject: [PATCH 06/27] fix: leave a buffer unchanged when a formatted append
 fails

vsnprintf's -1 was added to the size, which shrank (or wrapped) it.
---
 src/libcork/ds/buffer.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index cf727ac..cee8367 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -110,16 +110,26 @@ void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
 {
+    int  rc;
     size_t  format_size;
     va_list  args1;
 
     va_copy(args1, args);
-    format_size = vsnprintf(buffer->buf + buffer->size,
-                            buffer->allocated_size - buffer->size,
-                            format, args1);
+    rc = vsnprintf(buffer->buf + buffer->size,
+                   buffer->allocated_size - buffer->size,
+                   format, args1);
     va_end(args1);
 
+    /* If the formatting itself fails, leave the buffer's content unchanged. */
+    if (rc < 0) {
+        if (buffer->allocated_size > buffer->size) {
+            ((char *) buffer->buf)[buffer->size] = '\0';
+        }
+        return;
+    }
+
     /* If the first call works, then set buffer->size and return. */
+    format_size = rc;
     if (format_size < (buffer->allocated_size - buffer->size)) {
         buffer->size += format_size;
         return;
@@ -127,10 +137,14 @@ cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
 
     /* If the first call fails, resize buffer and try again. */
     cork_buffer_ensure_size(buffer, buffer->allocated_size + format_size + 1);
-    format_size = vsnprintf(buffer->buf + buffer->size,
-                            buffer->allocated_size - buffer->size,
-                            format, args);
-    buffer->size += format_size;
+    rc = vsnprintf(buffer->buf + buffer->size,
+                   buffer->allocated_size - buffer->size,
+                   format, args);
+    if (rc < 0) {
+        ((char *) buffer->buf)[buffer->size] = '\0';
+        return;
+    }
+    buffer->size += rc;
 }
 
 
-- 
2.43.0


From 1ab9d13c7c57864674d41676ac2dd525542e279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:06 +0000
Subject: [PATCH 07/27] fix: keep array callbacks paired in clear, remove_range
 and failing copies

clear() removed entries that had already been removed, remove_range() without a
remove callback duplicated entries instead of keeping them distinct for done and
reuse, and a failing copy left initialized entries outside the array.
---
 src/libcork/ds/array.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..d0e2227 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -128,7 +128,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
@@ -234,9 +234,10 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
-         * directly. */
+    if (array->priv->remove == NULL && array->priv->reuse == NULL &&
+        array->priv->done == NULL) {
+        /* If there aren't any callbacks that need to see each array entry, just
+         * move the array contents directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
         }
@@ -254,9 +255,11 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
 
         /* Then call the cleanup callback on all of the elements to be removed,
          * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
-            array->priv->remove(array->priv->user_data, start_of_removed);
-            start_of_removed += element_size;
+        if (array->priv->remove != NULL) {
+            while (start_of_removed < end_of_removed) {
+                array->priv->remove(array->priv->user_data, start_of_removed);
+                start_of_removed += element_size;
+            }
         }
     }
 }
@@ -313,7 +316,14 @@ cork_raw_array_copy(struct cork_raw_array *dest,
         const char  *src_element = src->items;
         dest_element = dest->items;
         for (i = 0; i < src->size; i++) {
-            rii_check(copy(user_data, dest_element, src_element));
+            int  rc = copy(user_data, dest_element, src_element);
+            if (CORK_UNLIKELY(rc != 0)) {
+                /* We've already initialized (or reused) these elements, so we
+                 * have to remove them again. */
+                dest->size = src->size;
+                cork_array_clear(dest);
+                return rc;
+            }
             dest_element += dest->priv->element_size;
             src_element += dest->priv->element_size;
         }
-- 
2.43.0


From def693fac5d7a7a1a885aef2a7b318271455e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:13 +0000
Subject: [PATCH 08/27] fix: bounds checks of slices whose offset and length
 add up past SIZE_MAX

Also report an error when slicing a missing slice in place.
---
 src/libcork/ds/managed-buffer.c |  2 +-
 src/libcork/ds/slice.c          | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..ea6b094 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= (buffer->size - offset))) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..6813f1e 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From 54044fd887b92eb3e260b5be1c164299e7de790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:21 +0000
Subject: [PATCH 09/27] fix: don't let a huge width in a timestamp format wrap
 around

---
 src/libcork/core/timestamp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..63755c1 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -75,8 +75,13 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
 
         /* Then parse the format specifier */
         while (is_digit(*spec)) {
-            width *= 10;
-            width += (*spec++ - '0');
+            /* Any width over 9 is invalid; stop there so that we can't wrap
+             * around to a valid one. */
+            if (width <= 9) {
+                width *= 10;
+                width += (*spec - '0');
+            }
+            spec++;
         }
 
         switch (*spec) {
-- 
2.43.0


From 34a991478c4fd2adc56e3ce38e914a1c58bc01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 10/27] fix: keep fd consumers correct on EINTR and close
 unfinished files

---
 src/libcork/ds/file-stream.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..0bb240c 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
@@ -173,7 +175,10 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
     int  rc;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
+    int  fd = self->fd;
+    /* Don't try to close the descriptor again when we're freed. */
+    self->fd = -1;
+    rii_check_posix(rc = close(fd));
     return 0;
 }
 
@@ -185,6 +190,18 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* If we never reached the end of the stream, the file is still open. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_delete(struct cork_fd_consumer, self);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -208,7 +225,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From f9ac51181413426cb7fdb2e78c9ac9b3fd806d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:34 +0000
Subject: [PATCH 11/27] fix: release a hash table's user data with the table

---
 src/libcork/ds/hash-table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..662c554 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -194,6 +194,7 @@ cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
+    cork_free_user_data(table);
     cork_delete(struct cork_hash_table, table);
 }
 
-- 
2.43.0


From fd6ece6e40a725e9a1f5b7e3d03d2a00a521ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 12/27] fix: make mempool blocks hold at least one, aligned,
 object

---
 src/libcork/core/mempool.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..d8d6933 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -68,6 +68,20 @@ struct cork_mempool *
 cork_mempool_new_size_ex(size_t element_size, size_t block_size)
 {
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
+    size_t  min_block_size;
+
+    /* Pad each element so that the object header that follows it in the block
+     * is aligned. */
+    element_size += sizeof(struct cork_mempool_object) - 1;
+    element_size -= element_size % sizeof(struct cork_mempool_object);
+
+    /* Every block must be large enough for at least one object. */
+    min_block_size = sizeof(struct cork_mempool_block) +
+        sizeof(struct cork_mempool_object) + element_size;
+    if (block_size < min_block_size) {
+        block_size = min_block_size;
+    }
+
     mp->element_size = element_size;
     mp->block_size = block_size;
     mp->free_list = NULL;
-- 
2.43.0


From 95b54ce8705d745925cdfc3c6e96d206a621d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:49 +0000
Subject: [PATCH 13/27] fix: let allocators fail on overflow and lack of memory
 without crashing

---
 include/libcork/core/allocator.h |  2 +-
 src/libcork/core/allocator.c     | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
@@ -393,7 +395,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From f7fc4c722c893eafb384fe5a371a826d156eb1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 14/27] fix: don't free a missing block when xreallocf fails

---
 include/libcork/core/allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 60951cb..7bf9419 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -158,7 +158,9 @@ cork_alloc_xreallocf(const struct cork_alloc *alloc, void *ptr,
 {
     void  *result = alloc->xrealloc(alloc, ptr, old_size, new_size);
     if (result == NULL) {
-        alloc->free(alloc, ptr, old_size);
+        if (ptr != NULL) {
+            alloc->free(alloc, ptr, old_size);
+        }
         return NULL;
     } else {
         return result;
-- 
2.43.0


From 0949b2542e5b4a988506cea0816c6052ec227c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:25 +0000
Subject: [PATCH 15/27] fix: Don't free garbage while still traversing it

---
 src/libcork/core/gc.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..21b5153 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,9 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The garbage found by the current collection.  None of it can be freed
+     * until we've finished traversing the references between the objects. */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +70,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the list of garbage that's about to be freed. */
+    struct cork_gc_header  *next_garbage;
 };
 
 /*
@@ -372,9 +378,9 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             !cork_gc_get_buffered(header)) {
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
+            header->next_garbage = gc->garbage;
+            gc->garbage = header;
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
         }
     }
 }
@@ -394,6 +400,13 @@ cork_gc_collect_roots(struct cork_gc *gc)
         }
     }
     gc->root_count = 0;
+
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next_garbage;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
+    }
 }
 
 static void
-- 
2.43.0


From 71a07add1d9cbc35105d82721f41608ab0c06227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 16/27] fix: Don't look for garbage cycles in the middle of a
 release

---
 src/libcork/core/gc.c | 64 ++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 21b5153..ce7059d 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* Look for garbage cycles once we have this many possible roots. */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -40,10 +41,10 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of entries in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
     /* The garbage found by the current collection.  None of it can be freed
      * until we've finished traversing the references between the objects. */
     struct cork_gc_header  *garbage;
@@ -71,8 +72,9 @@ struct cork_gc_header {
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
 
-    /* The next object in the list of garbage that's about to be freed. */
-    struct cork_gc_header  *next_garbage;
+    /* The next object in the list of possible roots, or in the list of garbage
+     * that's about to be freed. */
+    struct cork_gc_header  *next;
 };
 
 /*
@@ -213,10 +215,9 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            header->next = gc->roots;
+            gc->roots = header;
+            gc->root_count++;
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -255,6 +256,11 @@ cork_gc_decref(void *obj)
         } else {
             cork_gc_possible_root(gc, header);
         }
+        /* We can only look for cycles once every reference count is up to
+         * date. */
+        if (gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
+        }
     }
 }
 
@@ -287,20 +293,22 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  **prev = &gc->roots;
+    while (*prev != NULL) {
+        struct cork_gc_header  *header = *prev;
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
             DEBUG("    cork_gc_mark_gray(%p)\n",
                   cork_gc_get_object(header));
             cork_gc_mark_gray(gc, header);
+            prev = &header->next;
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
             cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
+            *prev = header->next;
+            gc->root_count--;
             if (cork_gc_get_color(header) == GC_BLACK &&
                 cork_gc_get_ref_count(header) == 0) {
                 DEBUG("  Freeing %p\n", header);
@@ -360,12 +368,9 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
@@ -378,7 +383,7 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             !cork_gc_get_buffered(header)) {
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
-            header->next_garbage = gc->garbage;
+            header->next = gc->garbage;
             gc->garbage = header;
             cork_gc_recurse(gc, header, cork_gc_collect_white);
         }
@@ -388,22 +393,19 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        gc->roots = header->next;
+        gc->root_count--;
+        cork_gc_set_buffered(header, false);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
     }
-    gc->root_count = 0;
 
     while (gc->garbage != NULL) {
         struct cork_gc_header  *header = gc->garbage;
-        gc->garbage = header->next_garbage;
+        gc->garbage = header->next;
         DEBUG("  Freeing %p\n", header);
         cork_gc_free(header);
     }
-- 
2.43.0


From 9c4d5e96d039a3983806642ff27f058b0318ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 17/27] fix: An error message can be built from the current one

---
 src/libcork/core/error.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..887bdaf 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -97,6 +97,16 @@ cork_error_get(void)
     }
 }
 
+/* We always construct a new message in the “other” buffer, since the current
+ * message might be one of the pieces that it's constructed from. */
+static void
+cork_error_swap(struct cork_error *error)
+{
+    struct cork_buffer  *temp = error->other;
+    error->other = error->message;
+    error->message = temp;
+}
+
 
 /*-----------------------------------------------------------------------
  * Public error API
@@ -138,8 +148,9 @@ cork_error_set_printf(cork_error code, const char *format, ...)
     struct cork_error  *error = cork_error_get();
     error->code = code;
     va_start(args, format);
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
     va_end(args);
+    cork_error_swap(error);
 }
 
 void
@@ -147,7 +158,8 @@ cork_error_set_string(cork_error code, const char *str)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_set_string(error->message, str);
+    cork_buffer_set_string(error->other, str);
+    cork_error_swap(error);
 }
 
 void
@@ -155,7 +167,8 @@ cork_error_set_vprintf(cork_error code, const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
+    cork_error_swap(error);
 }
 
 void
@@ -163,38 +176,29 @@ cork_error_prefix_printf(const char *format, ...)
 {
     va_list  args;
     struct cork_error  *error = cork_error_get();
-    struct cork_buffer  *temp;
     va_start(args, format);
     cork_buffer_vprintf(error->other, format, args);
     va_end(args);
     cork_buffer_append_copy(error->other, error->message);
-    temp = error->other;
-    error->other = error->message;
-    error->message = temp;
+    cork_error_swap(error);
 }
 
 void
 cork_error_prefix_string(const char *str)
 {
     struct cork_error  *error = cork_error_get();
-    struct cork_buffer  *temp;
     cork_buffer_set_string(error->other, str);
     cork_buffer_append_copy(error->other, error->message);
-    temp = error->other;
-    error->other = error->message;
-    error->message = temp;
+    cork_error_swap(error);
 }
 
 void
 cork_error_prefix_vprintf(const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
-    struct cork_buffer  *temp;
     cork_buffer_vprintf(error->other, format, args);
     cork_buffer_append_copy(error->other, error->message);
-    temp = error->other;
-    error->other = error->message;
-    error->message = temp;
+    cork_error_swap(error);
 }
 
 
-- 
2.43.0


From 939ae7c2e3514adc7c2ad42bea2b71f9bd05dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:55 +0000
Subject: [PATCH 18/27] fix: The absolute path of a name in the root directory
 has one slash

---
 src/libcork/posix/files.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..4c6450f 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -159,7 +159,10 @@ cork_path_set_absolute(struct cork_path *path)
     ep_check_posix(getcwd(buf.buf, PATH_MAX));
     buf.size = strlen(buf.buf);
 #endif
-    cork_buffer_append(&buf, "/", 1);
+    /* The root directory already ends in a slash. */
+    if (cork_buffer_char(&buf, buf.size - 1) != '/') {
+        cork_buffer_append(&buf, "/", 1);
+    }
     cork_buffer_append_copy(&buf, &path->given);
     cork_buffer_done(&path->given);
     path->given = buf;
-- 
2.43.0


From 0226ae995fdeadbf9a4f62aff8c3553638e73186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:03 +0000
Subject: [PATCH 19/27] fix: An empty path list has an empty string

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 4c6450f..32fa230 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -318,7 +318,7 @@ cork_path_list_free(struct cork_path_list *list)
 const char *
 cork_path_list_to_string(const struct cork_path_list *list)
 {
-    return list->string.buf;
+    return (list->string.buf == NULL)? "": list->string.buf;
 }
 
 void
-- 
2.43.0


From 7248d7eaf9636e4092691d70ab33bbf294cb7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:51 +0000
Subject: [PATCH 20/27] fix: A recursive mkdir of a path ending in a slash
 succeeds

---
 src/libcork/posix/files.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 32fa230..dd585aa 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -616,6 +616,14 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
                 (&parent_file, mode, flags | CORK_FILE_PERMISSIVE);
             cork_file_done(&parent_file);
             rii_check(rc);
+
+            /* If the path ends with "/", "/." or "/..", then we might have just
+             * created the directory itself. */
+            cork_file_reset(file);
+            rii_check(cork_file_stat(file));
+            if (file->type == CORK_FILE_DIRECTORY) {
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From afd672dcc5ec4e3adda794efae9e25d97b3189ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:33 +0000
Subject: [PATCH 21/27] fix: A file's status is looked up again after creating
 or removing it

---
 src/libcork/posix/files.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index dd585aa..6d92e5f 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -630,6 +630,7 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
     rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    cork_file_reset(file);
     return 0;
 }
 
@@ -670,11 +671,11 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         }
 
         rii_check_posix(rmdir(cork_path_get(file->path)));
-        return 0;
     } else {
         rii_check(unlink(cork_path_get(file->path)));
-        return 0;
     }
+    cork_file_reset(file);
+    return 0;
 }
 
 
-- 
2.43.0


From f688e2135713483d7beeafeb7fa29c38f6c3a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:19 +0000
Subject: [PATCH 22/27] fix: Failing to remove a file sets the error condition

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 6d92e5f..b58686d 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -672,7 +672,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
 
         rii_check_posix(rmdir(cork_path_get(file->path)));
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
     }
     cork_file_reset(file);
     return 0;
-- 
2.43.0


From e2de33e0a054c97abc4ebcc26214d6f915a4ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 23/27] fix: Removing a symbolic link leaves what it points to
 alone

---
 src/libcork/posix/files.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index b58686d..efbeddd 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -652,17 +652,21 @@ cork_file_remove_iterator(struct cork_file *file, const char *rel_name,
 int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
+    struct stat  info;
+
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
 
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    /* If this is a symbolic link, then we want to remove the link, and not
+     * whatever it points to. */
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        bool  missing = (errno == ENOENT || errno == ENOTDIR);
+        if (missing && (flags & CORK_FILE_PERMISSIVE)) {
             return 0;
         } else {
-            cork_system_error_set_explicit(ENOENT);
+            cork_system_error_set_explicit(missing? ENOENT: errno);
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 25c018b2f4b21d23ce577dfdb3ba46803e8daa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:22 +0000
Subject: [PATCH 24/27] fix: Iterating a directory returns the iterator's
 result

---
 src/libcork/posix/files.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index efbeddd..584b6f8 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -520,6 +520,7 @@ cork_file_iterate_directory(struct cork_file *file,
                             cork_file_directory_iterator iterator,
                             void *user_data)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -542,8 +543,12 @@ cork_file_iterate_directory(struct cork_file *file,
         cork_path_append(child_path, entry->d_name);
         ei_check(cork_file_stat(&child_file));
 
-        /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        /* If the iterator doesn't want to continue, pass on its result. */
+        rc = iterator(&child_file, entry->d_name, user_data);
+        if (rc != 0) {
+            goto error;
+        }
+        rc = -1;
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -573,7 +578,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 2859c291a36e9bc5f1991053e6f075ab5365f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:00 +0000
Subject: [PATCH 25/27] fix: A directory walk returns its callbacks' results

---
 src/libcork/posix/directory-walker.c | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..d9e6d9b 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -28,6 +28,7 @@ static int
 cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
                         size_t root_path_size)
 {
+    int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
@@ -52,21 +53,34 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
-            if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
-                         (w, path->buf, path->buf + root_path_size,
-                          path->buf + dir_path_size));
+            if (rc == 0) {
+                rc = cork_walk_one_directory(w, path, root_path_size);
+                if (rc == 0) {
+                    rc = cork_dir_walker_leave_directory
+                        (w, path->buf, path->buf + root_path_size,
+                         path->buf + dir_path_size);
+                }
+            } else if (rc == CORK_SKIP_DIRECTORY) {
+                rc = 0;
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
-                     (w, path->buf, path->buf + root_path_size,
-                      path->buf + dir_path_size));
+            rc = cork_dir_walker_file
+                (w, path->buf, path->buf + root_path_size,
+                 path->buf + dir_path_size);
+        } else {
+            rc = 0;
         }
 
+        /* If one of the callbacks doesn't want to continue, pass on its
+         * result. */
+        if (rc != 0) {
+            goto error;
+        }
+        rc = -1;
+
         /* Remove this entry name from the path buffer. */
         cork_buffer_truncate(path, dir_path_size);
 
@@ -97,7 +111,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From 42fcf2e5882393c5b86ae51cd1884b8063f4bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:34 +0000
Subject: [PATCH 26/27] fix: A directory is closed only once

---
 src/libcork/posix/directory-walker.c | 8 ++++++--
 src/libcork/posix/files.c            | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index d9e6d9b..e454395 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -104,12 +104,16 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
     /* Remove the trailing '/' from the path buffer. */
     cork_buffer_truncate(path, dir_path_size - 1);
-    rii_check_posix(closedir(dir));
+    /* The directory is closed even if we're interrupted. */
+    if (closedir(dir) == -1 && errno != EINTR) {
+        cork_system_error_set();
+        return -1;
+    }
     return 0;
 
 error:
     if (dir != NULL) {
-        rii_check_posix(closedir(dir));
+        closedir(dir);
     }
     return rc;
 }
diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 584b6f8..de321af 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -572,12 +572,16 @@ cork_file_iterate_directory(struct cork_file *file,
     }
 
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    /* The directory is closed even if we're interrupted. */
+    if (closedir(dir) == -1 && errno != EINTR) {
+        cork_system_error_set();
+        return -1;
+    }
     return 0;
 
 error:
     cork_file_done(&child_file);
-    rii_check_posix(closedir(dir));
+    closedir(dir);
     return rc;
 }
 
-- 
2.43.0


From 930d7a4e5d9ad79ca185a7e00d961f35d423a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:18 +0000
Subject: [PATCH 27/27] fix: The root directory can be walked

---
 src/libcork/posix/directory-walker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index e454395..5ecd908 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -31,11 +31,15 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     int  rc = -1;
     DIR  *dir = NULL;
     struct dirent  *entry;
+    size_t  dir_name_size = path->size;
     size_t  dir_path_size;
 
     rip_check_posix(dir = opendir(path->buf));
 
-    cork_buffer_append(path, "/", 1);
+    /* Only the root directory's path ends in a '/'. */
+    if (cork_buffer_char(path, dir_name_size - 1) != '/') {
+        cork_buffer_append(path, "/", 1);
+    }
     dir_path_size = path->size;
     errno = 0;
     while ((entry = readdir(dir)) != NULL) {
@@ -103,7 +107,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     }
 
     /* Remove the trailing '/' from the path buffer. */
-    cork_buffer_truncate(path, dir_path_size - 1);
+    cork_buffer_truncate(path, dir_name_size);
     /* The directory is closed even if we're interrupted. */
     if (closedir(dir) == -1 && errno != EINTR) {
         cork_system_error_set();
@@ -129,11 +133,12 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
      * trailing '/' */
     cork_buffer_append_string(&buf, path);
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 1 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-    rc = cork_walk_one_directory(w, &buf, buf.size + 1);
+    rc = cork_walk_one_directory
+        (w, &buf, buf.size + (buf.size == 0 || p[buf.size-1] != '/'));
     cork_buffer_done(&buf);
     return rc;
 }
-- 
2.43.0

