From 070256181b067805642a5618fd0d57b814fe7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 01/45] fix: do not read beyond the buffer when scanning
 variable-sized integers

The SSE2 path of pb_varint_scan() unconditionally loaded 16 bytes, even if
fewer were left in the buffer, so skipping a varint near the end of a buffer
read up to 15 bytes past it.
---
 src/core/varint.c | 49 +++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 3e36101..7eb5210 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -460,19 +460,12 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
  * overflows may still happen, but are properly reported by the unpack
  * functions. SSE2 intrinsics are used if the compiler supports it.
  *
- * The SSE2 version works in constant time and independent of input length.
+ * The SSE2 version works in constant time and independent of input length. It
+ * is only used if at least 16 bytes are left, as a load must not extend beyond
+ * the end of the buffer.
  *
- * \warning The SSE2 version is implemented for up to 10 bytes of length, so if
- * an encoded integer with more than 10 high-bits is encountered, an underrun
- * is falsely reported. This could be omitted by introducing a further branch
- * checking if the buffer is larger than 10 bytes and falling back to the
- * non-SSE version, but as it's an entirely internal case that is properly
- * handled by all invoking functions there is no necessity.
- *
- * \warning Using valgrind for tracking down invalid memory accesses, memcheck
- * will complain when it sees loads on data that extend to uninitialized memory
- * regions. This, however, is a false-positive, as uninitialized values are
- * singled out using the mapped bitmask.
+ * \warning At most 10 bytes are considered, so if an encoded integer with more
+ * than 10 high-bits is encountered, an underrun is reported.
  *
  * \param[in] data[] Source buffer
  * \param[in] left   Remaining bytes
@@ -481,39 +474,33 @@ pb_varint_pack_sint64(uint8_t data[], const void *value) {
 extern size_t
 pb_varint_scan(const uint8_t data[], size_t left) {
   assert(data && left);
-  left = left > 10 ? 10 : left;
 
 #ifdef __SSE2__
 
-  /* Mapping: remaining bytes ==> bitmask */
-  static const int mask_map[] = {
-    0x0000, 0x0001, 0x0003, 0x0007,
-    0x000F, 0x001F, 0x003F, 0x007F,
-    0x00FF, 0x01FF, 0x03FF
-  };
+  /* The load spans 16 bytes, so ensure that they are part of the buffer */
+  if (left >= sizeof(__m128i)) {
 
-  /* Load buffer into 128-bit integer and create high-bit mask */
-  __m128i temp = _mm_loadu_si128((const __m128i *)data);
-  __m128i high = _mm_set1_epi8(0x80);
+    /* Load buffer into 128-bit integer and create high-bit mask */
+    __m128i temp = _mm_loadu_si128((const __m128i *)data);
+    __m128i high = _mm_set1_epi8(0x80);
 
-  /* Intersect and extract mask with high-bits set */
-  int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
-  mask = (mask & mask_map[left]) ^ mask_map[left];
+    /* Intersect and extract mask with high-bits set */
+    int mask = _mm_movemask_epi8(_mm_and_si128(temp, high));
+    mask = (mask & 0x03FF) ^ 0x03FF;
 
-  /* Count trailing zeroes */
-  return mask ? __builtin_ctz(mask) + 1 : 0;
+    /* Count trailing zeroes */
+    return mask ? __builtin_ctz(mask) + 1 : 0;
+  }
 
-#else
+#endif /* __SSE2__ */
 
   /* Linear scan */
+  left = left > 10 ? 10 : left;
   size_t size = 0;
   while (data[size++] & 0x80)
     if (!--left)
       return 0;
   return size;
-
-#endif /* __SSE2__ */
-
 }
 
 /* ------------------------------------------------------------------------- */
-- 
2.43.0


From ba84c9f88ef95ce8f8b941a21d0e76ea038c7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 02/45] fix: do not read beyond the buffer when unpacking
 truncated int32 values

A truncated negative int32 (fewer than ten bytes left) was inspected at
offsets four and five regardless of the number of remaining bytes.
---
 src/core/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index 7eb5210..fa1dec7 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -526,7 +526,7 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 7c28a3ca7b24efefd1801dc6d1fb7188ec153b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 03/45] fix: do not read varints or length prefixes from an
 exhausted stream

A message ending right after a key made the stream unpack a varint from zero
remaining bytes, reading (and possibly decoding) memory beyond the buffer.
---
 src/core/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/stream.c b/src/core/stream.c
index 71c395d..145ff09 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -45,6 +45,8 @@
 static pb_error_t
 read_varint(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_unpack(type,
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream), value);
@@ -82,6 +84,8 @@ read_64bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 read_length(pb_stream_t *stream, pb_type_t type, void *value) {
   assert(stream && value);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
@@ -126,6 +130,8 @@ read_32bit(pb_stream_t *stream, pb_type_t type, void *value) {
 static pb_error_t
 skip_varint(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   size_t size = pb_varint_scan(
     pb_buffer_data_from(stream->buffer, stream->offset),
     pb_stream_left(stream));
@@ -155,6 +161,8 @@ skip_64bit(pb_stream_t *stream) {
 static pb_error_t
 skip_length(pb_stream_t *stream) {
   assert(stream);
+  if (unlikely_(!pb_stream_left(stream)))
+    return PB_ERROR_VARINT;
   uint32_t length = 0;
   size_t size = pb_varint_unpack_uint32(
     pb_buffer_data_from(stream->buffer, stream->offset),
-- 
2.43.0


From 956b1d4d76c2b296752a51e6cc664fc4d10f36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 04/45] fix: report an error for records of illegal wiretype
 instead of crashing

Skipping a field of wiretype 3, 4 or 6 called through an empty jump table
slot, and wiretype 7 read past the end of the table.
---
 src/core/stream.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/stream.c b/src/core/stream.c
index 145ff09..0349dce 100644
--- a/src/core/stream.c
+++ b/src/core/stream.c
@@ -184,6 +184,18 @@ skip_32bit(pb_stream_t *stream) {
   return pb_stream_advance(stream, 4);
 }
 
+/*!
+ * Skip a value of illegal (or unsupported group) wiretype.
+ *
+ * \param[in,out] stream Stream
+ * \return               Error code
+ */
+static pb_error_t
+skip_illegal(pb_stream_t *stream) {
+  assert(stream);
+  return PB_ERROR_INVALID;
+}
+
 /* ----------------------------------------------------------------------------
  * Jump tables
  * ------------------------------------------------------------------------- */
@@ -212,11 +224,15 @@ pb_stream_read_jump[] = {
 
 /*! Jump table: wiretype ==> skip method */
 const pb_stream_skip_f
-pb_stream_skip_jump[7] = {
+pb_stream_skip_jump[8] = {
   [PB_WIRETYPE_VARINT] = skip_varint,
   [PB_WIRETYPE_64BIT]  = skip_64bit,
   [PB_WIRETYPE_LENGTH] = skip_length,
-  [PB_WIRETYPE_32BIT]  = skip_32bit
+  [3]                  = skip_illegal,
+  [4]                  = skip_illegal,
+  [PB_WIRETYPE_32BIT]  = skip_32bit,
+  [6]                  = skip_illegal,
+  [7]                  = skip_illegal
 };
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From aa96a7d1ac78e3ae35c2a30a89f988b7232a4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 05/45] fix: keep an active oneof member visible if followed by
 other fields

pb_cursor_create() compared the oneof of the cursor's own field with itself,
so any later known field made the active member appear absent.
---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 586ba5b..1429674 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -224,7 +224,7 @@ pb_cursor_create(pb_message_t *message, pb_tag_t tag) {
         pb_cursor_t temp = pb_cursor_copy(&cursor); temp.tag = 0;
         while (pb_cursor_next(&temp)) {
           int member = pb_field_descriptor_oneof(descriptor) ==
-            pb_field_descriptor_oneof(cursor.current.descriptor);
+            pb_field_descriptor_oneof(temp.current.descriptor);
           if (member && (cursor.error = PB_ERROR_EOM))
             break;
         }                                                  /* LCOV_EXCL_LINE */
-- 
2.43.0


From 6b48711cbebc7b1bed85a695ca0edbd349f0bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 06/45] fix: compare the sizes of strings before comparing
 their contents

A string matched each of its prefixes, and comparing with a longer string
read beyond the end of the shorter one.
---
 include/protobluff/core/string.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index ece1721..acde32b 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -127,7 +127,8 @@ pb_string_empty(const pb_string_t *string) {
 PB_INLINE int
 pb_string_equals(const pb_string_t *x, const pb_string_t *y) {
   assert(x && y);
-  return !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
+  return pb_string_size(x) == pb_string_size(y) &&
+    !memcmp(pb_string_data(x), pb_string_data(y), pb_string_size(y));
 }
 
 /* ----------------------------------------------------------------------------
-- 
2.43.0


From 5e22870213db3ab67dfa1c2266eab44c763df73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 07/45] fix: find enum values in enums with negative numbers or
 aliases

The number was used as an upper bound for the position of the value, which
does not hold if other values are negative or share a number.
---
 src/core/descriptor.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 03c7ee4..0b835db 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -160,8 +160,8 @@ pb_descriptor_extend(
 /*!
  * Retrieve the value descriptor for a given number from an enum descriptor.
  *
- * \warning To find the matching enum value descriptor quickly if any, the same
- * approach like in pb_descriptor_field_by_tag() is used.
+ * \warning Enum values are in ascending order, but may be negative or aliased,
+ * so the number is no upper bound for the array index.
  *
  * \param[in] descriptor Enum descriptor
  * \param[in] number     Number
@@ -172,7 +172,7 @@ pb_enum_descriptor_value_by_number(
     const pb_enum_descriptor_t *descriptor, pb_enum_t number) {
   assert(descriptor);
   if (descriptor->value.size) {
-    size_t v = min(number, descriptor->value.size - 1);
+    size_t v = descriptor->value.size - 1;
     do {
       if (pb_enum_value_descriptor_number(
           &(descriptor->value.data[v])) == number) {
-- 
2.43.0


From 132954e52bb7afbfc0e1ba95ecf0e78c7c918a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 08/45] fix: report a failed resize of a chunk allocator block

If growing the underlying chunk failed, the old block was returned although
it is smaller than requested, so the caller wrote beyond its end.
---
 src/util/chunk_allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index c078309..e63a6fb 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -159,7 +159,8 @@ allocator_resize(void *data, void *block, size_t size) {
         /* Return resized block */
         return block_from_chunk(head->next);
       }
-    }                                                      /* LCOV_EXCL_LINE */
+      return NULL;                                         /* LCOV_EXCL_LINE */
+    }
 
   /* Allocate new block */
   } else {
-- 
2.43.0


From ee652608b469ba9034ae6ae86929f1189f892b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 09/45] fix: stop encoding at the first error and drop partial
 output

An allocation failure for one of several values was masked by the success of
the following ones, and a failure after the key was written left a key
without a value in the buffer.
---
 src/core/encoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/encoder.c b/src/core/encoder.c
index 8c20e62..58d354c 100644
--- a/src/core/encoder.c
+++ b/src/core/encoder.c
@@ -365,6 +365,7 @@ pb_encoder_encode(
   if (unlikely_(!pb_encoder_valid(encoder)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
+  size_t recover = pb_buffer_size(&(encoder->buffer));
 
   /* Assert descriptor and correct label */
   const pb_field_descriptor_t *descriptor =
@@ -382,11 +383,15 @@ pb_encoder_encode(
 
     /* Encode values one-by-one */
     const uint8_t *temp = values;
-    for (size_t v = 0; v < size; v++) {
+    for (size_t v = 0; !error && v < size; v++) {
       assert(encoder != (void *)temp);
       error = encode(&(encoder->buffer), descriptor, temp);
       temp += type_size;
     }
   }
+
+  /* Drop partially encoded values on error */
+  if (unlikely_(error))
+    encoder->buffer.size = recover;
   return error;
 }
-- 
2.43.0


From da32072f6b29bf747cf125747e72ff473b1c8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:12 +0000
Subject: [PATCH 10/45] fix: only query the extension scope of extension fields

FieldDescriptor::extension_scope() may only be called for extensions, so the
generator aborted on every schema containing a regular field.
---
 src/generator/field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index e86edfa..c5802ec 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -77,7 +77,7 @@ namespace protobluff {
 
     /* Prefix scope to identifiers, if given */
     string prefix ("");
-    if (descriptor_->extension_scope()) {
+    if (descriptor_->is_extension() && descriptor_->extension_scope()) {
       const Descriptor *scope = descriptor_->extension_scope();
       prefix = scope->full_name();
 
-- 
2.43.0


From 38d7e2e7cfd5e818186a5569dca9f970009d73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 11/45] fix: do not exhaust the stack when decoding many
 records

---
 src/core/decoder.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 8877ea5..506b0a0 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -20,7 +20,6 @@
  * IN THE SOFTWARE.
  */
 
-#include <alloca.h>
 #include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -87,6 +86,7 @@ pb_decoder_decode(
 
   /* Iterate tag-value pairs */
   pb_stream_t stream = pb_stream_create(decoder->buffer);
+  union { pb_string_t string; uint64_t scalar; } temp;
   while (!error && pb_stream_left(&stream)) {
     pb_tag_t tag;
     if (unlikely_(error = pb_stream_read(&stream, PB_TYPE_UINT32, &tag)))
@@ -104,9 +104,8 @@ pb_decoder_decode(
       continue;
     }
 
-    /* Allocate temporary space for type-agnostic decoding */
-    size_t item = pb_field_descriptor_type_size(descriptor);
-    void *value = alloca(item);
+    /* Use temporary space for type-agnostic decoding */
+    void *value = &temp;
 
     /* Non-packed fields may also be encoded in packed encoding */
     pb_type_t type = pb_field_descriptor_type(descriptor);
-- 
2.43.0


From 9a5b5d0e5a102d40648af47badca3ad27f9d095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 12/45] fix: reject packed values that exceed the end of the
 packed field

---
 src/core/decoder.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index 506b0a0..f224cc2 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -120,10 +120,12 @@ pb_decoder_decode(
       if (pb_stream_offset(&stream) + length > pb_buffer_size(decoder->buffer))
         error = PB_ERROR_OFFSET;
 
-      /* Iterate values of packed field */
+      /* Iterate values of packed field, which must not exceed its end */
       while (!error && pb_stream_offset(&stream) < offset + length)
         if (likely_(!(error = pb_stream_read(&stream, type, value))))
-          error = handler(descriptor, value, user);
+          error = likely_(pb_stream_offset(&stream) <= offset + length)
+            ? handler(descriptor, value, user)
+            : PB_ERROR_OFFSET;
 
     /* Read value of given type from stream */
     } else {
-- 
2.43.0


From 11bea5ded4e7122a9f272e1aa90f48779caf4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 13/45] fix: treat records of a wiretype foreign to their field
 as unknown

---
 src/core/decoder.c   | 5 +++--
 src/message/cursor.c | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/decoder.c b/src/core/decoder.c
index f224cc2..b66c50c 100644
--- a/src/core/decoder.c
+++ b/src/core/decoder.c
@@ -96,10 +96,11 @@ pb_decoder_decode(
     pb_wiretype_t wiretype = tag & 7;
     tag >>= 3;
 
-    /* Check descriptor and skip field if unknown */
+    /* Check descriptor and skip field if unknown or of a foreign wiretype */
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(decoder->descriptor, tag);
-    if (unlikely_(!descriptor)) {
+    if (unlikely_(!descriptor || (wiretype != PB_WIRETYPE_LENGTH &&
+        wiretype != pb_field_descriptor_wiretype(descriptor)))) {
       error = pb_stream_skip(&stream, wiretype);
       continue;
     }
diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1429674..41ed8f0 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -152,6 +152,11 @@ next(pb_cursor_t *cursor) {
         continue;
     }
 
+    /* Skip fields of a foreign wiretype, just like unknown fields */
+    if (wiretype != PB_WIRETYPE_LENGTH && wiretype !=
+        pb_field_descriptor_wiretype(cursor->current.descriptor))
+      continue;
+
     /* Switch to packed context in case of packed field */
     if (wiretype != pb_field_descriptor_wiretype(cursor->current.descriptor) &&
         wiretype == PB_WIRETYPE_LENGTH) {
-- 
2.43.0


From ec628d67feaf70ecebf7d9fe6083805afc769037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 14/45] fix: do not overflow the validator's tags with
 extension fields

---
 src/util/validator.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/validator.c b/src/util/validator.c
index ed66c93..77b8a37 100644
--- a/src/util/validator.c
+++ b/src/util/validator.c
@@ -64,8 +64,8 @@ handler(
   assert(descriptor && value && user);
   pb_validator_tags_t *tags = user;
 
-  /* Count field occurrence */
-  int miss = 1;
+  /* Count field occurrence, if it is required */
+  int miss = pb_field_descriptor_label(descriptor) == PB_LABEL_REQUIRED;
   for (size_t t = 0; miss && t < tags->size; ++t)
     if (tags->data[t] == pb_field_descriptor_tag(descriptor))
       miss = 0;
-- 
2.43.0


From 7448c80ede60d3c335097ee2d1cdc890a15c8bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 15/45] fix: align the packed context of cursors over packed
 data of unpacked fields

---
 src/message/cursor.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 41ed8f0..ac0064a 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -553,8 +553,7 @@ pb_cursor_align(pb_cursor_t *cursor) {
     pb_version_t version = pb_cursor_version(cursor);
 
     /* Align current packed context offset, if given */
-    const pb_field_descriptor_t *descriptor = cursor->current.descriptor;
-    if (pb_field_descriptor_packed(descriptor)) {
+    if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
       error = pb_journal_align(pb_cursor_journal(cursor),
         &version, &(cursor->current.packed));
-- 
2.43.0


From 4d160c80f6458849e8926c7445960ae7fcd836e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 16/45] fix: do not continue a cursor over a removed message

---
 src/message/cursor.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index ac0064a..044b898 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -333,6 +333,10 @@ pb_cursor_next(pb_cursor_t *cursor) {
   int result = 0;
   if (pb_cursor_valid(cursor)) {
     pb_cursor_align(cursor);
+    if (unlikely_(!pb_message_valid(&(cursor->message)))) {
+      cursor->error = PB_ERROR_INVALID;
+      return 0;
+    }
     do {
       result = cursor->current.packed.end
         ? next_packed(cursor)
-- 
2.43.0


From bd8857967f392b0fe80faa7a271136f0aba62dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 17/45] fix: refuse to access the erased element of a cursor

---
 src/message/part.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message/part.c b/src/message/part.c
index b1c8b7b..1fee112 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -494,6 +494,10 @@ pb_part_create_from_cursor(pb_cursor_t *cursor) {
   assert(cursor);
   if (pb_cursor_valid(cursor) && !pb_cursor_align(cursor)) {
     const pb_offset_t *offset = pb_cursor_offset(cursor);
+
+    /* If the current element was erased, there's nothing to create */
+    if (!offset->diff.tag && offset->start == offset->end)
+      return pb_part_create_invalid();
     pb_part_t part = {
       .journal = pb_cursor_journal(cursor),
       .version = pb_cursor_version(cursor),
-- 
2.43.0


From 23aa7936da4666802fb1a9d062dac1f3eab5c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 18/45] fix: create a packed field when appending to unpacked
 values

---
 src/message/part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 1fee112..869959d 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -429,7 +429,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
       /* Initialize length prefix of part underlying a packed field */
       if (pb_field_descriptor_packed(descriptor)) {
-        if (tag != pb_cursor_tag(&cursor)) {
+        if (tag != pb_cursor_tag(&cursor) || !cursor.current.packed.end) {
           init(&part, PB_WIRETYPE_LENGTH, tag);
 
           /* Correct offsets for packed field */
-- 
2.43.0


From 8fbfedf1be62cd22a2f9c1e3177721d2f89b4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 19/45] fix: find existing fields followed by fields with
 smaller tags

---
 src/message/part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 869959d..1720a1d 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -365,7 +365,8 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
     pb_cursor_t temp   = pb_cursor_copy(&cursor);
     if (pb_cursor_valid(&temp)) {
       do {
-        if (pb_cursor_tag(&temp) <= tag) {
+        if (pb_cursor_tag(&temp) == tag || (pb_cursor_tag(&temp) < tag &&
+            pb_cursor_tag(&cursor) != tag)) {
           pb_cursor_destroy(&cursor);
           cursor = pb_cursor_copy(&temp);
         }
-- 
2.43.0


From c9907823ead637baab741e5b114cd50fed50b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 20/45] fix: report a failure to erase the other members of a
 oneof

---
 src/message/part.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/message/part.c b/src/message/part.c
index 1720a1d..c67f5b6 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -383,15 +383,20 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
 
         /* If the tag is part of a oneof ensure it is the active tag */
         if (pb_field_descriptor_label(descriptor) == PB_LABEL_ONEOF) {
+          pb_error_t error = PB_ERROR_NONE;
           temp = pb_cursor_copy(&cursor);
           do {
             int member = pb_field_descriptor_oneof(descriptor) ==
               pb_field_descriptor_oneof(pb_cursor_descriptor(&temp));
             if (member && tag != pb_cursor_tag(&temp))
-              if (pb_cursor_erase(&temp))
+              if ((error = pb_cursor_erase(&temp)))
                 break;                                     /* LCOV_EXCL_LINE */
           } while (pb_cursor_next(&temp));
           pb_cursor_destroy(&temp);
+          if (unlikely_(error)) {
+            pb_cursor_destroy(&cursor);
+            break;                                         /* LCOV_EXCL_LINE */
+          }
 
           /* Ensure alignment of cursor and message */
           pb_cursor_align(&cursor);
-- 
2.43.0


From 36dc67c8154d4f58d13246c072d661d70b59d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 21/45] fix: do not replace a present empty string with the
 default value

---
 src/message/field.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/message/field.c b/src/message/field.c
index 488dfea..9b3f842 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -94,11 +94,20 @@ default_map[] = {
  */
 extern pb_field_t
 pb_field_create(pb_message_t *message, pb_tag_t tag) {
+  assert(message && tag);
+  pb_version_t version = pb_message_valid(message) && !pb_message_align(message)
+    ? pb_message_version(message)
+    : 0;
   pb_field_t field = pb_field_create_without_default(message, tag);
   if (pb_field_valid(&field) && pb_field_empty(&field)) {
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
 
+    /* The field is present and holds an empty string */
+    if (pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED &&
+        pb_field_version(&field) == version)
+      return field;
+
     /* Write explicit or implicit default value to field */
     const void *value = pb_field_descriptor_default(descriptor)
       ? pb_field_descriptor_default(descriptor)
-- 
2.43.0


From 4f258fc1730bcb4a4875e10f825bb1012031f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 22/45] fix: align offsets exactly with the journal

An entry at the very start or end of a part was attributed to the wrong side
of its boundary in several situations (values of packed fields, empty parts,
updates of length prefixes of enclosing messages, removals next to a removed
part), so handles ended up with offsets of other parts. Offsets are now mapped
position by position, and the origin of an entry decides in ambiguous cases.
Cursors over an erased part proceed from its former location.
---
 src/message/cursor.c  |  15 +++-
 src/message/journal.c | 199 +++++++++++++++++++++++++++---------------
 2 files changed, 140 insertions(+), 74 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 044b898..d2340f7 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -565,8 +565,19 @@ pb_cursor_align(pb_cursor_t *cursor) {
 
     /* Align current cursor offset */
     if (!(error = pb_message_align(&(cursor->message)))) {
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.offset));
+      pb_offset_t *offset = &(cursor->current.offset);
+      int erased = !offset->diff.tag && offset->start == offset->end;
+      error = pb_journal_align(pb_cursor_journal(cursor), &version, offset);
+
+      /* If the current part was erased, proceed from where it was located */
+      if (erased || error) {
+        if (offset->start < pb_message_start(&(cursor->message)))
+          offset->start = pb_message_start(&(cursor->message));
+        if (offset->start > pb_message_end(&(cursor->message)))
+          offset->start = pb_message_end(&(cursor->message));
+        offset->end = offset->start;
+        offset->diff.tag = 0;
+      }
     }
   }
   return error;
diff --git a/src/message/journal.c b/src/message/journal.c
index f71a6ef..0bdd599 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -86,6 +86,113 @@ pop(pb_journal_t *journal) {
 
 /* LCOV_EXCL_STOP <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<< */
 
+/*!
+ * Retrieve a position after the removal of data.
+ *
+ * \param[in] entry    Journal entry
+ * \param[in] position Position
+ * \return             Position
+ */
+static size_t
+removed(const pb_journal_entry_t *entry, size_t position) {
+  assert(entry && entry->delta < 0);
+  size_t from = entry->offset + entry->delta;
+  return position >= entry->offset
+    ? position + entry->delta
+    : position < from ? position : from;
+}
+
+/*!
+ * Align an offset with an entry that removed data.
+ *
+ * If the part was removed, the offset is reset to the position of the removed
+ * data, but keeps its origin, so cursors may proceed from there.
+ *
+ * \param[in]     entry  Journal entry
+ * \param[in,out] offset Offset
+ * \return               Test result
+ */
+static int
+align_removal(const pb_journal_entry_t *entry, pb_offset_t *offset) {
+  assert(entry && offset);
+  pb_offset_t aligned = {
+    .start = removed(entry, offset->start),
+    .end   = removed(entry, offset->end)
+  };
+  aligned.diff.origin = removed(entry,
+    offset->start + offset->diff.origin) - aligned.start;
+
+  /* The part (which is not the entire buffer) lies within the removed data */
+  int result = (offset->diff.origin || offset->diff.tag) &&
+    offset->start + offset->diff.tag >= entry->offset + entry->delta &&
+    offset->end <= entry->offset;
+
+  /* Apply update on relative offsets */
+  if (!result && offset->diff.tag) {
+    aligned.diff.tag    = removed(entry,
+      offset->start + offset->diff.tag) - aligned.start;
+    aligned.diff.length = removed(entry,
+      offset->start + offset->diff.length) - aligned.start;
+  }
+  *offset = aligned;
+  return result;
+}
+
+/*!
+ * Align an offset with an entry that added data.
+ *
+ * \param[in]     entry  Journal entry
+ * \param[in,out] offset Offset
+ * \return               Test result
+ */
+static int
+align_addition(const pb_journal_entry_t *entry, pb_offset_t *offset) {
+  assert(entry && offset);
+  size_t origin = offset->start + offset->diff.origin,
+         tag    = offset->start + offset->diff.tag,
+         length = offset->start + offset->diff.length;
+
+  /* Values of packed fields and removed parts don't have a tag */
+  int value = !offset->diff.tag && (offset->diff.origin || offset->start);
+  int empty = offset->start == offset->end;
+
+  /* Determine whether the origin must be moved */
+  int parent = origin > entry->offset || (origin == entry->offset &&
+    (value && empty ? entry->origin + 1 == entry->offset
+                    : entry->origin < entry->offset));
+
+  /* Determine whether the part must be moved */
+  int move = offset->start > entry->offset;
+  if (offset->start == entry->offset)
+    move = value
+      ? !empty || parent || entry->origin > origin
+      : entry->origin < entry->offset &&
+        (!empty || (offset->diff.length && entry->origin == length));
+
+  /* Determine whether the part must be resized */
+  int resize = offset->end > entry->offset;
+  if (offset->end == entry->offset)
+    resize = value
+      ? !empty && entry->origin == offset->start
+      : entry->origin >= offset->start;
+
+  /* Update offset */
+  if (move)
+    offset->start += entry->delta;
+  if (move || resize)
+    offset->end   += entry->delta;
+  offset->diff.origin = origin + (parent ? entry->delta : 0) - offset->start;
+  if (offset->diff.tag) {
+    if (tag >= entry->offset)
+      tag    += entry->delta;
+    if (length > entry->offset || (length == entry->offset && move))
+      length += entry->delta;
+    offset->diff.tag    = tag    - offset->start;
+    offset->diff.length = length - offset->start;
+  }
+  return 0;
+}
+
 /* ----------------------------------------------------------------------------
  * Interface
  * ------------------------------------------------------------------------- */
@@ -286,7 +393,16 @@ pb_journal_clear(
  * from or to the underlying buffer. However, it's very tricky to get right,
  * as there are three major scenarios as well as some edge cases:
  *
- * -# The change happened before the current part, so the part must be moved by
+ * -# Data was removed, in which case the part is gone when it was completely
+ *    contained in the removed data. Otherwise all positions behind the removed
+ *    data are moved by the given delta.
+ *
+ *    \code{.unparsed}
+ *      ... [ T ][ L ][ ... ] ...
+ *        ^^^^^^^^^^^^^^^^^^^^^
+ *    \endcode
+ *
+ * -# Data was added before the current part, so the part must be moved by
  *    the given delta. There are two cases which can trigger this scenario:
  *
  *    -# Update on a preceding part, either located in the current message, in
@@ -302,28 +418,19 @@ pb_journal_clear(
  *                 ^              (b)
  *    \endcode
  *
- * -# The change happened within the current part, so the part must either be
- *    resized or cleared completely:
- *
- *    -# The update happened somewhere inside the current part, which makes it
- *       necessary to resize the current part by the given delta.
- *
- *    -# The update involves the whole part from start to end and a negative
- *       delta is given which matches its size, so the part was cleared.
+ * -# Data was added somewhere inside the current part, so the part must be
+ *    resized by the given delta.
  *
  *    \code{.unparsed}
  *      ... [ T ][ L ][ ... ] ...
- *                      ^         (a)
- *          ^^^^^^^^^^^^^^^^^     (b)
+ *                      ^
  *    \endcode
  *
- * -# The change happened outside the current part and the delta is negative,
- *    which means that the current part must be cleared completley.
- *
- *    \code{.unparsed}
- *      ... [ T ][ L ][ ... ] ...
- *        ^^^^^^^^^^^^^^^^^^^^^
- *    \endcode
+ * When data is added right at the start or end of a part, the offset alone
+ * doesn't tell on which side of the part's boundary it was added. The origin
+ * of the entry settles this: it is the start of the containing message for a
+ * new part, the start of the part for an update of its value, and the offset
+ * of the length prefix for the update of a length prefix.
  *
  * If a parent message is resized, nothing needs to be done, as the current
  * part is contained and seemingly not affected by the update, so this is a
@@ -346,61 +453,9 @@ pb_journal_align(
   uint8_t invalid = 0;
   while (*version < journal->entry.size) {
     const pb_journal_entry_t *entry = &journal->entry.data[*version];
-
-    /* Change happened before current part: move */
-    if (entry->origin < offset->start &&
-        entry->offset < offset->end) {
-      offset->start += entry->delta;
-      offset->end   += entry->delta;
-
-      /* Apply potential update on relative offsets */
-      ptrdiff_t *diff[3] = {
-        &(offset->diff.origin),
-        &(offset->diff.tag),
-        &(offset->diff.length)
-      };
-      for (size_t d = 0; d < 3; ++d)
-        if (entry->offset > offset->start + *(diff[d]) - entry->delta)
-          *(diff[d]) -= entry->delta;
-
-    /* Change happened within current part: resize or clear */
-    } else if (entry->origin >= offset->start + offset->diff.origin &&
-               entry->offset <= offset->end) {
-
-      /* Change happened inside current part: resize */
-      if (entry->origin >= offset->start) {
-        offset->end += entry->delta;
-
-        /* Current part is a packed field: invalidate */
-        if (offset->diff.origin && !offset->diff.tag &&
-            offset->start == offset->end)
-          invalid = 1;
-
-      /* Current part was cleared: clear */
-      } else if (offset->start + offset->diff.tag >=
-                 offset->end   + entry->delta) {
-        offset->start      += offset->diff.tag;
-        offset->end        += entry->delta;
-        offset->diff.origin = 0;
-        offset->diff.tag    = 0;
-        offset->diff.length = 0;
-
-        /* Invalidate after alignment */
-        invalid = 1;
-      }
-
-    /* Change happened outside current part: clear */
-    } else if (entry->origin <= offset->start + offset->diff.origin &&
-               entry->origin == entry->offset + entry->delta) {
-      offset->start       = entry->origin;
-      offset->end         = entry->origin;
-      offset->diff.origin = 0;
-      offset->diff.tag    = 0;
-      offset->diff.length = 0;
-
-      /* Invalidate after alignment */
+    if (entry->delta < 0 ? align_removal(entry, offset)
+                         : align_addition(entry, offset))
       invalid = 1;
-    }
     (*version)++;
   }
 
-- 
2.43.0


From 215d9bde5042bc1de8ce125547b7000585ca936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 23/45] fix: report erasing a field of a removed message

pb_message_erase() returned success for the first call on a message which was
removed through another handle, but an error for all subsequent ones.
---
 src/message/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/message.c b/src/message/message.c
index fd3a7d5..a2a1f86 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -364,7 +364,7 @@ pb_message_put(pb_message_t *message, pb_tag_t tag, const void *value) {
 extern pb_error_t
 pb_message_erase(pb_message_t *message, pb_tag_t tag) {
   assert(message && tag);
-  if (unlikely_(!pb_message_valid(message)))
+  if (unlikely_(!pb_message_valid(message) || pb_message_align(message)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
-- 
2.43.0


From 2f29f8f2d438599e4ab45380a55f6b65887fe153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 24/45] fix: create oneof members at the aligned start of the
 message

Erasing the other members may shrink the length prefix of the message and
thereby move its start, but the insertion offset was determined before.
---
 src/message/part.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message/part.c b/src/message/part.c
index c67f5b6..9b4d6af 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -402,6 +402,7 @@ pb_part_create(pb_message_t *message, pb_tag_t tag) {
           pb_cursor_align(&cursor);
           if (pb_message_align(message))
             break;                                         /* LCOV_EXCL_LINE */
+          start = pb_message_start(message);
         }
 
         /* If the tag matches and the field is non-repeated, we're done */
-- 
2.43.0


From c31e35f5f2c91ad9f09ef4669ed7a3c5b45408f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 25/45] fix: leave the context of an erased packed field in
 cursors

The offset of a packed field erased at the very start of the buffer could
come back to life with the next field written there.
---
 src/message/cursor.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index d2340f7..1acda13 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -556,11 +556,12 @@ pb_cursor_align(pb_cursor_t *cursor) {
   if (unlikely_(!pb_cursor_aligned(cursor))) {
     pb_version_t version = pb_cursor_version(cursor);
 
-    /* Align current packed context offset, if given */
+    /* Align current packed context offset, if given, or leave it, if erased */
     if (cursor->current.packed.end) {
       pb_version_t version = pb_cursor_version(cursor);
-      error = pb_journal_align(pb_cursor_journal(cursor),
-        &version, &(cursor->current.packed));
+      if (pb_journal_align(pb_cursor_journal(cursor),
+          &version, &(cursor->current.packed)))
+        cursor->current.packed.end = 0;
     }
 
     /* Align current cursor offset */
-- 
2.43.0


From b261d98ddf834e9e4909dc93510e9f0cad5910b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 26/45] fix: only accept negative int32 values with proper sign
 extension

---
 src/core/varint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/varint.c b/src/core/varint.c
index fa1dec7..a9684c4 100644
--- a/src/core/varint.c
+++ b/src/core/varint.c
@@ -526,7 +526,8 @@ extern size_t
 pb_varint_unpack_int32(const uint8_t data[], size_t left, void *value) {
   size_t size = pb_varint_unpack_uint32(data, left, value);
   return size ? size :
-    left >= 10 && data[4] & 0x80 && data[5] == 0xFF ? 10 : 0;
+    left >= 10 && data[4] & 0x80 && data[5] == 0xFF && data[6] == 0xFF &&
+    data[7] == 0xFF && data[8] == 0xFF && data[9] == 0x01 ? 10 : 0;
 }
 
 /*!
-- 
2.43.0


From 96f80f34402bc7f05a1ad3f3a74265c4e4db7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 27/45] fix: position iterators at the end of descriptors with
 a single entry

---
 include/protobluff/core/descriptor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/protobluff/core/descriptor.h b/include/protobluff/core/descriptor.h
index 1d35cf3..0f847f5 100644
--- a/include/protobluff/core/descriptor.h
+++ b/include/protobluff/core/descriptor.h
@@ -376,7 +376,7 @@ int
 pb_descriptor_iter_end(pb_descriptor_iter_t *it) {
   assert(it);
   return !pb_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -543,7 +543,7 @@ int
 pb_enum_descriptor_iter_end(pb_enum_descriptor_iter_t *it) {
   assert(it);
   return !pb_enum_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_enum_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_enum_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
@@ -684,7 +684,7 @@ int
 pb_oneof_descriptor_iter_end(pb_oneof_descriptor_iter_t *it) {
   assert(it);
   return !pb_oneof_descriptor_empty(it->descriptor)
-    ? !!(it->pos = pb_oneof_descriptor_size(it->descriptor) - 1)
+    ? (it->pos = pb_oneof_descriptor_size(it->descriptor) - 1, 1)
     : 0;
 }
 
-- 
2.43.0


From c464e4d2d3d74b9f6d8a41e1b8722ccc9b0ea5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 28/45] fix: Destroyed zero-copy buffers and journals are
 invalid

---
 src/core/buffer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index 499142b..ed49e95 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -129,14 +129,12 @@ pb_buffer_create_zero_copy(uint8_t data[], size_t size) {
 extern void
 pb_buffer_destroy(pb_buffer_t *buffer) {
   assert(buffer);
-  if (buffer->allocator &&
-      buffer->allocator != &allocator_zero_copy) {
-    if (buffer->data) {
+  if (buffer->allocator) {
+    if (buffer->allocator != &allocator_zero_copy && buffer->data)
       pb_allocator_free(buffer->allocator, buffer->data);
-      buffer->data = NULL;
-      buffer->size = 0;
-    }
     buffer->allocator = NULL;
+    buffer->data      = NULL;
+    buffer->size      = 0;
   }
 }
 
-- 
2.43.0


From d0db837adb8be9dac74760aad4f496a98a0ba55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 29/45] fix: Refuse blocks whose chunk capacity cannot be
 represented

---
 src/util/chunk_allocator.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk_allocator.c b/src/util/chunk_allocator.c
index e63a6fb..052de26 100644
--- a/src/util/chunk_allocator.c
+++ b/src/util/chunk_allocator.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <stdint.h>
+#include <stdint.h>
 #include <stdlib.h>
 
 #include "core/allocator.h"
@@ -61,6 +62,26 @@ typedef struct pb_chunk_allocator_t {
   (assert(block), (void *)((uint8_t *)(block) - \
     sizeof(pb_chunk_allocator_t)))
 
+/* ----------------------------------------------------------------------------
+ * Internal functions
+ * ------------------------------------------------------------------------- */
+
+/*!
+ * Calculate the capacity necessary for a memory block of given size.
+ *
+ * \param[in] base First chunk
+ * \param[in] size Bytes to be allocated
+ * \return         Capacity, or zero if it cannot be represented
+ */
+static size_t
+capacity_for(const pb_chunk_allocator_t *base, size_t size) {
+  assert(base && size);
+  size_t count = size / base->capacity + 1;
+  return count <= (SIZE_MAX - sizeof(pb_chunk_allocator_t)) / base->capacity
+    ? base->capacity * count
+    : 0;
+}
+
 /* ----------------------------------------------------------------------------
  * Allocator callbacks
  * ------------------------------------------------------------------------- */
@@ -98,7 +119,9 @@ allocator_allocate(void *data, size_t size) {
     head = head->next;
 
   /* Calculate necessary capacity */
-  size_t capacity = base->capacity * (size / base->capacity + 1);
+  size_t capacity = capacity_for(base, size);
+  if (unlikely_(!capacity))
+    return NULL;
 
   /* Allocate chunk and link in predecessor */
   pb_chunk_allocator_t *chunk = malloc(
@@ -147,7 +170,9 @@ allocator_resize(void *data, void *block, size_t size) {
         head = head->next;
 
       /* Calculate new capacity */
-      size_t capacity = base->capacity * (size / base->capacity + 1);
+      size_t capacity = capacity_for(base, size);
+      if (unlikely_(!capacity))
+        return NULL;
 
       /* Grow chunk and link in predecessor */
       pb_chunk_allocator_t *chunk = realloc(head->next,
-- 
2.43.0


From ddb874eb4eb96a423b012219d91021456ec886d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 30/45] fix: report a malformed record at the end of a message
 instead of end of message

---
 src/message/cursor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index 1acda13..bb36a9a 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -175,7 +175,7 @@ next(pb_cursor_t *cursor) {
   }
 
   /* Invalidate cursor if at end */
-  if (!(pb_stream_left(&stream) && cursor->error))
+  if (!cursor->error)
     cursor->error = PB_ERROR_EOM;
 
   /* Cleanup and return */
-- 
2.43.0


From 5a773017a801a0cabaeff4158f1ace2fc0015b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 31/45] fix: clearing a oneof reports the malformed record it
 stopped at

---
 src/message/oneof.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message/oneof.c b/src/message/oneof.c
index ed43417..3c40f4f 100644
--- a/src/message/oneof.c
+++ b/src/message/oneof.c
@@ -101,5 +101,10 @@ pb_oneof_clear(pb_oneof_t *oneof) {
         error = pb_cursor_erase(&(oneof->cursor));
     } while (!error && pb_cursor_next(&(oneof->cursor)));
   }
+
+  /* Don't indicate an error, if the cursor just reached the end */
+  if (!error && pb_message_valid(&(oneof->cursor.message)) &&
+      (error = pb_cursor_error(&(oneof->cursor))) == PB_ERROR_EOM)
+    error = PB_ERROR_NONE;
   return error;
 }
-- 
2.43.0


From 7c687260f0f2ff83b51f3f07b84352a1ae27224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 32/45] fix: erasing a field reports records of an illegal wire
 type

---
 src/message/message.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/message/message.c b/src/message/message.c
index a2a1f86..4bec9d4 100644
--- a/src/message/message.c
+++ b/src/message/message.c
@@ -382,9 +382,8 @@ pb_message_erase(pb_message_t *message, pb_tag_t tag) {
       do {
         error = pb_cursor_erase(&cursor);
       } while (!error && pb_cursor_next(&cursor));
-    if (!error && (error = pb_cursor_error(&cursor)))
-      if (error == PB_ERROR_INVALID || error == PB_ERROR_EOM)
-        error = PB_ERROR_NONE;
+    if (!error && (error = pb_cursor_error(&cursor)) == PB_ERROR_EOM)
+      error = PB_ERROR_NONE;
     pb_cursor_destroy(&cursor);
 
   /* Clear oneof */
-- 
2.43.0


From 14edbc18d5806203906d5e858f4bf34dae25634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 33/45] fix: plugin: compute indexes of oneof members over the
 sorted fields

---
 src/generator/oneof.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 82fcd5d..93902f2 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -137,8 +137,9 @@ namespace protobluff {
     sort(tags.begin(), tags.end());
 
     /* Generate indexes */
-    for (size_t f = 0, g = 0; f < descriptor->field_count(); f++) {
-      if (descriptor->field(f) == descriptor_->field(g)) {
+    for (size_t f = 0, g = 0; f < tags.size(); f++) {
+      if (descriptor->FindFieldByNumber(tags[f])->containing_oneof() ==
+          descriptor_) {
         printer->Print("`index`", "index", SimpleItoa(f));
         if (g < descriptor_->field_count() - 1)
           printer->Print(", ");
-- 
2.43.0


From 91158b04ece8198d4e8be21aeafdffbeadde8732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 34/45] fix: plugin: pass the oneof descriptor in generated
 case accessors

---
 src/generator/oneof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/oneof.cc b/src/generator/oneof.cc
index 93902f2..d39c355 100644
--- a/src/generator/oneof.cc
+++ b/src/generator/oneof.cc
@@ -170,7 +170,7 @@ namespace protobluff {
       "  assert(pb_message_descriptor(message) == \n"
       "    &`message`_descriptor);\n"
       "  pb_oneof_t oneof = pb_oneof_create(\n"
-      "    &`message`_descriptor, message);\n"
+      "    &`oneof`_descriptor, message);\n"
       "  pb_tag_t tag = pb_oneof_case(&oneof);\n"
       "  pb_oneof_destroy(&oneof);\n"
       "  return tag;\n"
-- 
2.43.0


From 4a02b1ec088781e671dcc1d1ac67927076070062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 35/45] fix: plugin: escape default values of string and bytes
 fields

---
 src/generator/field.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index c5802ec..64a8ce5 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -55,6 +55,7 @@ namespace protobluff {
   using ::google::protobuf::FieldDescriptor;
   using ::google::protobuf::io::Printer;
 
+  using ::google::protobuf::CEscape;
   using ::google::protobuf::HasPrefixString;
   using ::google::protobuf::JoinStrings;
   using ::google::protobuf::LowerString;
@@ -222,11 +223,8 @@ namespace protobluff {
           break;
         case FieldDescriptor::CPPTYPE_STRING:
           variables_["default"] = "pb_string_const(\""
-            + descriptor_->default_value_string() + "\"";
-          if (descriptor_->type() == FieldDescriptor::TYPE_BYTES)
-            variables_["default"] += ", " + SimpleItoa(
-              descriptor_->default_value_string().length());
-          variables_["default"] += ")";
+            + StringReplace(CEscape(
+              descriptor_->default_value_string()), "?", "\\?", true) + "\")";
           break;
         default:
           return;
-- 
2.43.0


From b03e89acd36f6f2c99695f39ce1ab91ca6b4f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 36/45] fix: plugin: generate constant expressions for inf, nan
 and -0 defaults

---
 src/generator/field.cc | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 64a8ce5..29f6baa 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -67,6 +67,25 @@ namespace protobluff {
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
+  /*!
+   * Convert a formatted floating point value to a constant expression.
+   *
+   * \param[in] value Formatted value
+   * \return          Constant expression
+   */
+  static string
+  FloatLiteral(const string &value) {
+    if (value == "inf")
+      return "(1.0 / 0.0)";
+    if (value == "-inf")
+      return "(-1.0 / 0.0)";
+    if (value == "nan" || value == "-nan")
+      return "(0.0 / 0.0)";
+    if (value == "-0")
+      return "-0.0";
+    return value;
+  }
+
   /*!
    * Create a field generator.
    *
@@ -206,12 +225,12 @@ namespace protobluff {
             descriptor_->default_value_uint64()) + "ULL";
           break;
         case FieldDescriptor::CPPTYPE_FLOAT:
-          variables_["default"] = SimpleFtoa(
-            descriptor_->default_value_float());
+          variables_["default"] = FloatLiteral(
+            SimpleFtoa(descriptor_->default_value_float()));
           break;
         case FieldDescriptor::CPPTYPE_DOUBLE:
-          variables_["default"] = SimpleDtoa(
-            descriptor_->default_value_double());
+          variables_["default"] = FloatLiteral(
+            SimpleDtoa(descriptor_->default_value_double()));
           break;
         case FieldDescriptor::CPPTYPE_BOOL:
           variables_["default"] =
-- 
2.43.0


From 787afa3fc8587407b467daf47bc955bd8ba51a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 37/45] fix: plugin: don't generate defaults for oneof members

---
 src/generator/field.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generator/field.cc b/src/generator/field.cc
index 29f6baa..a300fc8 100644
--- a/src/generator/field.cc
+++ b/src/generator/field.cc
@@ -844,12 +844,16 @@ namespace protobluff {
   /*!
    * Check whether a field defines a default value.
    *
+   * Members of oneofs don't have default values, as the value pointer of their
+   * descriptor references the descriptor of the oneof.
+   *
    * \return Test result
    */
   bool Field::
   HasDefault() const {
-    return descriptor_->has_default_value() ||
-      (descriptor_->enum_type() && descriptor_->is_optional());
+    return !descriptor_->containing_oneof() &&
+      (descriptor_->has_default_value() ||
+        (descriptor_->enum_type() && descriptor_->is_optional()));
   }
 
   /*!
-- 
2.43.0


From 81dafd7cf33c4dda1af983834b23a5447326de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 38/45] fix: plugin: make include guards valid identifiers for
 any file name

---
 src/generator/file.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 2fdf0f4..0d3f6ca 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -54,8 +54,8 @@ namespace protobluff {
   using ::google::protobuf::FileOptions;
   using ::google::protobuf::io::Printer;
 
+  using ::google::protobuf::ascii_isalnum;
   using ::google::protobuf::SimpleItoa;
-  using ::google::protobuf::StringReplace;
   using ::google::protobuf::StripSuffixString;
   using ::google::protobuf::UpperString;
 
@@ -110,11 +110,13 @@ namespace protobluff {
     variables_["package"]  = descriptor_->package().size() > 0
       ? descriptor_->package() : "-";
 
-    /* Extract and prepare guard name */
-    variables_["guard"] = StringReplace(
-      StripSuffixString(descriptor_->name(), ".proto"),
-    ".", "_", true);
-    UpperString(&(variables_["guard"]));
+    /* Extract and prepare guard name, which must be a valid identifier */
+    string guard = StripSuffixString(descriptor_->name(), ".proto");
+    for (size_t c = 0; c < guard.size(); c++)
+      if (!ascii_isalnum(guard[c]))
+        guard[c] = '_';
+    UpperString(&guard);
+    variables_["guard"] = guard;
 
     /* Prepare current runtime version */
     variables_["version"] = SimpleItoa(PB_VERSION);
-- 
2.43.0


From e403c1401880aa887968812ea810a1d1fcf27959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 39/45] fix: plugin: generate defaults of nested extensions in
 all cases

---
 src/generator/file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/generator/file.cc b/src/generator/file.cc
index 0d3f6ca..5e8ce43 100644
--- a/src/generator/file.cc
+++ b/src/generator/file.cc
@@ -412,6 +412,15 @@ namespace protobluff {
       if (extensions_[e]->HasDefaults())
         return true;
 
+    /* Check nested extensions for default values */
+    for (size_t m = 0; m < descriptor_->message_type_count(); m++) {
+      const vector<const Extension *> extensions =
+        messages_[m]->GetExtensions();
+      for (size_t e = 0; e < extensions.size(); e++)
+        if (extensions[e]->HasDefaults())
+          return true;
+    }
+
     /* No default values */
     return false;
   }
-- 
2.43.0


From f05287718f629f44840b61a4b1564fb7da56629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 40/45] fix: don't assert on writing an empty string

---
 src/message/buffer.c  | 2 +-
 src/message/journal.c | 2 +-
 src/message/part.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message/buffer.c b/src/message/buffer.c
index 2fb3abb..f1ab614 100644
--- a/src/message/buffer.c
+++ b/src/message/buffer.c
@@ -53,7 +53,7 @@ extern pb_error_t
 pb_buffer_write(
     pb_buffer_t *buffer, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(buffer && data && size);
+  assert(buffer && (data || !size));
   if (unlikely_(!pb_buffer_valid(buffer)))
     return PB_ERROR_INVALID;
 
diff --git a/src/message/journal.c b/src/message/journal.c
index 0bdd599..2b7897d 100644
--- a/src/message/journal.c
+++ b/src/message/journal.c
@@ -328,7 +328,7 @@ extern pb_error_t
 pb_journal_write(
     pb_journal_t *journal, size_t origin, size_t start, size_t end,
     const uint8_t data[], size_t size) {
-  assert(journal && data && size);
+  assert(journal && (data || !size));
   if (unlikely_(!pb_journal_valid(journal)))
     return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
diff --git a/src/message/part.c b/src/message/part.c
index 9b4d6af..7cdbfc2 100644
--- a/src/message/part.c
+++ b/src/message/part.c
@@ -550,7 +550,7 @@ pb_part_error(const pb_part_t *part) {
  */
 extern pb_error_t
 pb_part_write(pb_part_t *part, const uint8_t data[], size_t size) {
-  assert(part && data && size);
+  assert(part && (data || !size));
   if (!pb_part_valid(part) || (!pb_part_aligned(part) && pb_part_align(part)))
     return PB_ERROR_INVALID;
 
-- 
2.43.0


From 042aacacf9257e7d14f22051751fa9c6c5b85801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 41/45] fix: assertion in nested access checks the descriptor
 of the current message

---
 src/message/nested.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/nested.c b/src/message/nested.c
index 48d23f7..ecce423 100644
--- a/src/message/nested.c
+++ b/src/message/nested.c
@@ -62,7 +62,7 @@ resolve(pb_message_t *message, const pb_tag_t tags[], size_t size) {
 
     /* Assert non-repeated messages */
     const pb_field_descriptor_t *descriptor =
-      pb_descriptor_field_by_tag(pb_message_descriptor(message), tags[t]);
+      pb_descriptor_field_by_tag(pb_message_descriptor(&temp), tags[t]);
     assert(descriptor &&
       pb_field_descriptor_type(descriptor)  == PB_TYPE_MESSAGE &&
       pb_field_descriptor_label(descriptor) != PB_LABEL_REPEATED);
-- 
2.43.0


From 4a142e60ceaf92a5e1d17328cc25c65768a7e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 42/45] fix: align a new field before testing whether it is
 empty

---
 src/message/field.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message/field.c b/src/message/field.c
index 9b3f842..1b4fd4a 100644
--- a/src/message/field.c
+++ b/src/message/field.c
@@ -99,7 +99,8 @@ pb_field_create(pb_message_t *message, pb_tag_t tag) {
     ? pb_message_version(message)
     : 0;
   pb_field_t field = pb_field_create_without_default(message, tag);
-  if (pb_field_valid(&field) && pb_field_empty(&field)) {
+  if (pb_field_valid(&field) && !pb_field_align(&field) &&
+      pb_field_empty(&field)) {
     const pb_field_descriptor_t *descriptor =
       pb_descriptor_field_by_tag(pb_message_descriptor(message), tag);
 
-- 
2.43.0


From 0bba5239ca48b81d9c478d899db65a421b0679ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 43/45] fix: aligning a cursor of an erased message returns an
 error

---
 src/message/cursor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message/cursor.c b/src/message/cursor.c
index bb36a9a..d10cbcb 100644
--- a/src/message/cursor.c
+++ b/src/message/cursor.c
@@ -550,6 +550,8 @@ extern pb_error_t
 pb_cursor_align(pb_cursor_t *cursor) {
   assert(cursor);
   assert(pb_cursor_valid(cursor));
+  if (unlikely_(!pb_message_valid(&(cursor->message))))
+    return PB_ERROR_INVALID;
   pb_error_t error = PB_ERROR_NONE;
 
   /* Check if cursor is already aligned */
-- 
2.43.0


From f8612c9b85afbbc873a733c2c91ea4ff7fc3c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 44/45] fix: don't assert on a tag of zero, which malformed
 messages may contain

---
 src/core/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/descriptor.c b/src/core/descriptor.c
index 0b835db..3dec21c 100644
--- a/src/core/descriptor.c
+++ b/src/core/descriptor.c
@@ -117,7 +117,7 @@ pb_field_descriptor_wiretype_map[] = {
 extern const pb_field_descriptor_t *
 pb_descriptor_field_by_tag(
     const pb_descriptor_t *descriptor, pb_tag_t tag) {
-  assert(descriptor && tag);
+  assert(descriptor);
   for (size_t f = min(tag, descriptor->field.size); f > 0; ) {
     if (pb_field_descriptor_tag(
         &(descriptor->field.data[--f])) == tag) {
-- 
2.43.0


From 5d118dd0811c728a8e6ab59fa924ecf16bfe1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 45/45] fix: allow the creation of empty strings

pb_string_init_empty() passes NULL to pb_string_init(), which asserts that
there is data, so every call aborts unless assertions are disabled.
---
 include/protobluff/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/protobluff/core/string.h b/include/protobluff/core/string.h
index acde32b..205dcf1 100644
--- a/include/protobluff/core/string.h
+++ b/include/protobluff/core/string.h
@@ -52,7 +52,7 @@ typedef struct pb_string_t {
  */
 PB_INLINE pb_string_t
 pb_string_init(uint8_t data[], size_t size) {
-  assert(data);
+  assert(data || !size);
   pb_string_t string = {
     .data = data,
     .size = size
-- 
2.43.0

