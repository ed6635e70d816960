From a6fdcf181ac16075ecf479c1ecf5cde7a16456fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 01/43] verification hooks: add contract attachment macros
 (guard VIRIATUM_CONTRACTS)

---
 src/viriatum_commons/global/contracts.h   | 45 +++++++++++++++++++++++
 src/viriatum_commons/global/definitions.h |  1 +
 2 files changed, 46 insertions(+)
 create mode 100644 src/viriatum_commons/global/contracts.h

diff --git a/src/viriatum_commons/global/contracts.h b/src/viriatum_commons/global/contracts.h
new file mode 100644
index 0000000..5a33562
--- /dev/null
+++ b/src/viriatum_commons/global/contracts.h
@@ -0,0 +1,45 @@
+/*
+ Hive Viriatum Commons
+ Copyright (c) 2008-2020 Hive Solutions Lda.
+
+ This file is part of Hive Viriatum Commons.
+
+ Hive Viriatum Commons is free software: you can redistribute it and/or modify
+ it under the terms of the Apache License as published by the Apache
+ Foundation, either version 2.0 of the License, or (at your option) any
+ later version.
+
+ Hive Viriatum Commons is distributed in the hope that it will be useful,
+ but WITHOUT ANY WARRANTY; without even the implied warranty of
+ MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
+ Apache License for more details.
+
+ You should have received a copy of the Apache License along with
+ Hive Viriatum Commons. If not, see <http://www.apache.org/licenses/>.
+
+ __author__    = João Magalhães <joamag@hive.pt>
+ __version__   = 1.0.0
+ __revision__  = $LastChangedRevision$
+ __date__      = $LastChangedDate$
+ __copyright__ = Copyright (c) 2008-2020 Hive Solutions Lda.
+ __license__   = Apache License, Version 2.0
+*/
+
+#pragma once
+
+/*
+ * Attachment points for the machine checked loop contracts and
+ * ghost statements used by the verification of this code base.
+ *
+ * Each name identifies one loop (or one statement position) of the
+ * real code, the contract itself is provided by the verification unit
+ * that is including the source file. With the guard off (every normal
+ * build) these macros expand to nothing.
+ */
+#ifdef VIRIATUM_CONTRACTS
+#define VF_LOOP(name) VF_LOOP_##name
+#define VF_GHOST(name) VF_GHOST_##name
+#else
+#define VF_LOOP(name)
+#define VF_GHOST(name)
+#endif
diff --git a/src/viriatum_commons/global/definitions.h b/src/viriatum_commons/global/definitions.h
index f3fdb11..7f06628 100644
--- a/src/viriatum_commons/global/definitions.h
+++ b/src/viriatum_commons/global/definitions.h
@@ -32,6 +32,7 @@
 #include "platforms.h"
 #include "compiler.h"
 #include "compilation.h"
+#include "contracts.h"
 
 /**
  * The name of the environment variable used to build
-- 
2.43.0


From 36ab0e2692ca422c478033462f48318884d9f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 02/43] fix: percent decoding no longer reads past the given
 length and rejects non hexadecimal escapes

---
 src/viriatum_commons/encoding/percent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..02acc7c 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,7 +99,7 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if(length - (size_t) (pointer - buffer) > 2 && isxdigit(pointer[1]) && isxdigit(pointer[2])) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
-- 
2.43.0


From ab2fe3265f307904b5c2180114c221ddb851b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 03/43] verification hooks: percent coding loops

---
 src/viriatum_commons/encoding/percent.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 02acc7c..334e6cd 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -43,7 +43,10 @@ ERROR_CODE encode_percent(unsigned char *buffer, size_t length, unsigned char *_
 
     /* iterates over the range of the provided buffer length
     in order to encoded the string parts */
-    for(index = 0; index < length; index++) {
+    for(index = 0; index < length; index++)
+    VF_LOOP(encode_percent)
+    {
+        VF_GHOST(encode_percent)
         /* retrieves the current iteration byte from the buffer,
         this is the byte to be encoded */
         byte = buffer[index];
@@ -95,7 +98,10 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
 
     /* iterates over the range of the provided buffer length
     in order to decode the string parts */
-    for(pointer = buffer; (size_t) (pointer - buffer) < length; pointer++) {
+    for(pointer = buffer; (size_t) (pointer - buffer) < length; pointer++)
+    VF_LOOP(decode_percent)
+    {
+        VF_GHOST(decode_percent)
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-- 
2.43.0


From ab07efb517b419f8bc175b26cc7693e82a86fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 04/43] fix: chunked messages no longer abort the process on a
 counter that is never incremented

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..dd2ea5f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1621,7 +1621,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
-- 
2.43.0


From 3e661baa402f5f61df734ac8f172f333c10a110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 05/43] fix: bytes above 127 are not hexadecimal digits of a
 chunk size

---
 src/viriatum/http/http_parser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..16f131e 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -184,6 +184,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From 373ac8153ec9fe44807c990c4160a08d8a88895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 06/43] fix: content length and chunk size values no longer
 overflow their counter

---
 src/viriatum/http/http_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index dd2ea5f..cc33dc4 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1387,6 +1387,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* refuses lengths that do not fit the counter */
+                        if(http_parser->content_length > (0x7fffffff - 9) / 10) {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1660,6 +1666,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* refuses sizes that do not fit the counter */
+                if(http_parser->content_length > (0x7fffffff - 15) / 16) {
+                    /*SET_ERRNO(HPE_INVALID_CHUNK_SIZE);*/
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From 28917849dfb12b5485d957d9b391b5915b0aef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 07/43] fix: the parser state is saved on every non error exit
 of the parser

---
 src/viriatum/http/http_parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index cc33dc4..9fa8210 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1537,17 +1537,18 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                                 break;
 
                             default:
-                                http_parser->state = state;
                                 /*SET_ERRNO(HPE_CB_headers_complete);*/
-                                return (int) (pointer - data); /* Error */
+                                goto finish; /* Error */
                         }
                     }
 
                     /* Exit, the rest of the connect is in a different protocol. */
                     if(http_parser->upgrade) {
                         HTTP_CALLBACK(message_complete);
+                        state = NEW_MESSAGE();
+                        pointer++;
 
-                        return (int) (pointer - data) + 1;
+                        goto finish;
                     }
 
                     if(http_parser->flags & FLAG_SKIPBODY) {
@@ -1758,6 +1759,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         parse_count++;
     }
 
+finish:
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From b9ee237645dc94d1076d6bc91562b452fbfd5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 08/43] verification hooks: http parser loop

---
 src/viriatum/http/http_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 9fa8210..505e879 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -164,7 +164,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
     /* iterates over the data incrementing the pointer by a value for iteration
     this is the main iteration cycle and all the actions should occur from this
     execution cycle and from the inner switch operation */
-    for(pointer = data, pointer_end = data + data_size; pointer != pointer_end; pointer++) {
+    for(pointer = data, pointer_end = data + data_size; pointer != pointer_end; pointer++)
+    VF_LOOP(http_parser)
+    {
         /* retrieves the current iteration byte, this is
         the value that is going to be used for most of the
         comparison operation in this step */
-- 
2.43.0


From 3a8233b0a81c6d9a01c56aa3e09068105802f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 09/43] verification hooks: the method table is constant

---
 src/viriatum/http/http_parser.h         | 2 +-
 src/viriatum_commons/global/contracts.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 16f131e..783ff47 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -242,7 +242,7 @@ static const unsigned char normal_url_char[256] = {
  * This names may be used together with an enumeration
  * defining a sequence of HTTP methods.
  */
-static const char *http_method_strings[24] = {
+static const char * VF_CONST http_method_strings[24] = {
     "DELETE",
     "GET",
     "HEAD",
diff --git a/src/viriatum_commons/global/contracts.h b/src/viriatum_commons/global/contracts.h
index 5a33562..a5f501f 100644
--- a/src/viriatum_commons/global/contracts.h
+++ b/src/viriatum_commons/global/contracts.h
@@ -34,12 +34,15 @@
  * Each name identifies one loop (or one statement position) of the
  * real code, the contract itself is provided by the verification unit
  * that is including the source file. With the guard off (every normal
- * build) these macros expand to nothing.
+ * build) these macros expand to nothing. VF_CONST states that a table
+ * of pointers is never written.
  */
 #ifdef VIRIATUM_CONTRACTS
 #define VF_LOOP(name) VF_LOOP_##name
 #define VF_GHOST(name) VF_GHOST_##name
+#define VF_CONST const
 #else
 #define VF_LOOP(name)
 #define VF_GHOST(name)
+#define VF_CONST
 #endif
-- 
2.43.0


From d853a9ac15c43573cce7452c166b5d64dee876e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 10/43] verification hooks: position of the next byte in the
 http parser

---
 src/viriatum/http/http_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 505e879..450f7b0 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -176,6 +176,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         the provided data is larger than zero the current loop
         must be break so that no more that one parse is done */
         if(parse_count > 0) { break; }
+        VF_GHOST(http_parser_byte)
 
         /* switch over the current state in order to trigger
         the correct parsing logic for the current state */
-- 
2.43.0


From ee78791bd6a7fa6e2f08adec190526594dbb43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 11/43] fix: base 64 decoding refuses incomplete groups and
 excessive padding instead of accessing memory outside its buffers

---
 src/viriatum_commons/encoding/base_64.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..4742318 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -63,7 +63,17 @@ ERROR_CODE decode_base64(
     size_t *decoded_buffer_length_pointer
 ) {
     /* retrieves the padding count from the encoded buffer */
-    unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    size_t padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+
+    /* in case the encoded buffer is not composed by complete groups
+    of four characters, or contains more padding than allowed, it's
+    not a valid base 64 value and may not be decoded */
+    if(encoded_buffer_length % 4 != 0 || padding_count > 2) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid base 64 value"
+        );
+    }
 
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
@@ -133,7 +143,7 @@ ERROR_CODE _encode_base64(
     unsigned char number0, number1, number2, number3;
 
     /* creates the pad count value */
-    unsigned int pad_count = (unsigned int) buffer_length % 3;
+    unsigned int pad_count = (unsigned int) (buffer_length % 3);
 
     /* starts the encoded buffer index */
     encoded_buffer_index = 0;
@@ -287,18 +297,19 @@ ERROR_CODE _allocate_decoded_buffer(
 
 unsigned int _get_padding_count(unsigned char *encoded_buffer, size_t encoded_buffer_length) {
     /* allocates the index */
-    unsigned int index;
+    size_t index;
 
     /* allocates the current value */
     unsigned char current_value;
 
     /* allocates the padding count */
-    int padding_count = 0;
+    unsigned int padding_count = 0;
 
-    /* iterates over the encoded buffer */
-    for(index = (unsigned int) encoded_buffer_length - 1; index > 0 ; index--) {
+    /* iterates over the encoded buffer, backwards, note that
+    no more than three padding characters are ever counted */
+    for(index = encoded_buffer_length; index > 0 && padding_count < 3; index--) {
         /* retireve the current value */
-        current_value = encoded_buffer[index];
+        current_value = encoded_buffer[index - 1];
 
         /* in case the current value is not a padding character */
         if(current_value != PADDING_BASE_64) {
-- 
2.43.0


From 33473a5311e5d5cb07705f993e676b231beafb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 12/43] verification hooks: base 64 loops

---
 src/viriatum_commons/encoding/base_64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4742318..21cd701 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -150,7 +150,9 @@ ERROR_CODE _encode_base64(
 
     /* increment over the length of the buffer, reading
     three characters at a time */
-    for(index = 0; index < buffer_length; index += 3) {
+    for(index = 0; index < buffer_length; index += 3)
+    VF_LOOP(encode_base64)
+    {
         /* starts creating the number with the first byte */
         number = buffer[index] << 16;
 
@@ -231,7 +233,9 @@ ERROR_CODE _decode_base64(
 
     /* increments over the length of the encoded buffer,
     should read four characters at a time */
-    for(index = 0; index < encoded_buffer_length; index += 4) {
+    for(index = 0; index < encoded_buffer_length; index += 4)
+    VF_LOOP(decode_base64)
+    {
         /* retrieves the number resulting from the concatenation of the 24 bits */
         number = (_lookup_fast_base64(encoded_buffer[index]) << 18) + (_lookup_fast_base64(encoded_buffer[index + 1]) << 12) +
                  (_lookup_fast_base64(encoded_buffer[index + 2]) << 6) + _lookup_fast_base64(encoded_buffer[index + 3]);
-- 
2.43.0


From db5aa08877000b4e765419eee43e43088c0fea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 13/43] verification hooks: base 64 group counters

---
 src/viriatum_commons/encoding/base_64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 21cd701..f1c2ede 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -153,6 +153,7 @@ ERROR_CODE _encode_base64(
     for(index = 0; index < buffer_length; index += 3)
     VF_LOOP(encode_base64)
     {
+        VF_GHOST(encode_base64)
         /* starts creating the number with the first byte */
         number = buffer[index] << 16;
 
@@ -236,6 +237,7 @@ ERROR_CODE _decode_base64(
     for(index = 0; index < encoded_buffer_length; index += 4)
     VF_LOOP(decode_base64)
     {
+        VF_GHOST(decode_base64)
         /* retrieves the number resulting from the concatenation of the 24 bits */
         number = (_lookup_fast_base64(encoded_buffer[index]) << 18) + (_lookup_fast_base64(encoded_buffer[index + 1]) << 12) +
                  (_lookup_fast_base64(encoded_buffer[index + 2]) << 6) + _lookup_fast_base64(encoded_buffer[index + 3]);
-- 
2.43.0


From 8f1b8d76ceb2d3a6b3a03bf2656055e2f030eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:01 +0000
Subject: [PATCH 14/43] fix: byte ranges are clamped to the file and invalid
 ranges are ignored

---
 src/viriatum/handlers/handler_file.c | 14 ++---
 src/viriatum/http/http_util.c        | 77 +++++++++++++++++-----------
 2 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..ebe675c 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -789,17 +789,17 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
     }
     /* in case the range value is set for the current file request
-    must calculate the range and retrive the associated file chunk */
-    else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+    must calculate the range and retrive the associated file chunk,
+    the final range is set in accordance with the file size that is
+    provided, note that in case the range is not valid (or not possible
+    to satisfy) it's ignored and the complete file is sent */
+    else if(handler_file_context->range_status == 2 &&\
+        !IS_ERROR_CODE(get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
-        );
+        ))) {
 
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..9cdca41 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -430,15 +430,21 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
     /* allocates space for the byte to be used in the iteration,
     for the mark value and for the iteration index counter */
     char byte;
-    char *start;
-    char *end;
     size_t mark;
     size_t index;
 
+    /* creates the flags that control if the separator between the
+    limits, the initial byte and the final byte have been found and
+    if the structure of the range is considered to be valid */
+    unsigned char is_valid = TRUE;
+    unsigned char has_separator = FALSE;
+    unsigned char has_initial = FALSE;
+    unsigned char has_final = FALSE;
+
     /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
+    at the default (unset) values (intial state) */
+    unsigned long long initial_byte_v = 0;
+    unsigned long long final_byte_v = 0;
 
     /* retrieves the size of the range string using the normal
     length if a string function */
@@ -449,7 +455,8 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
     mark = 0;
 
     /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
+    find the various key values in it from the byte, note that only
+    the first range is considered (in case there's more than one) */
     for(index = 0; index < range_s; index++) {
         /* retrieves the current byte in iteration and runs the
         switch testing against it */
@@ -460,42 +467,54 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
                 break;
 
             case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
+                if(has_separator) { is_valid = FALSE; }
+                has_separator = TRUE;
+                has_initial = index > mark;
+                if(has_initial) {
+                    if(range[mark] < '0' || range[mark] > '9') { is_valid = FALSE; }
+                    initial_byte_v = STROULL((char *) &range[mark], NULL, 10);
                 }
                 mark = index + 1;
                 break;
 
-            case '\0':
             case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
+                range_s = index;
                 break;
         }
     }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
-        }
+    /* in case there are still some contents to be parsed they
+    represent the final byte of the range */
+    if(mark < range_s) {
+        if(range[mark] < '0' || range[mark] > '9') { is_valid = FALSE; }
+        final_byte_v = STROULL((char *) &range[mark], NULL, 10);
+        has_final = TRUE;
+    }
+
+    /* in case no initial byte exists this is a suffix range (the
+    last bytes of the contents), otherwise an unset final byte or
+    one that is past the end of the contents is set to the last one */
+    if(!has_initial) {
+        if(!has_final || final_byte_v == 0) { is_valid = FALSE; }
+        initial_byte_v = final_byte_v < size ? size - final_byte_v : 0;
+        final_byte_v = (unsigned long long) size - 1;
+    } else if(!has_final || final_byte_v >= size) {
+        final_byte_v = (unsigned long long) size - 1;
+    }
+
+    /* verifies that the range is completely contained in the contents
+    if that's not the case it's not possible to satisfy it */
+    if(!is_valid || !has_separator || initial_byte_v >= size || initial_byte_v > final_byte_v) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid or not satisfiable range"
+        );
     }
 
     /* updates both the initial and the final byte pointer
     references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    *initial_byte = (size_t) initial_byte_v;
+    *final_byte = (size_t) final_byte_v;
 
     /* raises no error as both the initial and the final
     byte values have been computed with success */
-- 
2.43.0


From 510b308bdabb9151e66bb4c88c2eab8a2d1c1906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:03 +0000
Subject: [PATCH 15/43] fix: formatted writes are bounded by the size of their
 buffer

---
 src/viriatum_commons/system/system_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..a90e577 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -62,8 +62,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From 760c8b0b6c065653a8ab718a152f89d4ca2e8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 16/43] fix: requested files are contained in their base path
 and request values never overflow the file handler context

---
 src/viriatum/handlers/handler_file.c | 303 +++++++++++++++------------
 src/viriatum/handlers/handler_file.h |   3 +
 2 files changed, 168 insertions(+), 138 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index ebe675c..972f3ee 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -80,6 +80,9 @@ ERROR_CODE create_handler_file_context(struct handler_file_context_t **handler_f
     handler_file_context->flags = 0;
     handler_file_context->next_header = UNDEFINED_HEADER;
     handler_file_context->template_handler = NULL;
+    handler_file_context->url[0] = '\0';
+    handler_file_context->url_d[0] = '\0';
+    handler_file_context->file_path_d[0] = '\0';
     handler_file_context->cache_control_status = 0;
     handler_file_context->etag_status = 0;
     handler_file_context->authorization_status = 0;
@@ -253,14 +256,6 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
 }
 
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -270,44 +265,9 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, path_size);
-    handler_file_context->url[path_size] = '\0';
-
-    /* prints a debug message */
-    V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
-
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
-        VIRIATUM_CONTENTS_PATH,
-        VIRIATUM_BASE_PATH,
-        handler_file_context->url
-    );
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
-    /* raise no error */
-    RAISE_NO_ERROR;
+    /* creates the file path using the base viriatum path, note that only
+    the path part of the string is used for the url */
+    return _set_url_handler_file(http_parser, handler_file_context, NULL, data, path_size);
 }
 
 ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
@@ -373,24 +333,28 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
+            if(data_size < 10) { break; }
             memcpy(handler_file_context->etag, data, 10);
             handler_file_context->etag[10] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { break; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size >= sizeof(handler_file_context->range)) { break; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
@@ -437,7 +401,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
-    unsigned char location[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char location[VIRIATUM_MAX_URL_SIZE + 1];
     unsigned char template_path[VIRIATUM_MAX_PATH_SIZE];
 
     /* allocates space for the computation of the time
@@ -459,7 +423,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
-    char folder_path[VIRIATUM_MAX_PATH_SIZE];
+    char folder_path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -528,7 +492,8 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
-        if(handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
+        url_size = strlen((char *) handler_file_context->url);
+        if(url_size == 0 || handler_file_context->url[url_size - 1] != '/') {
             /* creates the new location by adding the slash character to the current
             handler file context url (avoids directory confusion) */
             memcpy(location, handler_file_context->url, strlen((char *) handler_file_context->url));
@@ -901,85 +866,20 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 }
 
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
     unsigned char *base_path = handler_file_context->base_path;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, data_size);
-    handler_file_context->url[data_size] = '\0';
-
-    /* prints a debug message */
-    V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
-
-    /* in case a base path is not defined the contant values
-    for the contents and base path must be used */
-    if(base_path == NULL) {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
-            VIRIATUM_CONTENTS_PATH,
-            VIRIATUM_BASE_PATH,
-            handler_file_context->url
-        );
-    }
-    /* otherwise the currently set base path is used instead for
-    the resolution of the file path */
-    else {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
-            handler_file_context->url
-        );
-    }
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
-    /* raise no error */
-    RAISE_NO_ERROR;
+    /* creates the file path using either the currently set base path
+    or the constant values for the contents and base path */
+    return _set_url_handler_file(http_parser, handler_file_context, base_path, data, data_size);
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
+    /* allocates space for the size of the current url */
+    size_t url_size;
 
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
@@ -1012,38 +912,165 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     if(location->base_path == NULL) { RAISE_NO_ERROR; }
 
     /* retrieves the partial url match by "removing" the initial part
-    of the url in context */
+    of the url in context, the offset is never past the end of the url */
+    url_size = strlen((char *) handler_file_context->url);
+    if(offset > url_size) { offset = url_size; }
     partial_url = &handler_file_context->url[offset];
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path, note that
-    only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
+    /* in case there's no url in context (refused by a previous callback)
+    no file path may be created for it */
+    if(url_size == 0) { RAISE_NO_ERROR; }
+
+    /* creates the (decoded) file path using the base path of the location,
+    note that only the partial url is used (offset from location) */
+    return _set_path_handler_file(
+        handler_file_context,
         location->base_path,
-        partial_url
+        partial_url,
+        url_size - offset
     );
+}
 
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
+ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
+    /* raise no error */
+    RAISE_NO_ERROR;
+}
+
+ERROR_CODE _set_url_handler_file(struct http_parser_t *http_parser, struct handler_file_context_t *handler_file_context, unsigned char *base_path, const unsigned char *data, size_t data_size) {
+    /* allocates memory for the variable that will hold the
+    size of the decoded url */
+    size_t decoded_size;
+
+    /* allocates space for the result of the decoding of the url */
+    ERROR_CODE return_value;
+
+    /* unsets the various strings of the context, so that no file is
+    found in case the url is not considered to be valid */
+    handler_file_context->url[0] = '\0';
+    handler_file_context->url_d[0] = '\0';
+    handler_file_context->file_path_d[0] = '\0';
+
+    /* in case there's not enough space in the context to store the
+    url it must be refused */
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "The url is too long"
+        );
+    }
+
+    /* copies the memory from the data to the url and then
+    puts the end of string in the url */
+    memcpy(handler_file_context->url, data, data_size);
+    handler_file_context->url[data_size] = '\0';
+
+    /* prints a debug message */
+    V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
+
+    /* decodes the url for the percent encoding, this method uses constant
+    (pre-allocated) memory for fast performance the resulting value is stored
+    as a simple string in utf-8 encoding */
+    return_value = decode_percent(
+        handler_file_context->url,
+        data_size,
+        handler_file_context->url_d,
         &decoded_size
     );
+    if(IS_ERROR_CODE(return_value)) {
+        handler_file_context->url_d[0] = '\0';
+        RAISE_AGAIN(return_value);
+    }
 
-    /* raise no error */
-    RAISE_NO_ERROR;
+    /* in case a base path is not defined the contant values
+    for the contents and base path must be used */
+    if(base_path == NULL) {
+        SPRINTF(
+            (char *) handler_file_context->file_path,
+            VIRIATUM_MAX_PATH_SIZE,
+            "%s%s",
+            VIRIATUM_CONTENTS_PATH,
+            VIRIATUM_BASE_PATH
+        );
+        base_path = handler_file_context->file_path;
+    }
+
+    /* creates the file path from the base path and the url
+    this should be the complete absolute path */
+    return _set_path_handler_file(
+        handler_file_context,
+        base_path,
+        handler_file_context->url,
+        data_size
+    );
 }
 
-ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* raise no error */
+ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_context, unsigned char *base_path, unsigned char *path, size_t path_size) {
+    /* allocates space for the result of the decoding of the path */
+    ERROR_CODE return_value;
+
+    /* allocates space for the decoded path and for its size, there's
+    always enough space as the path is part of the url */
+    unsigned char path_d[VIRIATUM_MAX_URL_SIZE];
+    size_t decoded_size;
+
+    /* calculates the size of the base path, to be used to verify that
+    the complete path may be stored in the context */
+    size_t base_size = strlen((char *) base_path);
+
+    /* unsets the file path, so that no file is found in case
+    the path is not considered to be valid */
+    handler_file_context->file_path_d[0] = '\0';
+
+    /* decodes the path for the percent encoding, this method
+    uses constant (pre-allocated) memory for fast performance */
+    return_value = decode_percent(path, path_size, path_d, &decoded_size);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
+
+    /* verifies that the file is contained in the base path and that
+    the complete path fits in the context, refusing it otherwise */
+    if(!_is_contained_handler_file(base_path, base_size, path_d, decoded_size) ||
+        base_size >= VIRIATUM_MAX_PATH_SIZE || decoded_size >= VIRIATUM_MAX_PATH_SIZE - base_size) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "The path is not valid"
+        );
+    }
+
+    /* creates the complete file path with the base path and the
+    decoded path (including the end of string) */
+    memcpy(handler_file_context->file_path_d, base_path, base_size);
+    memcpy(&handler_file_context->file_path_d[base_size], path_d, decoded_size);
+    handler_file_context->file_path_d[base_size + decoded_size] = '\0';
+
+    /* raises no error */
     RAISE_NO_ERROR;
 }
 
+unsigned char _is_contained_handler_file(unsigned char *base_path, size_t base_size, unsigned char *path, size_t path_size) {
+    /* allocates space for the iteration index and starts the
+    mark value with the start of the first path component */
+    size_t index;
+    size_t mark = 0;
+
+    /* in case the path does not start with a separator it would
+    change the name of the base directory */
+    if(path_size > 0 && path[0] != '/' && (base_size == 0 || base_path[base_size - 1] != '/')) {
+        return FALSE;
+    }
+
+    /* iterates over the complete path, looking for the components
+    that refer to the parent directory and for end of strings */
+    for(index = 0; index < path_size; index++) {
+        if(path[index] == '\0') { return FALSE; }
+        if(path[index] != '/' && path[index] != '\\') { continue; }
+        if(index - mark == 2 && path[mark] == '.' && path[mark + 1] == '.') { return FALSE; }
+        mark = index + 1;
+    }
+
+    /* verifies the last of the components */
+    return !(path_size - mark == 2 && path[mark] == '.' && path[mark + 1] == '.');
+}
+
 ERROR_CODE _set_http_parser_handler_file(struct http_parser_t *http_parser) {
     /* allocates space for the handler file context */
     struct handler_file_context_t *handler_file_context;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..268c735 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -271,6 +271,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset);
 ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
+ERROR_CODE _set_url_handler_file(struct http_parser_t *http_parser, struct handler_file_context_t *handler_file_context, unsigned char *base_path, const unsigned char *data, size_t data_size);
+ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_context, unsigned char *base_path, unsigned char *path, size_t path_size);
+unsigned char _is_contained_handler_file(unsigned char *base_path, size_t base_size, unsigned char *path, size_t path_size);
 ERROR_CODE _set_http_parser_handler_file(struct http_parser_t *http_parser);
 ERROR_CODE _unset_http_parser_handler_file(struct http_parser_t *http_parser);
 ERROR_CODE _reset_http_parser_handler_file(struct http_parser_t *http_parser);
-- 
2.43.0


From eadddf48167b923d98cea7df46da6ac9402185bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:15 +0000
Subject: [PATCH 17/43] fix: urls never overflow the path buffers of the
 dispatch handler

---
 src/viriatum/handlers/handler_dispatch.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..2785d2b 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -222,6 +222,15 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* in case there's not enough space for the path and for a possible
+    index file name the url must be refused */
+    if(path_size >= VIRIATUM_MAX_URL_SIZE - 128) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "The url is too long"
+        );
+    }
+
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
     memcpy(path, data, path_size);
@@ -340,7 +349,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
             CALL_V(
                 http_connection->http_settings->on_location,
@@ -351,8 +360,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-                data + virtual_url_offset,
-                data_size - virtual_url_offset
+                data + (virtual_url_offset < data_size ? virtual_url_offset : data_size),
+                virtual_url_offset < data_size ? data_size - virtual_url_offset : 0
             );
         }
 #endif
-- 
2.43.0


From 096ef8a5b7f9462d79a7f111d65d2e9207904738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:15 +0000
Subject: [PATCH 18/43] verification hooks: path containment loop

---
 src/viriatum/handlers/handler_file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 972f3ee..5498cbc 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1060,7 +1060,9 @@ unsigned char _is_contained_handler_file(unsigned char *base_path, size_t base_s
 
     /* iterates over the complete path, looking for the components
     that refer to the parent directory and for end of strings */
-    for(index = 0; index < path_size; index++) {
+    for(index = 0; index < path_size; index++)
+    VF_LOOP(contained_file)
+    {
         if(path[index] == '\0') { return FALSE; }
         if(path[index] != '/' && path[index] != '\\') { continue; }
         if(index - mark == 2 && path[mark] == '.' && path[mark + 1] == '.') { return FALSE; }
-- 
2.43.0


From 5014ba0863f596dec895e485c8480ff52dce9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 19/43] fix: quicksort never reads past the end of the sequence

---
 src/viriatum_commons/sorting/quicksort.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 0266f38..3e189f0 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -30,8 +30,9 @@
 #include "quicksort.h"
 
 void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cmp) {
-    /* retrieves the initial pivor, left and right elements */
-    void *pivot = sequence[beginning];
+    /* allocates space for the initial pivot and retrieves
+    the left and right elements */
+    void *pivot;
     size_t left = beginning + 1;
     size_t right = end;
 
@@ -42,6 +43,10 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
         return;
     }
 
+    /* retrieves the initial pivot, the sequence is known
+    to contain at least two elements */
+    pivot = sequence[beginning];
+
     /* iterates while the right index is greater
     than the left index */
     while(left < right) {
-- 
2.43.0


From a38562aab647573a4b7c39fc9f2e993437015770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:19 +0000
Subject: [PATCH 20/43] hooks: range limits loop

---
 src/viriatum/http/http_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 9cdca41..7713280 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -457,7 +457,10 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
     /* iterates over the range string character values to try to
     find the various key values in it from the byte, note that only
     the first range is considered (in case there's more than one) */
-    for(index = 0; index < range_s; index++) {
+    for(index = 0; index < range_s; index++)
+    VF_LOOP(range_limits)
+    {
+        VF_GHOST(range_limits)
         /* retrieves the current byte in iteration and runs the
         switch testing against it */
         byte = range[index];
-- 
2.43.0


From ad2cdd733b422bb9d763f61b77db34c66704fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 21/43] fix: invalid credentials never grant access and
 credentials never overflow their buffers

---
 src/viriatum/http/http_util.c         | 29 +++++++++++++++++++++++++--
 src/viriatum_commons/formats/passwd.c | 26 +++++++++++++++++++++---
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 7713280..fc6e197 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -566,7 +566,13 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default;
+
+    /* starts the result with the refused value so that any problem in
+    the processing of the authorization is considered to be a refusal */
+    *result = FALSE;
+
+    is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
@@ -606,6 +612,10 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     size_t username_size;
     size_t password_size;
 
+    /* starts the result with the refused value, only changed in
+    case the complete set of credentials is verified */
+    *result = FALSE;
+
     /* tries to find the token that separates the authentication
     type from the authorization base 64 value in case the value
     is not found raises an error indicating the problem */
@@ -652,6 +662,17 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* in case the credentials do not fit the internal buffers or
+    contain an end of string they can't be the ones in the file */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password) ||
+        memchr(authorization_d, '\0', authorization_size) != NULL) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid credentials in authorization"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -662,7 +683,11 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_AGAIN(return_value);
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..42d9661 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -52,9 +52,9 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     unsigned char *pointer;
 
     /* allocates the space for the username and for the password
-    to be parsed, note that the username is allocated in stack
-    (static memory) as it's not going to be stored in map */
-    char username[128];
+    to be parsed, note that the username is released at the end
+    of the parsing as it's not going to be stored in map */
+    char *username = NULL;
     char *password;
 
     /* creates the "final" hash map that is going to be used to
@@ -67,6 +67,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -95,6 +96,8 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                     case ':':
                     case '\n':
                         length = pointer - mark;
+                        FREE(username);
+                        username = (char *) MALLOC(length + 1);
                         memcpy(username, mark, length);
                         username[length] = '\0';
                         mark = pointer + 1;
@@ -136,6 +139,23 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
         }
     }
 
+    /* in case the last line of the file is not terminated by a
+    new line its password is still pending to be set */
+    if(state == PASSWD_PASSWORD) {
+        length = buffer + size - mark;
+        password = (char *) MALLOC(length + 1);
+        memcpy(password, mark, length);
+        password[length] = '\0';
+        set_value_string_hash_map(
+            passwd,
+            (unsigned char *) username,
+            password
+        );
+    }
+
+    /* releases the memory used by the last of the usernames */
+    FREE(username);
+
     /* releases the buffer with the file contents used during
     the parsing of the passwd file (avoids memory leaks) */
     FREE(buffer);
-- 
2.43.0


From 5206d71205a4664a0ec06b23115e9f24a877c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 22/43] hooks: passwd parsing loop

---
 src/viriatum_commons/formats/passwd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 42d9661..f938a46 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -82,7 +82,10 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
 
     /* iterates over the buffer contents in its range to parse
     it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    for(index = 0; index < size; index++)
+    VF_LOOP(passwd)
+    {
+        VF_GHOST(passwd)
         /* retrieves the current byte in iteration and the pointer
         address to the current buffer position */
         current = buffer[index];
-- 
2.43.0


From f7d88fb0c1de4708ad67cb344dc22d2f020ede42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 23/43] fix: hash map keys with the same hash are told apart
 and the size counts the keys

---
 src/viriatum_commons/structures/hash_map.c | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..9bf46d7 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -168,7 +168,8 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(element->key == key && (key_string == NULL || (element->key_string != NULL &&
+            strcmp((char *) element->key_string, (char *) key_string) == 0))) {
             /* breaks the loop */
             break;
         }
@@ -372,6 +373,10 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
     size_t index;
     size_t key_string_size;
 
+    /* allocates space for the flag that controls if a new
+    element is being created (instead of overwritten) */
+    unsigned char is_new;
+
     /* in case the current hash map size "overflows"
     the maximum size (a resizing is required) */
     if(hash_map->size >= hash_map->maximum_size) {
@@ -391,8 +396,11 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element = &hash_map->elements_buffer[index];
 
         /* in case the element is empty or the
-        key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
+        key is the same (overwrite), note that different
+        key strings may share the same (hash) key */
+        if(element->used == 0 || (element->key == key &&
+            (key_string == NULL ? element->key_string == NULL : (element->key_string != NULL &&
+            strcmp((char *) element->key_string, (char *) key_string) == 0)))) {
             /* breaks the loop */
             break;
         }
@@ -420,7 +428,9 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element->key_string = NULL;
     }
 
-    /* sets the element fields */
+    /* sets the element fields, the element is considered to be
+    new in case it was not being used */
+    is_new = element->used == 0;
     element->value = value;
     element->key = key;
     element->key_string = key_string;
@@ -437,8 +447,9 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         memcpy(element->key_string, key_string, key_string_size + 1);
     }
 
-    /* increments the hash map size */
-    hash_map->size++;
+    /* increments the hash map size in case a new
+    element has been set in it */
+    if(is_new) { hash_map->size++; }
 }
 
 void _resize_hash_map(struct hash_map_t *hash_map) {
-- 
2.43.0


From 241bbc9ce1b4d8555db9f6cee4ea87828d366802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 24/43] hooks: hash map loops

---
 src/viriatum_commons/structures/hash_map.c | 34 +++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index 9bf46d7..626c08a 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -75,7 +75,10 @@ void delete_hash_map(struct hash_map_t *hash_map) {
 
     /* iterates over all the elements in the hash map to
     release the memory present in the buffers */
-    for(index = 0; index < hash_map->elements_buffer_size; index++) {
+    for(index = 0; index < hash_map->elements_buffer_size; index++)
+    VF_LOOP(hash_delete)
+    {
+        VF_GHOST(hash_delete)
         /* retrieves the base address value */
         element = &hash_map->elements_buffer[index];
 
@@ -149,11 +152,15 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
 
     /* calculates the index using the modulus */
     size_t index = key % hash_map->elements_buffer_size;
+    VF_GHOST(hash_index)
 
     /* iterates continously (to retrieve the appropriate
     element in the hash map), this conforms with the open
     addressing strategy for hash maps */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(hash_probe)
+    {
+        VF_GHOST(hash_probe)
         /* retrieves the base address value */
         element = &hash_map->elements_buffer[index];
 
@@ -275,7 +282,9 @@ void get_next_iterator_hash_map(struct iterator_t *iterator, void **next_pointer
     void *next;
 
     /* iterates continuously */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(hash_next)
+    {
         /* in case the current index excedes the elements
         buffer size (it's the end of iteration) */
         if(current_index >= hash_map->elements_buffer_size) {
@@ -326,7 +335,9 @@ void get_next_element_iterator_hash_map(struct iterator_t *iterator, void **next
     void *next;
 
     /* iterates continuously */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(hash_next)
+    {
         /* in case the current index excedes the elements
         buffer size (it's the end of iteration) */
         if(current_index >= hash_map->elements_buffer_size) {
@@ -387,11 +398,15 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
 
     /* calculates the index using the modulus */
     index = key % hash_map->elements_buffer_size;
+    VF_GHOST(hash_index)
 
     /* iterates continously (to get an empty space
     in the hash map), this conforms with the open
     addressing strategy for hash maps */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(hash_probe)
+    {
+        VF_GHOST(hash_probe)
         /* retrieves the base address value */
         element = &hash_map->elements_buffer[index];
 
@@ -482,7 +497,10 @@ void _resize_hash_map(struct hash_map_t *hash_map) {
 
     /* iterates over all the "old" elements to copy
     and set them in the new hash map buffer */
-    for(index = 0; index < elements_buffer_size; index++) {
+    for(index = 0; index < elements_buffer_size; index++)
+    VF_LOOP(hash_resize)
+    {
+        VF_GHOST(hash_resize)
         /* retrieves the current element structure from
         the elements buffer to set the element key and value
         in the "newly" resized hash map */
@@ -529,7 +547,9 @@ size_t _calculate_string_hash_map(unsigned char *key_string) {
     index++;
 
     /* iterates continuously for (integer) key calculation */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(hash_string)
+    {
         /* retrievs the current character from the
         the key string value */
         current = key_string[index];
-- 
2.43.0


From 3d094aed09d2d27d617999416edc7f534a57d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:27 +0000
Subject: [PATCH 25/43] fix: buffered requests survive the reallocation of
 their buffer, which is used again once read

---
 src/viriatum/stream/stream_http.c | 44 ++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..359b91b 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -182,6 +182,12 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     size_t size_offset;
     size_t size_length;
 
+    /* allocates the offsets of the marks of the parser, used to
+    move them together with the buffer they point into */
+    size_t field_offset;
+    size_t value_offset;
+    size_t url_offset;
+
     /* allocates the reference to the pointer to current
     buffer position to be used in writing (initial position) */
     unsigned char *_buffer;
@@ -206,6 +212,18 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     initial zero value until the proper header is parsed */
     size_t content_length = http_connection->http_parser->_content_length;
 
+    /* in case a new message is about to start, all of the buffered data has
+    been processed and no message is being handled the buffer is used again
+    from its start, otherwise it would grow with every message received */
+    if(http_connection->lock == FALSE && http_connection->http_parser->state == STATE_START_REQ &&
+        http_connection->read_offset == http_connection->buffer_offset) {
+        http_connection->buffer_offset = 0;
+        http_connection->read_offset = 0;
+        http_connection->http_parser->header_field_mark = NULL;
+        http_connection->http_parser->header_value_mark = NULL;
+        http_connection->http_parser->url_mark = NULL;
+    }
+
     /* in case no HTTP connection buffer is currently set, time to start
     a new one from the provided buffer (fast access) */
     if(http_connection->buffer == NULL) {
@@ -222,12 +240,31 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         length strategy) the maximum value of both is selected as the new buffer size
         and is used for the reallocation of the buffer */
         size_offset = http_connection->buffer_offset + buffer_size;
-        size_length = http_connection->buffer_size + content_length;
+        size_length = http_connection->buffer_size +
+            (content_length < VIRIATUM_MAX_READ ? content_length : VIRIATUM_MAX_READ);
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
+        field_offset = http_connection->http_parser->header_field_mark ?
+            http_connection->http_parser->header_field_mark - http_connection->buffer : 0;
+        value_offset = http_connection->http_parser->header_value_mark ?
+            http_connection->http_parser->header_value_mark - http_connection->buffer : 0;
+        url_offset = http_connection->http_parser->url_mark ?
+            http_connection->http_parser->url_mark - http_connection->buffer : 0;
         http_connection->buffer = REALLOC(
             (void *) http_connection->buffer,
             http_connection->buffer_size
         );
+
+        /* updates the marks of the parser as they point into the buffer
+        and it may have been moved by the reallocation */
+        if(http_connection->http_parser->header_field_mark) {
+            http_connection->http_parser->header_field_mark = http_connection->buffer + field_offset;
+        }
+        if(http_connection->http_parser->header_value_mark) {
+            http_connection->http_parser->header_value_mark = http_connection->buffer + value_offset;
+        }
+        if(http_connection->http_parser->url_mark) {
+            http_connection->http_parser->url_mark = http_connection->buffer + url_offset;
+        }
     }
 
     /* retrieves the pointer reference to the current position in the
@@ -253,6 +290,11 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         processing of messages in the same connection */
         if(http_connection->lock) { break; }
 
+        /* in case there's no data pending to be processed breaks
+        immediately, an empty parsing would be taken as the end
+        of the stream by the HTTP parser */
+        if(_read_size == 0) { break; }
+
         /* in case there's currently no HTTP handler associated with the
         HTTP connection (need to create one) */
         if(http_connection->http_handler == NULL) {
-- 
2.43.0


From 75b9e735ec30afeb885cdb9b507b5d96e1e926bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:27 +0000
Subject: [PATCH 26/43] fix: a connection closed while its data is handled is
 not used afterwards

---
 src/viriatum/stream/stream_io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..a068a9f 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -303,6 +303,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
+
+                /* in case the connection has been closed by the data
+                handler there's nothing more to be read from it */
+                if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
             }
 
             /* resets the buffer size to the original (initial)
@@ -411,7 +415,9 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
+            best escape approach to solve the issue, unless it has already
+            been closed by the data handler */
+            if(connection->status == STATUS_CLOSED) { break; }
             connection->close_connection(connection);
 
             /* breaks the switch */
-- 
2.43.0


From fd9fc05af9cb24ae118299f10ebee4a9324589f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:36 +0000
Subject: [PATCH 27/43] hooks: connection data loops

---
 src/viriatum/stream/stream_http.c |  5 ++++-
 src/viriatum/stream/stream_io.c   | 10 ++++++++--
 src/viriatum/system/service.c     |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 359b91b..7b9e02a 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -277,7 +277,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     /* iterates continuously, this allows the stream handler
     to split the stream into possible multiple messages, usefull
     for HTTP pipelining (multiple sequenced requests) */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(http_data)
+    {
+        VF_GHOST(http_data)
         /* retrieves the pointer to the read position as the connection buffer
         added to the read offset and then retrieves the current size for reading
         by removing the read offset from the buffer offset (must deduct the already
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index a068a9f..9d4955c 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -280,7 +280,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
 
     /* iterates continuously to read the data that is currently
     available in the connection for reading */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(io_read)
+    {
+        VF_GHOST(io_read)
         /* in case the current total number of bytes read during
         this read operation is greater than the expected maximum
         the read operation should be delayed so that the write
@@ -466,7 +469,10 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
     ERROR_CODE error = 0;
 
     /* iterates continuously */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(io_write)
+    {
+        VF_GHOST(io_write)
         /* prints a debug message */
         V_DEBUG("Peeking value from write queue\n");
 
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..7dabba4 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1509,7 +1509,10 @@ ERROR_CODE delete_connection(struct connection_t *connection) {
 
     /* iterates continuously to release all the pending
     memory to be released because the connection was dropped */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(connection_delete)
+    {
+        VF_GHOST(connection_delete)
         /* pops a value (data) from the linked list (write queue)
         in case the data is invalid (list is empty) must break
         the current loop, this is the end of iteration */
-- 
2.43.0


From 605d3261f148f61acadbebebe8a0e92cdc3e0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:19 +0000
Subject: [PATCH 28/43] fix: a cleared linked list has no first and last node

---
 src/viriatum_commons/structures/linked_list.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..9730003 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -130,6 +130,11 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     /* resets the linked list size to the original
     empty value of zero */
     linked_list->size = 0;
+
+    /* unsets the first and last elements of the list
+    as the nodes they point to have been released */
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
-- 
2.43.0


From 02c428c1cef35ecc6eaaf86a5d4047a70203ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:19 +0000
Subject: [PATCH 29/43] hooks: linked list and quicksort loops

---
 src/viriatum_commons/sorting/quicksort.c      |  4 +-
 src/viriatum_commons/structures/linked_list.c | 40 +++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 3e189f0..155f98a 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -49,7 +49,9 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
 
     /* iterates while the right index is greater
     than the left index */
-    while(left < right) {
+    while(left < right)
+    VF_LOOP(quicksort)
+    {
         /* in case the left element is smaller
         or equal to the pivot (left advance) */
         if(cmp(sequence[left], pivot) <= 0) {
diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 9730003..b17df55 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -65,7 +65,10 @@ void delete_linked_list(struct linked_list_t *linked_list) {
 
     /* iterates over the complete set of nodes in
     the linked list (list range) to delete them */
-    for(index = 0; index < linked_list->size; index++) {
+    for(index = 0; index < linked_list->size; index++)
+    VF_LOOP(list_delete)
+    {
+        VF_GHOST(list_delete)
         /* retrieves the next node and deletes the current one
         then sets the next node as the current one in order
         to be able to continue the iteration */
@@ -118,7 +121,10 @@ void clear_linked_list(struct linked_list_t *linked_list) {
 
     /* iterates over the complete set of nodes in
     the linked list (list range) to delete them */
-    for(index = 0; index < linked_list->size; index++) {
+    for(index = 0; index < linked_list->size; index++)
+    VF_LOOP(list_clear)
+    {
+        VF_GHOST(list_clear)
         /* retrieves the next node and deletes the current one
         then sets the next node as the current one in order
         to be able to continue the iteration */
@@ -208,7 +214,10 @@ void append_index_linked_list(
     /* iterates over the range of index to gather the next and previous
     pointers to the required slot for insertion, these are the nodes that
     are going to be updated for the insertion operation */
-    for(_index = 0; _index < index; _index++) {
+    for(_index = 0; _index < index; _index++)
+    VF_LOOP(list_insert)
+    {
+        VF_GHOST(list_insert)
         next = next->next;
         previous = next->previous;
     }
@@ -337,7 +346,10 @@ void remove_value_linked_list(struct linked_list_t *linked_list, void *value, ch
     current_node = linked_list->first;
 
     /* iterates over the index value */
-    for(index = 0; index < linked_list->size; index++) {
+    for(index = 0; index < linked_list->size; index++)
+    VF_LOOP(list_find)
+    {
+        VF_GHOST(list_find)
         /* in case the current node value is the same
         as the target value */
         if(current_node->value == value) {
@@ -370,7 +382,10 @@ void remove_index_linked_list(struct linked_list_t *linked_list, size_t index, c
     current_node = linked_list->first;
 
     /* iterates over the index value */
-    for(_index = 0; _index < index; _index++) {
+    for(_index = 0; _index < index; _index++)
+    VF_LOOP(list_remove)
+    {
+        VF_GHOST(list_remove)
         /* sets the current node as the next node */
         current_node = current_node->next;
     }
@@ -390,7 +405,10 @@ void get_linked_list(struct linked_list_t *linked_list, size_t index, struct lin
     current_node = linked_list->first;
 
     /* iterates over the index value */
-    for(_index = 0; _index < index; _index++) {
+    for(_index = 0; _index < index; _index++)
+    VF_LOOP(list_get)
+    {
+        VF_GHOST(list_get)
         /* sets the current node as the next node */
         current_node = current_node->next;
     }
@@ -620,7 +638,10 @@ void to_sequence_linked_list(struct linked_list_t *linked_list, void ***sequence
 
     /* iterates over the sequence to create the sequence
     with the linked list nodes value */
-    for(index = 0; index < linked_list->size; index++) {
+    for(index = 0; index < linked_list->size; index++)
+    VF_LOOP(list_sequence)
+    {
+        VF_GHOST(list_sequence)
         /* retrieves the next node */
         next_node = current_node->next;
 
@@ -660,7 +681,10 @@ void sort_linked_list(struct linked_list_t *linked_list, comparator cmp) {
 
     /* iterates over the sequence to update the proper
     elements in the linked list (reuses current nodes) */
-    for(index = 0; index < sequence_size; index++) {
+    for(index = 0; index < sequence_size; index++)
+    VF_LOOP(list_sort)
+    {
+        VF_GHOST(list_sort)
         /* retrieves the next node */
         next_node = current_node->next;
 
-- 
2.43.0


From 169b8c1c4b18088606147786af69583cfb6ada81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:54 +0000
Subject: [PATCH 30/43] hooks: linked list insertion

---
 src/viriatum_commons/structures/linked_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index b17df55..5c28985 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -221,6 +221,7 @@ void append_index_linked_list(
         next = next->next;
         previous = next->previous;
     }
+    VF_GHOST(list_inserted)
 
     /* in case either the current index is the first one or the last one
     the first and last pointer references must be updated in the linked list */
-- 
2.43.0


From 2942069392a0de593212d12cff566a8cda11d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:16 +0000
Subject: [PATCH 31/43] fix: the SHA-1 message length is right for updates of
 512 megabytes and more

---
 src/viriatum_commons/checksum/sha1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..0d40741 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -55,7 +55,7 @@ void update_sha1(struct sha1_context_t *context, const unsigned char *data, cons
     size_t i, j;
 
     j = (context->count[0] >> 3) & 63;
-    if((context->count[0] += size << 3) < (size << 3)) { context->count[1]++; }
+    if((context->count[0] += (unsigned int) (size << 3)) < (unsigned int) (size << 3)) { context->count[1]++; }
     context->count[1] += (size >> 29);
     if((j + size) > 63) {
         memcpy(&context->buffer[j], data, (i = 64 - j));
-- 
2.43.0


From 8692bdd8d0fc7da626e9a1dab8cc33107033278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:28 +0000
Subject: [PATCH 32/43] fix: SHA-1 does not change the data it hashes

---
 src/viriatum_commons/checksum/sha1.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 0d40741..2b8223b 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,13 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
+    union sha1_block_t block_copy;
     union sha1_block_t *block;
 
-    block = (union sha1_block_t *) buffer;
+    /* copies the block as the rounds change it (the
+    provided data must not be changed) */
+    memcpy(block_copy.c, buffer, sizeof(block_copy.c));
+    block = &block_copy;
 
     /* copies context state to working vars */
     a = state[0];
-- 
2.43.0


From b4c9563018907df8e73fa20f2e6980c0cfe37cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:30 +0000
Subject: [PATCH 33/43] hooks: checksum loops

---
 src/viriatum_commons/checksum/crc_32.c  | 4 +++-
 src/viriatum_commons/checksum/md5.c     | 4 ++--
 src/viriatum_commons/checksum/sha1.c    | 4 ++--
 src/viriatum_commons/global/contracts.h | 8 +++++++-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/checksum/crc_32.c b/src/viriatum_commons/checksum/crc_32.c
index 2c99e55..4418e68 100644
--- a/src/viriatum_commons/checksum/crc_32.c
+++ b/src/viriatum_commons/checksum/crc_32.c
@@ -95,7 +95,9 @@ unsigned long crc_32(unsigned char *buffer, unsigned int buffer_length) {
     crc32_value = 0 ^ 0xffffffff;
 
     /* iterates over the length of the buffer */
-    for(index = 0; index < buffer_length; index++) {
+    for(index = 0; index < buffer_length; index++)
+    VF_LOOP(crc_32) {
+        VF_GHOST(crc_32)
         /* recalculates the new crc 32 value for the "new" byte */
         crc32_value = crc32_table[(crc32_value ^ buffer[index]) & 0xff] ^ (crc32_value >> 8);
     }
diff --git a/src/viriatum_commons/checksum/md5.c b/src/viriatum_commons/checksum/md5.c
index 452594f..b7f1e8a 100644
--- a/src/viriatum_commons/checksum/md5.c
+++ b/src/viriatum_commons/checksum/md5.c
@@ -154,7 +154,7 @@ void *_body_md5(struct md5_context_t *context, void *data, unsigned long size) {
     c = context->c;
     d = context->d;
 
-    do {
+    VF_DO(md5)
         saved_a = a;
         saved_b = b;
         saved_c = c;
@@ -238,7 +238,7 @@ void *_body_md5(struct md5_context_t *context, void *data, unsigned long size) {
         d += saved_d;
 
         pointer += 64;
-    } while(size -= 64);
+    VF_WHILE(size -= 64)
 
     context->a = a;
     context->b = b;
diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 2b8223b..e87b6ce 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -60,7 +60,7 @@ void update_sha1(struct sha1_context_t *context, const unsigned char *data, cons
     if((j + size) > 63) {
         memcpy(&context->buffer[j], data, (i = 64 - j));
         _transform_sha1(context->state, context->buffer);
-        for(; i + 63 < size; i += 64) { _transform_sha1(context->state, data + i); }
+        for(; i + 63 < size; i += 64) VF_LOOP(sha1_update) { VF_GHOST(sha1_update) _transform_sha1(context->state, data + i); }
         j = 0;
     }
     else {
@@ -77,7 +77,7 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
     for(i = 0; i < 8; i++) { finalcount[i] = (unsigned char) ((context->count[(i >= 4 ? 0 : 1)] >> ((3-(i & 3)) * 8) ) & 255); }
 
     update_sha1(context, (unsigned char *)"\200", 1);
-    while((context->count[0] & 504) != 448) { update_sha1(context, (unsigned char *)"\0", 1); }
+    while((context->count[0] & 504) != 448) VF_LOOP(sha1_pad) { VF_GHOST(sha1_pad) update_sha1(context, (unsigned char *)"\0", 1); }
     update_sha1(context, finalcount, 8);
     for(i = 0; i < SHA1_DIGEST_SIZE; i++) { digest[i] = (unsigned char) ((context->state[i>>2] >> ((3-(i & 3)) * 8) ) & 255); }
 
diff --git a/src/viriatum_commons/global/contracts.h b/src/viriatum_commons/global/contracts.h
index a5f501f..b9294a6 100644
--- a/src/viriatum_commons/global/contracts.h
+++ b/src/viriatum_commons/global/contracts.h
@@ -35,14 +35,20 @@
  * real code, the contract itself is provided by the verification unit
  * that is including the source file. With the guard off (every normal
  * build) these macros expand to nothing. VF_CONST states that a table
- * of pointers is never written.
+ * of pointers is never written. VF_DO and VF_WHILE are the head and
+ * the end of a loop tested at its end (contracts need the test inside
+ * the loop).
  */
 #ifdef VIRIATUM_CONTRACTS
 #define VF_LOOP(name) VF_LOOP_##name
 #define VF_GHOST(name) VF_GHOST_##name
 #define VF_CONST const
+#define VF_DO(name) while(1) VF_LOOP(name) { VF_GHOST(name)
+#define VF_WHILE(condition) if(!(condition)) { break; } }
 #else
 #define VF_LOOP(name)
 #define VF_GHOST(name)
 #define VF_CONST
+#define VF_DO(name) do {
+#define VF_WHILE(condition) } while(condition);
 #endif
-- 
2.43.0


From 4ee4a34a759b242c4920a40cec3ccfc09b60304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:50 +0000
Subject: [PATCH 34/43] fix: a key set again keeps its place in the sort map
 and its key string

---
 src/viriatum_commons/structures/hash_map.c | 16 ++++------------
 src/viriatum_commons/structures/sort_map.c |  6 ++++++
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index 626c08a..a3cf1de 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -434,27 +434,19 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         }
     }
 
-    /* in case the key string is already defined in the
-    element (must release it properly) unsets it */
-    if(element->key_string != NULL) {
-        /* releases the key string memory (avoids memory leak)
-        and then unsets the key string reference in the element */
-        FREE(element->key_string);
-        element->key_string = NULL;
-    }
-
     /* sets the element fields, the element is considered to be
-    new in case it was not being used */
+    new in case it was not being used, otherwise the (equal) key
+    string is kept as it may be referenced from the outside */
     is_new = element->used == 0;
     element->value = value;
     element->key = key;
-    element->key_string = key_string;
+    if(is_new) { element->key_string = key_string; }
     element->used = 1;
 
     /* in case the key string is defined must copy
     the string information into the element in case
     the copy flag is set (memory duplicate) */
-    if(key_string != NULL && copy == TRUE) {
+    if(is_new && key_string != NULL && copy == TRUE) {
         /* allocates the required memory for the key string
         and then copies the key string into the element */
         key_string_size = strlen((char *) key_string);
diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..1c5a3e8 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -58,8 +58,14 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
+    size_t size = sort_map->hash_map->size;
 
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
+
+    /* in case the key was already set it keeps its place in
+    the lists, nothing more to be done */
+    if(sort_map->hash_map->size == size) { return; }
+
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
     append_value_linked_list(sort_map->key_string_list, (void *) element->key_string);
-- 
2.43.0


From 7a755996bb605769a2a9dc11dd63fad73e4e5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:02 +0000
Subject: [PATCH 35/43] fix: configuration sections and keys never overflow
 their buffers and the last value needs no new line

---
 src/viriatum_commons/ini/ini.c          | 22 ++++++++++++++++++++++
 src/viriatum_commons/util/string_util.h |  6 ++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..dc71514 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -86,6 +86,10 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     ini_handler_s.configuration = configuration;
     ini_engine_s.context = ini_handler;
 
+    /* starts the section as an empty one, used for the keys
+    that come before the first section */
+    ini_handler_s.section[0] = '\0';
+
     /* sets the flag that controls if the trailing space
     characters should be removesd from key and values */
     ini_handler_s.remove_spaces = 1;
@@ -178,6 +182,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* in case the file ends inside a value (no new line at the
+    end of the file) the value ends with the file */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
     the configuration file (avoids leaks) */
     FREE(file_buffer);
@@ -190,6 +201,7 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -207,6 +219,7 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
@@ -219,6 +232,10 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     hold the reference to the current section configuration */
     struct sort_map_t *section_configuration;
 
+    /* allocates space for the value that was previously set
+    for the key (in case there's any) */
+    void *previous;
+
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
@@ -240,6 +257,11 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
         set_value_string_sort_map(ini_handler->configuration, (unsigned char *) ini_handler->section, section_configuration);
     }
 
+    /* releases the value previously set for the key, as it's going
+    to be replaced by the new one */
+    get_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, &previous);
+    if(previous != NULL) { FREE(previous); }
+
     /* sets the current key and value under the current section configuration
     this is the main handler action */
     set_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, value);
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..abbb928 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,12 +199,11 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(TRUE) {
+    while(size > 0) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer--;
         size--;
-        if(size == 0) { break; }
     }
 
     return size;
@@ -215,12 +214,11 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(TRUE) {
+    while(_size < size) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer++;
         _size++;
-        if(_size == size) { break; }
     }
 
     return _size;
-- 
2.43.0


From d5a51c869096a5d96189ecd7119880f3e3a57a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:02 +0000
Subject: [PATCH 36/43] hooks: configuration loops

---
 src/viriatum_commons/ini/ini.c          | 4 +++-
 src/viriatum_commons/util/string_util.h | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index dc71514..20db4ee 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -112,7 +112,9 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
 
     /* iterates over the byte range of the file, all the bytes
     should be contained in the buffer "under" iteration */
-    for(index = 0; index < file_size; index++) {
+    for(index = 0; index < file_size; index++)
+    VF_LOOP(ini) {
+        VF_GHOST(ini)
         /* retrieves the current character from the
         file buffer and the retrieves the pointer to
         its position */
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index abbb928..b41b362 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,7 +199,8 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(size > 0) {
+    while(size > 0)
+    VF_LOOP(trailing) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer--;
@@ -214,7 +215,8 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(_size < size) {
+    while(_size < size)
+    VF_LOOP(leading) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer++;
-- 
2.43.0


From f71db5eb06786043fe99e27f47e96a5eface4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:21 +0000
Subject: [PATCH 37/43] hooks: configuration release

---
 src/viriatum/system/service.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 7dabba4..bf8fec6 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -219,7 +219,9 @@ void delete_configuration(struct sort_map_t *configuration, int is_top) {
     create_element_iterator_sort_map(configuration, &configuration_iterator);
 
     /* iterates continuously */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(configuration_delete) {
+        VF_GHOST(configuration_delete)
         /* retrieves the next value from the configuration iterator */
         get_next_iterator(configuration_iterator, (void **) &element);
 
-- 
2.43.0


From b9351d65f885e457e858ce50ca3c7c46fe2bc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:48 +0000
Subject: [PATCH 38/43] fix: a refused request names its realm when no
 templates are used

---
 src/viriatum/http/http_util.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index fc6e197..582256a 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -262,6 +262,7 @@ ERROR_CODE write_http_error_a(
 ) {
     /* allocates space for the result buffer related
     variables (for both the buffer pointer and size) */
+    size_t count;
     size_t result_length;
     unsigned char *result_buffer;
 
@@ -397,8 +398,11 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
+        then writes the error description itself, the apropriate
+        header writing method is chosen based on the existence or
+        not of the realm authorization field */
+        result_length = strlen(_error_description);
+        count = realm == NULL ? write_http_headers_c(
             connection,
             headers_buffer,
             size,
@@ -406,10 +410,23 @@ ERROR_CODE write_http_error_a(
             error_code,
             error_message,
             keep_alive,
-            strlen(_error_description),
+            result_length,
             NO_CACHE,
-            _error_description
+            TRUE
+        ) : write_http_headers_a(
+            connection,
+            headers_buffer,
+            size,
+            version,
+            error_code,
+            error_message,
+            keep_alive,
+            result_length,
+            NO_CACHE,
+            realm,
+            TRUE
         );
+        memcpy(&headers_buffer[count], _error_description, result_length + 1);
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks */
-- 
2.43.0


From 1aa3a39049a0f27b8a0772513ca42dbe44d8cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:12 +0000
Subject: [PATCH 39/43] hooks: string buffer loops

---
 src/viriatum_commons/structures/string_buffer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/string_buffer.c b/src/viriatum_commons/structures/string_buffer.c
index 0108392..0ada3e7 100644
--- a/src/viriatum_commons/structures/string_buffer.c
+++ b/src/viriatum_commons/structures/string_buffer.c
@@ -61,7 +61,9 @@ void delete_string_buffer(struct string_buffer_t *string_buffer) {
 
     /* iterates continuously for release list
     cleanup (string value memory release) */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(string_release)
+    {
         /* pops a node from the release list */
         pop_value_linked_list(string_buffer->release_list, (void **) &string_value, 1);
 
@@ -138,7 +140,9 @@ void join_string_buffer(struct string_buffer_t *string_buffer, unsigned char **s
 
     /* iterates continuously to process to "join" the
     various "partial" string values into a single buffer */
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(string_join)
+    {
         /* retrieves the next value from the string iterator
         as the partial value */
         get_next_iterator(string_iterator, (void **) &partial_value);
-- 
2.43.0


From 001abd8651faa89f3f486f250de0884cbb659364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:26 +0000
Subject: [PATCH 40/43] fix: an index file outside of every location keeps the
 location of its directory and a missing handler is an error

---
 src/viriatum/handlers/handler_dispatch.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 2785d2b..0083be9 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -322,6 +322,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                     break;
                 }
 
+                /* in case the index file matches no regular expression
+                the match of the base path is still the one in use */
+                if(index == dispatch_handler->regex_count) { index = _index; }
+
                 /* in case the matching index has changed a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
                 if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
@@ -329,6 +333,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             }
         }
 
+        /* in case the handler for the resolved index file is not
+        loaded the request is not dispatched to any handler */
+        if(handler == NULL) {
+            V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+            RAISE_NO_ERROR;
+        }
+
         /* retrieves the current handler and then unsets it
         from the connection (detach) then sets the the proper
         handler in the connection and notifies it of the url */
-- 
2.43.0


From 80d914818bbc5eb4dba8689c05ee97458f1405bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:26 +0000
Subject: [PATCH 41/43] fix: the names of the sections are not read past their
 end and the locations never overflow their buffer

---
 src/viriatum/system/service.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index bf8fec6..1824561 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -323,7 +323,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
@@ -337,6 +337,8 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
 
         name = &element->key_string[sizeof("location:") - 1];
 
+        if(service->locations.count == sizeof(service->locations.values) / sizeof(struct location_t)) { break; }
+
         _location = &service->locations.values[service->locations.count];
         _location->name = name;
         _location->path = path;
-- 
2.43.0


From 7716831dfbf13a13b32b19f4e70e1bc5f672e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:26 +0000
Subject: [PATCH 42/43] fix: an extension of any length never overflows its
 buffer

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 1824561..7148c88 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -2309,6 +2309,7 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+    if(extension_s >= VIRIATUM_MAX_EXTENSION_SIZE) { return NULL; }
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From e6c815db4b999466b8e372cade9d455171970a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:58 +0000
Subject: [PATCH 43/43] hooks: location loops

---
 src/viriatum/handlers/handler_dispatch.c | 16 ++++++++++++----
 src/viriatum/handlers/handler_file.c     |  4 +++-
 src/viriatum/system/service.c            |  4 +++-
 src/viriatum_commons/io/file.h           |  4 +++-
 src/viriatum_commons/util/string_util.h  |  4 +++-
 5 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 0083be9..dd2472b 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -60,7 +60,9 @@ ERROR_CODE delete_dispatch_handler(struct dispatch_handler_t *dispatch_handler)
 
     /* iterates over all the regular expressions to release their
     internal memory contents */
-    for(index = 0; index < dispatch_handler->regex_count; index++ ) {  pcre_free(dispatch_handler->regex[index]); }
+    for(index = 0; index < dispatch_handler->regex_count; index++ )
+    VF_LOOP(dispatch_delete)
+    {  pcre_free(dispatch_handler->regex[index]); }
 
     /* in case the names buffer is defined releases it */
     if(dispatch_handler->names != NULL) { FREE(dispatch_handler->names); }
@@ -113,7 +115,9 @@ ERROR_CODE register_handler_dispatch(struct service_t *service) {
 
     /* iterates over all the locations in the service to compile
     the associated regular expressions */
-    for(index = 0; index < service->locations.count; index++) {
+    for(index = 0; index < service->locations.count; index++)
+    VF_LOOP(dispatch_register)
+    {
         location = &service->locations.values[index];
         dispatch_handler->regex[index] = pcre_compile((char *) location->path, 0, &error, &error_offset, NULL);
         dispatch_handler->names[index] = location->handler;
@@ -243,7 +247,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 #ifdef VIRIATUM_PCRE
     /* iterates over all the regular expressions so that they
     may be tested agains the current path */
-    for(index = 0; index < dispatch_handler->regex_count; index++) {
+    for(index = 0; index < dispatch_handler->regex_count; index++)
+    VF_LOOP(dispatch_match)
+    {
         /* tries to match the current path against the registered
         regular expression in case it fails continues the loop */
         matching = pcre_exec(
@@ -308,7 +314,9 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 
                 /* iterates over all the regular expressions so that they
                 may be tested agains the current path */
-                for(index = 0; index < dispatch_handler->regex_count; index++) {
+                for(index = 0; index < dispatch_handler->regex_count; index++)
+                VF_LOOP(dispatch_index)
+                {
                     /* tries to match the current path against the registered
                     regular expression in case it fails continues the loop */
                     matching = pcre_exec(dispatch_handler->regex[index], NULL, (char *) path, path_size, 0, 0, offsets, 3);
diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 5498cbc..6c0c594 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -161,7 +161,9 @@ ERROR_CODE register_handler_file(struct service_t *service) {
 
     /* iterates over all the locations in the service to create the
     proper configuration structures to the module */
-    for(index = 0; index < service->locations.count; index++) {
+    for(index = 0; index < service->locations.count; index++)
+    VF_LOOP(file_register)
+    {
         /* retrieves the current (service) location and then uses it
         to retrieve the configuration sort map */
         location = &service->locations.values[index];
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 7148c88..de0c4de 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -319,7 +319,9 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
     struct sort_map_t *configuration = service->configuration;
     create_element_iterator_sort_map(configuration, &iterator);
 
-    while(TRUE) {
+    while(TRUE)
+    VF_LOOP(locations)
+    {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
diff --git a/src/viriatum_commons/io/file.h b/src/viriatum_commons/io/file.h
index e32d0d8..797555d 100644
--- a/src/viriatum_commons/io/file.h
+++ b/src/viriatum_commons/io/file.h
@@ -237,7 +237,9 @@ static __inline char *validate_file(char *base_path, char *buffer, size_t count,
 
     /* iterate over the range of element in the buffer
     to be verified */
-    for(index = 0; index < count; index++) {
+    for(index = 0; index < count; index++)
+    VF_LOOP(validate)
+    {
         /* creates the complete file path using the
         current buffer pointer value (current file
         path for validation) */
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b41b362..2a3b9c3 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -118,7 +118,9 @@ static __inline unsigned char *untrim(unsigned char *string_value, char last) {
 }
 
 static __inline void lowercase(char *string_value) {
-    while(*string_value != '\0') {
+    while(*string_value != '\0')
+    VF_LOOP(lowercase)
+    {
         if(*string_value == '_') { *string_value = '-'; }
         else { *string_value = tolower((unsigned char) *string_value); }
         string_value++;
-- 
2.43.0

