From 5710415df01ffaac30bd59ce85b2a7be5283c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 01/20] fix: clear the caller's pointer when HandshakeState
 creation fails

noise_handshakestate_new() freed the partially built object but left the
caller's variable pointing at it.
---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..371bac0 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From 4bf03e00eb79de876d17e917fc347e832430b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 02/20] fix: refuse to start XXfallback+hfs without a preceding
 fallback

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 371bac0..e085272 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -805,7 +805,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+         state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From a262a23b996be625b30ad9905747357b80cf7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 03/20] fix: step over the continuation bytes of 3 and 4 byte
 UTF-8 sequences

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..b9711f2 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From 517eab3bfe1319c912e5e05451a419857736e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 04/20] fix: advance past the first byte when peeking a
 multi-byte varint

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index b9711f2..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1063,7 +1063,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From 1c53ec6fe2e3f6d12261b81758c77afa867c3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 05/20] fix: report an error when a protobuf field is read with
 a negative tag

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..463d30f 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1218,7 +1218,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From 291e2cb41c60259054c202f7ce7a09f4483dc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 06/20] fix: reject a NULL protobuf when reading an untagged
 field

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index 463d30f..f0c3984 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1202,6 +1202,8 @@ static int noise_protobuf_read_varint(NoiseProtobuf *pbuf, uint64_t *value)
 static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
 {
     int err;
+    if (!pbuf)
+        return NOISE_ERROR_INVALID_PARAM;
     if (tag > 0) {
         /* We expect a specific tag value and wire type to occur */
         uint64_t expected = (uint64_t)((((int64_t)tag) << 3) | (int64_t)type);
-- 
2.43.0


From 79f02a63c9e995022bbf6f06c0ff685cdc2ad3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 07/20] fix: keep the error when a repeated protobuf message
 cannot be stored

The generated readers tested pbuf->error the wrong way round, so a failure
of noise_protobuf_add_to_array() was dropped and the value leaked.
---
 src/keys/certificate.c           | 49 +++++++++++++++++++++++---------
 tools/protoc/proto3-generate-c.c | 12 ++++++--
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..0c42757 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -192,8 +192,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
                 int err;
                 Noise_Signature_read(pbuf, 3, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_Signature_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -386,8 +389,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
                 int err;
                 Noise_Certificate_read(pbuf, 8, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_Certificate_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -548,16 +554,22 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
                 int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_PublicKeyInfo_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_MetaInfo_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1580,8 +1592,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
                 int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_MetaInfo_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2151,16 +2166,22 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
                 int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_PrivateKeyInfo_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                   Noise_MetaInfo_free(value);
+                   if (pbuf->error == NOISE_ERROR_NONE)
+                       pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..1e286df 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -837,9 +837,17 @@ static void type_named_read_field
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (err != NOISE_ERROR_NONE) {\n");
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        fprintf(output, "   ");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
+        print_indent();
+        fprintf(output, "   if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "       pbuf->error = err;\n");
+        print_indent();
+        fprintf(output, "}\n");
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
-- 
2.43.0


From e227b16c59c67553e44e2505c34269f720bbf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 08/20] fix: record a failure to allocate a nested protobuf
 message

The generated readers returned NO_MEMORY without latching it in the protobuf,
so the enclosing reader stored a NULL element and reported success.
---
 src/keys/certificate.c           | 50 +++++++++++++++++++++++++-------
 tools/protoc/proto3-generate-c.c |  5 +++-
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 0c42757..86646d3 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -379,8 +382,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -526,8 +532,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -879,8 +888,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1039,8 +1051,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1212,8 +1227,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1564,8 +1582,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1852,8 +1873,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2138,8 +2162,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2491,8 +2518,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 1e286df..aa9388b 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -1594,8 +1594,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From f5a8d4999ab2472a21c1ba9c52d910537cd237e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 09/20] fix: only retry private key encryption when the nonce
 was the cause

noise_save_private_key_to_buffer() retried forever on any other error, such
as a key that is too large to encrypt.
---
 src/keys/loader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..91401dd 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -906,8 +906,8 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1,
                    which we cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
-- 
2.43.0


From 68fd1c91c7e66af7b9dddba9cdb8992dadc40109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 10/20] fix: report a write error that only shows up when the
 file is closed

---
 src/keys/loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 91401dd..00a9bcd 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -607,7 +607,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -772,7 +773,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From cd50e35f76d7292f9eb6aa36c1863697c4918272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 11/20] fix: do not accept the part of a file that precedes a
 read error

---
 src/keys/loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 00a9bcd..58ef059 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -127,7 +127,7 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (!size && ferror(file)) {
+    if (ferror(file)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
-- 
2.43.0


From 4d81bd444d141ace597d1f3453d85d926b1895dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 12/20] fix: clear the caller's variable when a key or
 certificate file cannot be read

---
 src/keys/loader.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 58ef059..c2a5b7b 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -179,7 +179,11 @@ int noise_load_certificate_from_file
     (Noise_Certificate **cert, const char *filename)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!cert)
+        return NOISE_ERROR_INVALID_PARAM;
+    *cert = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_certificate_from_buffer(cert, &pbuf);
@@ -280,7 +284,11 @@ int noise_load_certificate_chain_from_file
     (Noise_CertificateChain **chain, const char *filename)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!chain)
+        return NOISE_ERROR_INVALID_PARAM;
+    *chain = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_certificate_chain_from_buffer(chain, &pbuf);
@@ -377,7 +385,11 @@ int noise_load_private_key_from_file
      const void *passphrase, size_t passphrase_len)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!key)
+        return NOISE_ERROR_INVALID_PARAM;
+    *key = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_private_key_from_buffer
-- 
2.43.0


From fabc97b0b6acea08b21804c61866e318366a6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 13/20] fix: free the certificate that could not be added to a
 new chain

---
 src/keys/loader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index c2a5b7b..47c6a65 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -344,6 +344,7 @@ int noise_load_certificate_chain_from_buffer
         if (err == NOISE_ERROR_NONE)
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
         if (err != NOISE_ERROR_NONE) {
+            Noise_Certificate_free(cert);
             Noise_CertificateChain_free(*chain);
             *chain = 0;
         }
-- 
2.43.0


From f52be9ced080b01c6ef9ff371d3b54e30bacd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 14/20] fix: do not leave unauthenticated plaintext behind in
 the OpenSSL AESGCM backend

---
 src/backend/openssl/cipher-aesgcm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..4883322 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -158,12 +158,14 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (!EVP_DecryptUpdate(st->ctx, data, &len, data, data_len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
     /* Set expected tag value. Works in OpenSSL 1.0.1d and later */
     if (!EVP_CIPHER_CTX_ctrl(st->ctx, EVP_CTRL_GCM_SET_TAG, 16, data + len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
@@ -172,6 +174,7 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From 1ac483ff298c73aaf93ebb27a0930c19a611d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 15/20] fix: free the AESGCM object when the OpenSSL context
 cannot be created

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index 4883322..25ae549 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -193,8 +193,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, state->parent.size);
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From 9ba76ae1a3fb5deb8a4969d151720a5d3b7f894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 16/20] fix: erase the expanded private key in the libsodium
 Ed25519 backend

---
 src/backend/sodium/sign-ed25519.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/sodium/sign-ed25519.c b/src/backend/sodium/sign-ed25519.c
index 5591860..ee8d7fb 100644
--- a/src/backend/sodium/sign-ed25519.c
+++ b/src/backend/sodium/sign-ed25519.c
@@ -54,6 +54,7 @@ static int noise_ed25519_validate_keypair
     int equal;
     crypto_sign_ed25519_seed_keypair(temp, temp_sk, private_key);
     equal = noise_is_equal(temp, public_key, sizeof(temp));
+    noise_clean(temp_sk, sizeof(temp_sk));
     return NOISE_ERROR_INVALID_PUBLIC_KEY & (equal - 1);
 }
 
@@ -70,6 +71,7 @@ static int noise_ed25519_derive_public_key
 {
     uint8_t temp_sk[crypto_sign_ed25519_SECRETKEYBYTES];
     crypto_sign_ed25519_seed_keypair(public_key, temp_sk, private_key);
+    noise_clean(temp_sk, sizeof(temp_sk));
     return NOISE_ERROR_NONE;
 }
 
-- 
2.43.0


From 3450eaa2b80ebe594cb62107bcb8de6a8d0dfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 17/20] fix: report a failure to initialise libsodium from
 noise_init()

---
 src/protocol/util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/util.c b/src/protocol/util.c
index 1977501..9c8e599 100644
--- a/src/protocol/util.c
+++ b/src/protocol/util.c
@@ -51,11 +51,15 @@ static pthread_once_t noise_is_initialized = PTHREAD_ONCE_INIT;
  * \brief Utility function implementation
  */
 
+static int noise_init_error = NOISE_ERROR_NONE;
+
 void noise_init_helper(void)
 {
 #if USE_LIBSODIUM
-    if (sodium_init() < 0)
+    if (sodium_init() < 0) {
+        noise_init_error = NOISE_ERROR_SYSTEM;
         return;
+    }
 #endif
 #if USE_OPENSSL
     OpenSSL_add_all_algorithms();
@@ -93,7 +97,7 @@ int noise_init(void)
     noise_init_helper();
 #endif
 
-    return NOISE_ERROR_NONE;
+    return noise_init_error;
 }
 
 /**
-- 
2.43.0


From 8e1fc79f485d6b4fb4e4dd9cc1dfb440ab2d86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 18/20] fix: refuse to fall back from the one-way pattern
 Xnoidh

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index e085272..8b41789 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -988,6 +988,7 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
 
     /* The original pattern must end in "K" for fallback to be possible */
     if (state->symmetric->id.pattern_id < NOISE_PATTERN_NN ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_X_NOIDH ||
             (state->requirements & NOISE_REQ_FALLBACK_POSSIBLE) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 175fb4c0674865be20dca74fa0b9f22335fad999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 19/20] fix: reject null values in the certificate field
 setters

---
 src/keys/certificate.c           | 44 ++++++++++++++++----------------
 tools/protoc/proto3-generate-c.c |  2 +-
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 86646d3..933f828 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -621,7 +621,7 @@ size_t Noise_SubjectInfo_get_size_id(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_id(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -665,7 +665,7 @@ size_t Noise_SubjectInfo_get_size_name(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_name(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -709,7 +709,7 @@ size_t Noise_SubjectInfo_get_size_role(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_role(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->role, obj->role_size_);
         obj->role = (char *)malloc(size + 1);
         if (obj->role) {
@@ -949,7 +949,7 @@ size_t Noise_PublicKeyInfo_get_size_algorithm(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_algorithm(Noise_PublicKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -993,7 +993,7 @@ size_t Noise_PublicKeyInfo_get_size_key(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_key(Noise_PublicKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->key, obj->key_size_);
         obj->key = (void *)malloc(size ? size : 1);
         if (obj->key) {
@@ -1112,7 +1112,7 @@ size_t Noise_MetaInfo_get_size_name(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_name(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -1156,7 +1156,7 @@ size_t Noise_MetaInfo_get_size_value(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_value(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->value, obj->value_size_);
         obj->value = (char *)malloc(size + 1);
         if (obj->value) {
@@ -1310,7 +1310,7 @@ size_t Noise_Signature_get_size_id(const Noise_Signature *obj)
 
 int Noise_Signature_set_id(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -1354,7 +1354,7 @@ size_t Noise_Signature_get_size_name(const Noise_Signature *obj)
 
 int Noise_Signature_set_name(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -1434,7 +1434,7 @@ size_t Noise_Signature_get_size_hash_algorithm(const Noise_Signature *obj)
 
 int Noise_Signature_set_hash_algorithm(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->hash_algorithm, obj->hash_algorithm_size_);
         obj->hash_algorithm = (char *)malloc(size + 1);
         if (obj->hash_algorithm) {
@@ -1514,7 +1514,7 @@ size_t Noise_Signature_get_size_signature(const Noise_Signature *obj)
 
 int Noise_Signature_set_signature(Noise_Signature *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->signature, obj->signature_size_);
         obj->signature = (void *)malloc(size ? size : 1);
         if (obj->signature) {
@@ -1660,7 +1660,7 @@ size_t Noise_ExtraSignedInfo_get_size_nonce(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_nonce(Noise_ExtraSignedInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->nonce, obj->nonce_size_);
         obj->nonce = (void *)malloc(size ? size : 1);
         if (obj->nonce) {
@@ -1703,7 +1703,7 @@ size_t Noise_ExtraSignedInfo_get_size_valid_from(const Noise_ExtraSignedInfo *ob
 
 int Noise_ExtraSignedInfo_set_valid_from(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->valid_from, obj->valid_from_size_);
         obj->valid_from = (char *)malloc(size + 1);
         if (obj->valid_from) {
@@ -1747,7 +1747,7 @@ size_t Noise_ExtraSignedInfo_get_size_valid_to(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_valid_to(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->valid_to, obj->valid_to_size_);
         obj->valid_to = (char *)malloc(size + 1);
         if (obj->valid_to) {
@@ -1974,7 +1974,7 @@ size_t Noise_EncryptedPrivateKey_get_size_algorithm(const Noise_EncryptedPrivate
 
 int Noise_EncryptedPrivateKey_set_algorithm(Noise_EncryptedPrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -2018,7 +2018,7 @@ size_t Noise_EncryptedPrivateKey_get_size_salt(const Noise_EncryptedPrivateKey *
 
 int Noise_EncryptedPrivateKey_set_salt(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->salt, obj->salt_size_);
         obj->salt = (void *)malloc(size ? size : 1);
         if (obj->salt) {
@@ -2089,7 +2089,7 @@ size_t Noise_EncryptedPrivateKey_get_size_encrypted_data(const Noise_EncryptedPr
 
 int Noise_EncryptedPrivateKey_set_encrypted_data(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->encrypted_data, obj->encrypted_data_size_);
         obj->encrypted_data = (void *)malloc(size ? size : 1);
         if (obj->encrypted_data) {
@@ -2251,7 +2251,7 @@ size_t Noise_PrivateKey_get_size_id(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_id(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -2295,7 +2295,7 @@ size_t Noise_PrivateKey_get_size_name(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_name(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -2339,7 +2339,7 @@ size_t Noise_PrivateKey_get_size_role(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_role(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->role, obj->role_size_);
         obj->role = (char *)malloc(size + 1);
         if (obj->role) {
@@ -2579,7 +2579,7 @@ size_t Noise_PrivateKeyInfo_get_size_algorithm(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_algorithm(Noise_PrivateKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -2623,7 +2623,7 @@ size_t Noise_PrivateKeyInfo_get_size_key(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_key(Noise_PrivateKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->key, obj->key_size_);
         obj->key = (void *)malloc(size ? size : 1);
         if (obj->key) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index aa9388b..2e2389e 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -662,7 +662,7 @@ static void type_string_declare_field_ops
             fprintf(output, ";\n");
         } else {
             fprintf(output, "\n{\n");
-            fprintf(output, "    if (obj) {\n");
+            fprintf(output, "    if (obj && (value || !size)) {\n");
             indent_level = 2;
             (*(type->free_field))(type, field);
             if (field->type.id == PROTO3_TYPE_STRING) {
-- 
2.43.0


From 78fcb4d6b18d887871537a330adfe7463a91ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 20/20] fix: reject files longer than the maximum when their
 length is unknown

---
 src/keys/loader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 47c6a65..3e9a004 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -89,6 +89,7 @@ static int noise_load_file
 {
     FILE *file;
     size_t size;
+    int at_end;
 
     /* Initialize the buffer */
     pbuf->data = 0;
@@ -127,12 +128,20 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
+    at_end = (size < pbuf->size || fgetc(file) == EOF);
     if (ferror(file)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
         return NOISE_ERROR_SYSTEM;
     }
+    if (!at_end) {
+        /* There is more data than we can handle, so do not truncate it */
+        noise_free(pbuf->data, pbuf->size);
+        pbuf->data = 0;
+        fclose(file);
+        return NOISE_ERROR_INVALID_FORMAT;
+    }
     pbuf->size = size;
 
     /* Clean up and exit */
-- 
2.43.0

