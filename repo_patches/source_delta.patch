From 06893e30356a12e9258758b8c2a93eb601988143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 01/33] fix: reject a frame whose length is zero or does not
 fit in 31 bits

---
 milter/core/milter-decoder.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..0695ad6 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -401,7 +401,20 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][length] <%d>",
                              priv->tag, priv->command_length);
                 g_string_erase(priv->buffer, 0, COMMAND_LENGTH_BYTES);
-                priv->state = IN_COMMAND_CONTENT;
+                if (priv->command_length <= 0) {
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                priv->command_length == 0 ?
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH :
+                                MILTER_DECODER_ERROR_LONG_COMMAND_LENGTH,
+                                "invalid command length: <%u>",
+                                (guint32)priv->command_length);
+                    priv->state = IN_ERROR;
+                    success = FALSE;
+                    loop = FALSE;
+                } else {
+                    priv->state = IN_COMMAND_CONTENT;
+                }
             }
             break;
         case IN_COMMAND_CONTENT:
-- 
2.43.0


From fc8cb5d486fb283fca00652c5c7bfa34bcc46b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 02/33] fix: refuse to decode more data after a decode error

---
 milter/core/milter-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 0695ad6..f833ae9 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -367,7 +367,7 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
 
     priv = MILTER_DECODER_GET_PRIVATE(decoder);
 
-    g_return_val_if_fail(priv->state != MILTER_DECODER_ERROR, FALSE);
+    g_return_val_if_fail(priv->state != IN_ERROR, FALSE);
 
     if (size == 0)
         return TRUE;
-- 
2.43.0


From e6b43a5aeb9788194102dda98618fa66406d394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 03/33] fix: always report an error when a received frame is
 rejected

---
 milter/core/milter-decoder.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index f833ae9..d49a20f 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -433,6 +433,13 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
                 } else {
+                    if (error && !*error) {
+                        g_set_error(error,
+                                    MILTER_DECODER_ERROR,
+                                    MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                    "required value is empty on command: <%c>",
+                                    priv->buffer->str[0]);
+                    }
                     priv->state = IN_ERROR;
                     loop = FALSE;
                 }
-- 
2.43.0


From a4770bdc2ab53d928f33248b4bb9053171116c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 04/33] fix: use the frame length to check the macro context of
 define macro

---
 milter/core/milter-command-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..6ee7e0f 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -380,7 +380,7 @@ decode_define_macro (MilterDecoder *decoder, GError **error)
     buffer = milter_decoder_get_buffer(decoder);
 
     if (!milter_decoder_check_command_length(buffer + 1,
-                                             strlen(buffer) - 1,
+                                             command_length - 1,
                                              1,
                                              MILTER_DECODER_COMPARE_AT_LEAST,
                                              error,
-- 
2.43.0


From ee313473dc1c28ee9a0ec9a5c8929b221a02cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 05/33] fix: do not read the socket family of a connect command
 past its end

---
 milter/core/milter-command-decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 6ee7e0f..f0a8e74 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -521,6 +521,11 @@ decode_connect_content (const gchar *buffer, gint length,
     decoded_host_name = buffer;
     i = null_character_point + 1;
 
+    if (!milter_decoder_check_command_length(
+            buffer + i, length - i, sizeof(family),
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "socket family on connect command"))
+        return FALSE;
     family = buffer[i];
     i++;
     switch (family) {
-- 
2.43.0


From d00ae8f9be49f7510f1d909ba7bae7a9890ab39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 06/33] fix: reject a too long UNIX domain socket path on
 connect command

---
 milter/core/milter-command-decoder.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index f0a8e74..0ff0501 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -488,6 +488,16 @@ decode_connect_unix_address (const gchar *buffer,
 {
     struct sockaddr_un *address_un;
 
+    if (strlen(buffer) >= sizeof(address_un->sun_path)) {
+        g_set_error(error,
+                    MILTER_COMMAND_DECODER_ERROR,
+                    MILTER_COMMAND_DECODER_ERROR_INVALID_FORMAT,
+                    "too long UNIX domain socket path on connect command: "
+                    "<%s>: <%c>: <%u>: <%s>",
+                    host_name, family, g_ntohs(port), buffer);
+        return FALSE;
+    }
+
     *address_length = sizeof(struct sockaddr_un);
     address_un = g_malloc(*address_length);
     memset(address_un, 0, *address_length);
-- 
2.43.0


From 7078c2b3b270935a01bc1fadd40776da8c3436e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 07/33] fix: do not look for the message of a reply code behind
 its terminator

---
 milter/core/milter-reply-decoder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..1164779 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -206,13 +206,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
         return FALSE;
 
     buffer += 3;
-    command_length -= 3;
+    null_character_point -= 3;
     if (buffer[0] == ' ') {
         buffer++;
-        command_length--;
+        null_character_point--;
     }
 
-    space_character_point = find_space_character(buffer, command_length);
+    space_character_point = find_space_character(buffer, null_character_point);
 
     if (space_character_point <0) {
         extended_code = g_strdup(buffer);
-- 
2.43.0


From 3166eb2d2ad9cf187e21702dbfe997caae971257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 08/33] fix: do not read insert header and change header
 replies past their end

---
 milter/core/milter-reply-decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 1164779..c3a06d6 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -417,7 +417,7 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -443,7 +443,7 @@ decode_reply_change_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
-- 
2.43.0


From 22a7629bdd9e6f382f2810ed457ad68508bea6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 09/33] fix: pass an empty value of insert header reply as an
 empty string

---
 milter/core/milter-reply-decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index c3a06d6..3be9e67 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -422,6 +422,9 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     if (!decoded)
         return FALSE;
 
+    if (!value)
+        value = "";
+
     milter_debug("[%u] [reply-decoder][insert-header] [%d]<%s>=<%s>",
                  milter_decoder_get_tag(decoder),
                  index, name, value);
-- 
2.43.0


From 97e79be9729a04ec153a66f3d65e59e2b70225c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 10/33] fix: reject an add recipient reply without a terminated
 recipient

---
 milter/core/milter-reply-decoder.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 3be9e67..f28edc4 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -544,15 +544,19 @@ decode_reply_change_from (MilterDecoder *decoder, GError **error)
 static gboolean
 decode_reply_add_recipient (MilterDecoder *decoder, GError **error)
 {
+    gint null_character_point;
     const gchar *buffer;
     gint32 command_length;
 
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    milter_decoder_decode_null_terminated_value(
-        buffer + 1, command_length - 1, error,
-        "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    null_character_point =
+        milter_decoder_decode_null_terminated_value(
+            buffer + 1, command_length - 1, error,
+            "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    if (null_character_point <= 0)
+        return FALSE;
 
     milter_debug("[%u] [reply-decoder][add-recipient] <%s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0


From cf7c814781b8b7f3ec1e1d726f57cacf1461bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 11/33] fix: clear the buffer of a reused encoder before
 encoding negotiate

---
 milter/core/milter-encoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-encoder.c b/milter/core/milter-encoder.c
index 0bea8bc..1677cdf 100644
--- a/milter/core/milter-encoder.c
+++ b/milter/core/milter-encoder.c
@@ -191,6 +191,7 @@ milter_encoder_encode_negotiate (MilterEncoder *encoder, MilterOption *option)
     MilterEncoderPrivate *priv;
 
     priv = MILTER_ENCODER_GET_PRIVATE(encoder);
+    milter_encoder_clear_buffer(encoder);
     g_string_append_c(priv->buffer, MILTER_COMMAND_NEGOTIATE);
     if (option) {
         guint32 version, action, step;
-- 
2.43.0


From 0940c50524e503fc7d834847650d83aca7df5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 12/33] fix: do not crash on encoding a macros request without
 symbols

---
 milter/core/milter-reply-encoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index 467321b..4f45c71 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -74,6 +74,9 @@ encode_macros_request (MilterCommand command, GList *symbols, gpointer user_data
     MilterMacroStage stage, normalized_stage;
     gchar encoded_stage[sizeof(guint32)];
 
+    if (!symbols)
+        return;
+
     stage = milter_utils_command_to_macro_stage(command);
     if (stage == -1) {
         /* should emit 'error' signal? */
-- 
2.43.0


From 556260d5c39c69dff8434bec03396fb4c54bb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 13/33] fix: do not pass body chunks through signals as
 NUL-terminated copies

Signal arguments of G_TYPE_STRING are copied up to the first NUL, so a
handler read past the end of the copy when a chunk contained NUL.
---
 milter/client/milter-client-context.c                   | 4 ++--
 milter/core/milter-command-decoder.c                    | 4 ++--
 milter/core/milter-reply-signals.c                      | 2 +-
 milter/manager/milter-manager-control-command-decoder.c | 4 ++--
 milter/manager/milter-manager-control-reply-decoder.c   | 4 ++--
 milter/server/milter-server-context.c                   | 8 ++++----
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..e73b078 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 0ff0501..ffc6b73 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index de47820..1a9e7c6 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -67,10 +67,10 @@ milter_manager_control_command_decoder_class_init (MilterManagerControlCommandDe
                      NULL, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 3f7a1be..f418fef 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -63,10 +63,10 @@ milter_manager_control_reply_decoder_class_init (MilterManagerControlReplyDecode
                      NULL, NULL,
  #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 }
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..d716a14 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,10 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +311,10 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE, G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From b056e2f0dfdd847f4ee0785a0bcb6376283f3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 14/33] fix: pass the size of body chunks as gsize to signals

---
 milter/core/milter-command-decoder.c | 2 +-
 milter/core/milter-reply-decoder.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index ffc6b73..8e4d2d4 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -815,7 +815,7 @@ decode_body (MilterDecoder *decoder, GError **error)
                  command_length - 1);
 
     g_signal_emit(decoder, signals[BODY], 0,
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (gsize)(command_length - 1));
     return TRUE;
 }
 
diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index f28edc4..a068327 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -637,7 +637,7 @@ decode_reply_replace_body (MilterDecoder *decoder, GError **error)
                  command_length);
 
     g_signal_emit_by_name(decoder, "replace-body",
-                  buffer + 1, command_length - 1);
+                  buffer + 1, (gsize)(command_length - 1));
 
     return TRUE;
 }
-- 
2.43.0


From 829baa001a06a0e6beefa5148ab3e1deb243ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 15/33] fix: keep bytes after NUL in pending body chunks

---
 milter/manager/milter-manager-children.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..c6cbd50 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -23,6 +23,7 @@
 
 #include "milter-manager-children.h"
 
+#include <string.h>
 #include <glib/gstdio.h>
 #include "milter-manager-configuration.h"
 #include "milter/core.h"
@@ -358,13 +359,28 @@ pending_end_of_header_request_new (void)
     return request;
 }
 
+static gchar *
+chunk_dup (const gchar *chunk, gsize size)
+{
+    gchar *copied_chunk;
+
+    if (!chunk)
+        return NULL;
+
+    copied_chunk = g_malloc(size + 1);
+    memcpy(copied_chunk, chunk, size);
+    copied_chunk[size] = '\0';
+
+    return copied_chunk;
+}
+
 static PendingMessageRequest *
 pending_body_request_new (const gchar *chunk, gsize size)
 {
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = chunk_dup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -376,7 +392,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = chunk_dup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
-- 
2.43.0


From 897e67204d706378641275e74b4296de7f0be92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 16/33] fix: accept an empty parameter string of change from
 and add recipient replies

---
 milter/core/milter-reply-decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index a068327..770ab43 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -504,7 +504,7 @@ decode_two_string (const gchar *buffer, gint length,
         milter_decoder_decode_null_terminated_value(buffer, length, error,
                                                     error_message);
     g_free(error_message);
-    if (null_character_point <= 0)
+    if (null_character_point < 0)
         return FALSE;
     *second = buffer;
 
-- 
2.43.0


From c46c6d37493e679e14921683541a8cf2782199e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 17/33] fix: keep the known flags of an option that comes with
 unknown ones

GObject refuses a flags property value that has an unknown flag, so a
negotiate with a newer flag lost all of its actions or steps.
---
 milter/core/milter-option.c |  5 +++--
 milter/core/milter-option.h | 13 +++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-option.c b/milter/core/milter-option.c
index 9fb9ffc..c4c7d32 100644
--- a/milter/core/milter-option.c
+++ b/milter/core/milter-option.c
@@ -170,10 +170,11 @@ MilterOption *
 milter_option_new (guint32 version, MilterActionFlags action,
                    MilterStepFlags step)
 {
+    /* GObject refuses a whole flags value with an unknown flag. */
     return g_object_new(MILTER_TYPE_OPTION,
                         "version", version,
-                        "action", action,
-                        "step", step,
+                        "action", action & MILTER_ACTION_MASK,
+                        "step", step & MILTER_STEP_MASK,
                         NULL);
 }
 
diff --git a/milter/core/milter-option.h b/milter/core/milter-option.h
index 168f33d..afd47d6 100644
--- a/milter/core/milter-option.h
+++ b/milter/core/milter-option.h
@@ -55,6 +55,17 @@ typedef enum
     MILTER_ACTION_SET_SYMBOL_LIST =              0x00000100L
 } MilterActionFlags;
 
+#define MILTER_ACTION_MASK                                      \
+    (MILTER_ACTION_ADD_HEADERS |                                \
+     MILTER_ACTION_CHANGE_BODY |                                \
+     MILTER_ACTION_ADD_ENVELOPE_RECIPIENT |                     \
+     MILTER_ACTION_DELETE_ENVELOPE_RECIPIENT |                  \
+     MILTER_ACTION_CHANGE_HEADERS |                             \
+     MILTER_ACTION_QUARANTINE |                                 \
+     MILTER_ACTION_CHANGE_ENVELOPE_FROM |                       \
+     MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS |     \
+     MILTER_ACTION_SET_SYMBOL_LIST)
+
 typedef enum
 {
     MILTER_STEP_NONE =                   0 << 0,
@@ -132,6 +143,8 @@ typedef enum
      MILTER_STEP_ENVELOPE_RECIPIENT_REJECTED |          \
      MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE)
 
+#define MILTER_STEP_MASK                        \
+    (MILTER_STEP_NO_MASK | MILTER_STEP_YES_MASK)
 
 MilterStepFlags milter_step_flags_merge (MilterStepFlags a, MilterStepFlags b);
 
-- 
2.43.0


From 7d63bb1010f9f09bd8086c95c726e36c43de50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 18/33] fix: encode macros whose names are not valid UTF-8

g_utf8_collate() fails on such a name (the process crashes). The order of
the macros in a packet has no meaning, bytes are compared now.
---
 milter/core/milter-command-encoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index fcd3c98..fd6fc87 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -101,7 +101,7 @@ compare_macro_key (gconstpointer a, gconstpointer b)
         key1++;
     if (key2[0] == '{')
         key2++;
-    return g_utf8_collate(key1, key2);
+    return strcmp(key1, key2);
 }
 
 static void
-- 
2.43.0


From fc3ec725974859de386a3af890be8ddf810e8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 19/33] fix: merge macros requests whose symbols are not valid
 UTF-8

g_utf8_collate() fails on such a symbol (the process crashes).
---
 milter/core/milter-macros-requests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-macros-requests.c b/milter/core/milter-macros-requests.c
index bc5f53a..22985b8 100644
--- a/milter/core/milter-macros-requests.c
+++ b/milter/core/milter-macros-requests.c
@@ -255,7 +255,7 @@ merge_requests (MilterCommand command, GList *symbols, gpointer user_data)
     for (node = symbols; node; node = g_list_next(node)) {
         gchar *symbol = node->data;
         if (!g_list_find_custom(copied_symbols, symbol,
-                                (GCompareFunc)g_utf8_collate))
+                                (GCompareFunc)strcmp))
             copied_symbols = g_list_append(copied_symbols, g_strdup(symbol));
     }
     g_hash_table_insert(dest, key, copied_symbols);
-- 
2.43.0


From d66695499ee9ba0d0a4c1a354719d48e4db0b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 20/33] fix: match header names without regard to case when
 counting them

An MTA counts the headers of a name case-insensitively: change and delete
of a header written in another case missed it, and the index computed for
the MTA could select another header.
---
 milter/core/milter-headers.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-headers.c b/milter/core/milter-headers.c
index 1f4d5cf..ba8198d 100644
--- a/milter/core/milter-headers.c
+++ b/milter/core/milter-headers.c
@@ -36,6 +36,18 @@ string_equal (const gchar *string1, const gchar *string2)
     return milter_utils_strcmp0(string1, string2) == 0;
 }
 
+static gboolean
+name_equal (const gchar *name1, const gchar *name2)
+{
+    if (name1 == name2)
+        return TRUE;
+
+    if (name1 == NULL || name2 == NULL)
+        return FALSE;
+
+    return g_ascii_strcasecmp(name1, name2) == 0;
+}
+
 G_DEFINE_BOXED_TYPE(MilterHeader,
                     milter_header,
                     milter_header_copy,
@@ -268,7 +280,7 @@ static gint
 milter_header_name_compare (MilterHeader *header1,
                             const gchar *name)
 {
-    return milter_utils_strcmp0(header1->name, name);
+    return name_equal(header1->name, name) ? 0 : 1;
 }
 
 MilterHeader *
@@ -319,7 +331,7 @@ milter_headers_index_in_same_header_name (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, target->name))
+        if (!name_equal(header->name, target->name))
             continue;
 
         found_count++;
@@ -424,7 +436,7 @@ milter_headers_lookup_by_name_with_index (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, name))
+        if (!name_equal(header->name, name))
             continue;
 
         found_count++;
-- 
2.43.0


From d55c29191d890aac2470075a3a52dd1fbdd39569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 21/33] fix: take only an extended status code as the extended
 code of a reply code

A reply code without extended code ("451 Try later") was reported with the
first word of its text as the extended code. The client context refuses
such a code, so no reply was sent to the MTA at all.
---
 milter/core/milter-reply-decoder.c | 46 ++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 770ab43..eee5867 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -157,6 +157,32 @@ find_space_character (const gchar *buffer, gint length)
     return -1;
 }
 
+static gint
+skip_digits (const gchar *buffer, gint start, gint end)
+{
+    gint i;
+
+    for (i = start; i < end && i < start + 3; i++) {
+        if (!g_ascii_isdigit(buffer[i]))
+            break;
+    }
+    return i;
+}
+
+static gboolean
+is_extended_code (gchar klass, const gchar *buffer, gint length)
+{
+    gint subject_end, detail_end;
+
+    if (length < 5 || buffer[0] != klass || buffer[1] != '.')
+        return FALSE;
+    subject_end = skip_digits(buffer, 2, length);
+    if (subject_end == 2 || subject_end == length || buffer[subject_end] != '.')
+        return FALSE;
+    detail_end = skip_digits(buffer, subject_end + 1, length);
+    return detail_end > subject_end + 1 && detail_end == length;
+}
+
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
@@ -164,8 +190,10 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     gint space_character_point;
     const gchar *buffer;
     gint32 command_length;
+    gint extended_code_length;
+    gchar klass;
     gchar *reply_code_str;
-    gchar *extended_code;
+    gchar *extended_code = NULL;
     gchar *message = NULL;
     guint reply_code;
 
@@ -205,6 +233,7 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     if (null_character_point <= 0)
         return FALSE;
 
+    klass = buffer[0];
     buffer += 3;
     null_character_point -= 3;
     if (buffer[0] == ' ') {
@@ -214,11 +243,16 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 
     space_character_point = find_space_character(buffer, null_character_point);
 
-    if (space_character_point <0) {
-        extended_code = g_strdup(buffer);
-    } else {
-        extended_code = g_strndup(buffer, space_character_point);
-        message = g_strdup(buffer + space_character_point + 1);
+    if (space_character_point < 0)
+        extended_code_length = null_character_point;
+    else
+        extended_code_length = space_character_point;
+    if (is_extended_code(klass, buffer, extended_code_length)) {
+        extended_code = g_strndup(buffer, extended_code_length);
+        if (space_character_point >= 0)
+            message = g_strdup(buffer + space_character_point + 1);
+    } else if (buffer[0] != '\0') {
+        message = g_strdup(buffer);
     }
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
-- 
2.43.0


From 414c38ed6b9147f54801fdb8dc0c116f9e59d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 22/33] fix: format a reply code without text as a single line

A reply without text was formatted as two lines, one with an empty text as
an empty string.
---
 milter/core/milter-utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-utils.c b/milter/core/milter-utils.c
index 2cfd56e..7b6974f 100644
--- a/milter/core/milter-utils.c
+++ b/milter/core/milter-utils.c
@@ -384,8 +384,12 @@ milter_utils_format_reply_code (guint reply_code,
     if (reply_code == 0)
         return NULL;
 
-    if (!reply_message)
-        reply_message = "\n";
+    if (!reply_message || reply_message[0] == '\0') {
+        if (extended_code)
+            return g_strdup_printf("%3u %s", reply_code, extended_code);
+        else
+            return g_strdup_printf("%3u", reply_code);
+    }
     messages = g_strsplit(reply_message, "\n", -1);
 
     original_messages = messages;
-- 
2.43.0


From bc8e294973bdfced78b8c31006be4824d1870ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 23/33] fix: use a reply code only for the reply it was set for

The reply code of an earlier command was sent again for every later
rejection and temporary failure of the connection, even for one of the
other kind.
---
 milter/client/milter-client-context.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index e73b078..10a130c 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3288,6 +3288,20 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     dispose_message_result(priv);
 }
 
+static void
+clear_reply (MilterClientContextPrivate *priv)
+{
+    priv->reply_code = 0;
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 static void
 create_reply_packet (MilterClientContext *context, MilterStatus status,
                      const gchar **packet, gsize *packet_size)
@@ -3306,14 +3320,20 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_REJECT:
     {
-        gchar *code;
-
-        code = milter_client_context_format_reply(context);
+        MilterClientContextPrivate *priv;
+        gchar *code = NULL;
+        guint klass;
+
+        priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+        klass = (status == MILTER_STATUS_TEMPORARY_FAILURE) ? 4 : 5;
+        if (priv->reply_code / 100 == klass)
+            code = milter_client_context_format_reply(context);
         if (code) {
             milter_reply_encoder_encode_reply_code(reply_encoder,
                                                    packet, packet_size,
                                                    code);
             g_free(code);
+            clear_reply(priv);
         } else {
             if (status == MILTER_STATUS_TEMPORARY_FAILURE)
                 milter_reply_encoder_encode_temporary_failure(reply_encoder,
-- 
2.43.0


From 03e5783011cbe6bc7f18e98175421be80bbdb54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 24/33] fix: refuse connection specs whose port number
 overflows an int

atoi() made port 1 of inet:4294967297.
---
 milter/core/milter-connection.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 5b92897..076688d 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -190,6 +190,7 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
 {
     struct in_addr *ip_address;
     struct in6_addr *ipv6_address;
+    guint64 parsed_port_number;
     gint i;
 
     if (protocol_family == PF_INET) {
@@ -216,15 +217,17 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
         }
     }
 
-    *port_number = atoi(port);
-    if (*port_number > 65535) {
+    parsed_port_number = g_ascii_strtoull(port, NULL, 10);
+    if (parsed_port_number > 65535) {
         g_set_error(error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_INVALID_FORMAT,
-                    "port number should be less than 65536: <%s>: <%d>",
-                    spec, *port_number);
+                    "port number should be less than 65536: "
+                    "<%s>: <%" G_GUINT64_FORMAT ">",
+                    spec, parsed_port_number);
         return FALSE;
     }
+    *port_number = parsed_port_number;
 
     return TRUE;
 }
-- 
2.43.0


From 1543bf9dd0e985c5a52bd4c07b95d5a23ecea67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 25/33] fix: refuse connection specs with a too long UNIX
 domain socket path

The path was copied past the end of the address.
---
 milter/core/milter-connection.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 076688d..0f0b1fa 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -269,11 +269,18 @@ milter_connection_parse_spec (const gchar      *spec,
 
     if (g_str_has_prefix(spec, "unix:") ||
         g_str_has_prefix(spec, "local:")) {
+        struct sockaddr_un *address_unix;
+
+        if (strlen(content) >= sizeof(address_unix->sun_path)) {
+            g_set_error(error,
+                        MILTER_CONNECTION_ERROR,
+                        MILTER_CONNECTION_ERROR_INVALID_FORMAT,
+                        "UNIX domain socket path is too long: <%s>", spec);
+            return FALSE;
+        }
         if (domain)
             *domain = PF_UNIX;
         if (address && address_size) {
-            struct sockaddr_un *address_unix;
-
             address_unix = g_new(struct sockaddr_un, 1);
             memset(address_unix, 0, sizeof(*address_unix));
             address_unix->sun_family = AF_UNIX;
-- 
2.43.0


From 5dfc731ce224a228d50d5d5844fe7ceff941c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 26/33] fix: do not share freed ESMTP parameters with the given
 hash table

Parameters that are added to an existing hash table were freed together with
the temporary hash table.
---
 milter/core/milter-esmtp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-esmtp.c b/milter/core/milter-esmtp.c
index 9281c96..545f505 100644
--- a/milter/core/milter-esmtp.c
+++ b/milter/core/milter-esmtp.c
@@ -371,7 +371,7 @@ static void
 merge_parameter (gpointer key, gpointer value, gpointer user_data)
 {
     GHashTable *destination = user_data;
-    g_hash_table_insert(destination, key, value);
+    g_hash_table_insert(destination, g_strdup(key), g_strdup(value));
 }
 
 static void
-- 
2.43.0


From ac9638677a3554f92062fe01ba1a4e42123143ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 27/33] fix: do not read unterminated domain literals and
 quoted local parts past their end

g_ascii_iscntrl() is true for NUL.
---
 milter/core/milter-esmtp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-esmtp.c b/milter/core/milter-esmtp.c
index 545f505..a2ee722 100644
--- a/milter/core/milter-esmtp.c
+++ b/milter/core/milter-esmtp.c
@@ -121,7 +121,7 @@ parse_domain (const gchar *argument, gint index, gint *parsed_position,
                                                "in domain",
                                                argument, index + i);
                 }
-            } else if (g_ascii_isspace(domain[i])) {
+            } else if (!domain[i] || g_ascii_isspace(domain[i])) {
                 break;
             } else if (g_ascii_iscntrl(domain[i]) ||
                        g_ascii_isgraph(domain[i])) {
@@ -199,7 +199,7 @@ parse_local_part (const gchar *argument, gint index, gint *parsed_position,
                 }
             } else if (local_part[i] == '"') {
                 break;
-            } else if (g_ascii_isspace(local_part[i])) {
+            } else if (!local_part[i] || g_ascii_isspace(local_part[i])) {
                 break;
             } else if (g_ascii_iscntrl(local_part[i]) ||
                        g_ascii_isgraph(local_part[i])) {
-- 
2.43.0


From b999c2099b138856ffdd7d40bab6c8b20235126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 28/33] fix: pass the size of a configuration as gsize to
 signals

---
 milter/manager/milter-manager-control-command-decoder.c | 3 ++-
 milter/manager/milter-manager-control-reply-decoder.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index 1a9e7c6..f4a07aa 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -146,7 +146,8 @@ decode_set_configuration (MilterDecoder *decoder,
                           GError **error)
 {
     milter_debug("[control-command-decoder][set-configuration] %d", length);
-    g_signal_emit(decoder, signals[SET_CONFIGURATION], 0, content, length);
+    g_signal_emit(decoder, signals[SET_CONFIGURATION], 0,
+                  content, (gsize)length);
     return TRUE;
 }
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index f418fef..3b4368d 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -100,7 +100,8 @@ decode_configuration (MilterDecoder *decoder,
                       const gchar *content, gint32 length,
                       GError **error)
 {
-    g_signal_emit(decoder, signals[CONFIGURATION], 0, content, length);
+    g_signal_emit(decoder, signals[CONFIGURATION], 0,
+                  content, (gsize)length);
     return TRUE;
 }
 
-- 
2.43.0


From 0332738432761816e87133d182a9d52386c0e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 29/33] fix: end reply messages and launch user names at their
 frame

---
 .../manager/milter-manager-launch-command-decoder.c  |  6 ++++--
 milter/manager/milter-manager-reply-decoder.c        | 12 ++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/milter/manager/milter-manager-launch-command-decoder.c b/milter/manager/milter-manager-launch-command-decoder.c
index 6407141..8b85828 100644
--- a/milter/manager/milter-manager-launch-command-decoder.c
+++ b/milter/manager/milter-manager-launch-command-decoder.c
@@ -96,7 +96,7 @@ decode_launch (MilterDecoder *decoder,
 {
     gint null_character_point;
     const gchar *command_line;
-    const gchar *user_name = NULL;
+    gchar *user_name = NULL;
 
     null_character_point =
         milter_decoder_decode_null_terminated_value(content,
@@ -109,12 +109,14 @@ decode_launch (MilterDecoder *decoder,
 
     command_line = content;
     if (null_character_point < length - 1)
-        user_name = content + null_character_point + 1;
+        user_name = g_strndup(content + null_character_point + 1,
+                              length - null_character_point - 1);
 
     milter_debug("[launch-command-decoder][launch] <%s>@<%s>",
                  command_line,
                  user_name ? user_name : "NULL");
     g_signal_emit(decoder, signals[LAUNCH], 0, command_line, user_name);
+    g_free(user_name);
 
     return TRUE;
 }
diff --git a/milter/manager/milter-manager-reply-decoder.c b/milter/manager/milter-manager-reply-decoder.c
index 77abd87..275ca61 100644
--- a/milter/manager/milter-manager-reply-decoder.c
+++ b/milter/manager/milter-manager-reply-decoder.c
@@ -130,7 +130,11 @@ decode_failure (MilterDecoder *decoder,
                 const gchar *content, gint32 length,
                 GError **error)
 {
-    g_signal_emit(decoder, signals[FAILURE], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[FAILURE], 0, message);
+    g_free(message);
     return TRUE;
 }
 
@@ -139,7 +143,11 @@ decode_error (MilterDecoder *decoder,
               const gchar *content, gint32 length,
               GError **error)
 {
-    g_signal_emit(decoder, signals[ERROR], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[ERROR], 0, message);
+    g_free(message);
     return TRUE;
 }
 
-- 
2.43.0


From 7a892e0307c38f91d3c2eb1080bd3f6f43c0497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 30/33] fix: forget cached macros when macros are set

---
 milter/core/milter-protocol-agent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/milter/core/milter-protocol-agent.c b/milter/core/milter-protocol-agent.c
index afeb0e6..630d9e5 100644
--- a/milter/core/milter-protocol-agent.c
+++ b/milter/core/milter-protocol-agent.c
@@ -347,6 +347,7 @@ milter_protocol_agent_set_macros_valist (MilterProtocolAgent *agent,
         update_macro(macros, name, value);
         name = va_arg(var_args, gchar *);
     }
+    clear_available_macros(priv);
 }
 
 void
-- 
2.43.0


From 70b7eda550afa14cbce596bdc2d620ea0dbc63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 31/33] fix: flush at once when nothing is left to write

---
 milter/core/milter-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..091c0b8 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -502,7 +502,7 @@ milter_writer_flush (MilterWriter *writer, GError **error)
         return FALSE;
     }
 
-    if (priv->write_watch_id > 0) {
+    if (priv->write_watch_id > 0 && priv->buffer->len > 0) {
         priv->flush_point = priv->buffer->len;
         milter_trace("[%u] [writer][flush][flush-point][set] [%u] "
                      "<%" G_GSIZE_FORMAT ">",
-- 
2.43.0


From f084b697acd641f9388b47dc65d92c02c8e289ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 32/33] fix: do not lose a flush requested when flushed

---
 milter/core/milter-writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 091c0b8..5bb3c2a 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -272,6 +272,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterWriter *writer = data;
     MilterWriterPrivate *priv;
     gboolean keep_callback = FALSE;
+    gboolean flushed = FALSE;
     GIOStatus status;
     GError *channel_error = NULL;
 
@@ -301,7 +302,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         if (status == G_IO_STATUS_AGAIN) {
             keep_callback = TRUE;
         } else {
-            g_signal_emit(writer, signals[FLUSHED], 0);
+            flushed = TRUE;
         }
     }
 
@@ -309,6 +310,8 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         milter_trace("[%u] [writer][flush-callback][finish] [%u]",
                      priv->tag, priv->flush_watch_id);
         priv->flush_watch_id = 0;
+        if (flushed)
+            g_signal_emit(writer, signals[FLUSHED], 0);
     }
 
     return keep_callback;
-- 
2.43.0


From ef938af176f53f3325e244e21de834be7ccde75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:24 +0000
Subject: [PATCH 33/33] fix: time out a milter that does not reply to a body
 chunk

---
 milter/server/milter-server-context.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index d716a14..5258381 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -97,6 +97,7 @@ struct _MilterServerContextPrivate
     gdouble reading_timeout;
     gdouble end_of_message_timeout;
     guint timeout_id;
+    gboolean waiting_body_reply;
     guint connect_watch_id;
 
     gboolean skip_body;
@@ -473,6 +474,7 @@ milter_server_context_init (MilterServerContext *context)
     priv->sent_end_of_message = FALSE;
 
     priv->timeout_id = 0;
+    priv->waiting_body_reply = FALSE;
     priv->connection_timeout = MILTER_SERVER_CONTEXT_DEFAULT_CONNECTION_TIMEOUT;
     priv->writing_timeout = MILTER_SERVER_CONTEXT_DEFAULT_WRITING_TIMEOUT;
     priv->reading_timeout = MILTER_SERVER_CONTEXT_DEFAULT_READING_TIMEOUT;
@@ -517,6 +519,7 @@ disable_timeout (MilterServerContext *context)
         milter_event_loop_remove(loop, priv->timeout_id);
         priv->timeout_id = 0;
     }
+    priv->waiting_body_reply = FALSE;
 }
 
 static void
@@ -964,7 +967,7 @@ milter_server_context_is_processing (MilterServerContext *context)
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
 
-    return priv->timeout_id != 0;
+    return priv->timeout_id != 0 && !priv->waiting_body_reply;
 }
 
 static GHashTable *
@@ -1274,13 +1277,15 @@ process_next_state_body (MilterServerContext *context)
     milter_debug("[%u] [server][flushed][next][body] [%s] <%" G_GSIZE_FORMAT ">",
                  tag, NULL_SAFE_NAME(name), priv->body->len);
 
-    if (priv->body->len == 0)
-        return TRUE;
-
-    if (!milter_server_context_need_reply(context, state))
+    if (!milter_server_context_need_reply(context, state)) {
+        if (priv->body->len == 0)
+            return TRUE;
         return flush_body(context);
+    }
 
     disable_timeout(context);
+    /* The next body chunk can be sent before the reply. */
+    priv->waiting_body_reply = (priv->body->len == 0);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
     priv->timeout_id =
         milter_event_loop_add_timeout(loop,
-- 
2.43.0

